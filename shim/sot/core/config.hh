#ifndef SOTSHIM_CONFIG
#define SOTSHIM_CONFIG
#ifndef SOT_CORE_DLLAPI
#define SOT_CORE_DLLAPI
#endif
#define SOT_CORE_DLLIMPORT
#define SOT_CORE_DLLEXPORT
#define SOT_CORE_LOCAL
#ifndef SOT_CORE_VERSION
#define SOT_CORE_VERSION "4.11"
#endif
#endif
