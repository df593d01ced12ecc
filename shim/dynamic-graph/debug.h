#ifndef DGSHIM_DEBUG_H
#define DGSHIM_DEBUG_H
#include <ostream>
#include <streambuf>
namespace dynamicgraph {
inline std::ostream &dgshim_null() { static std::ostream s(0); return s; }
}
#define dgDEBUG(l) if (1) ; else ::dynamicgraph::dgshim_null()
#define dgTDEBUG(l) dgDEBUG(l)
#define dgDEBUGIN(l) dgDEBUG(l)
#define dgDEBUGOUT(l) dgDEBUG(l)
#define dgDEBUGINOUT(l) dgDEBUG(l)
#define dgERROR dgDEBUG(1)
#define dgDEBUGF(...) if (1) ; else (void)0
#endif
