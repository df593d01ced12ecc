#pragma once
#include <dynamic-graph/debug.h>
#include <iostream>
namespace dynamicgraph {
class RTLoggerStream { public: template <class T> RTLoggerStream &operator<<(const T &) { return *this; }
  RTLoggerStream &operator<<(std::ostream &(*)(std::ostream &)) { return *this; } };
class LoggerStream { public: virtual ~LoggerStream() {} virtual void write(const char *) = 0; };
class LoggerIOStream : public LoggerStream { public: LoggerIOStream(std::ostream &) {} void write(const char *) {} };
typedef std::shared_ptr<LoggerStream> LoggerStreamPtr_t;
class RealTimeLogger { public: static RealTimeLogger &instance() { static RealTimeLogger l; return l; } static void destroy() {}
  RTLoggerStream front() { return RTLoggerStream(); } void addOutputStream(const LoggerStreamPtr_t &) {} void clearOutputStreams() {} };
}
#define dgADD_OSTREAM_TO_RTLOG(ostr) ((void)0)
#define dgRTLOG() ::dynamicgraph::RealTimeLogger::instance().front()
