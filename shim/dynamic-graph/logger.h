#ifndef DGSHIM_LOGGER_H
#define DGSHIM_LOGGER_H
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <dynamic-graph/debug.h>
#include <dynamic-graph/linear-algebra.h>
#include <iomanip>
namespace dynamicgraph {
enum MsgType { MSG_TYPE_TYPE_BITS = 1 << 0 | 1 << 1 | 1 << 2 | 1 << 3, MSG_TYPE_STREAM_BIT = 1 << 4,
  MSG_TYPE_DEBUG = 1 << 3, MSG_TYPE_INFO = 1 << 2, MSG_TYPE_WARNING = 1 << 1, MSG_TYPE_ERROR = 1 << 0,
  MSG_TYPE_DEBUG_STREAM = MSG_TYPE_DEBUG | MSG_TYPE_STREAM_BIT, MSG_TYPE_INFO_STREAM = MSG_TYPE_INFO | MSG_TYPE_STREAM_BIT,
  MSG_TYPE_WARNING_STREAM = MSG_TYPE_WARNING | MSG_TYPE_STREAM_BIT, MSG_TYPE_ERROR_STREAM = MSG_TYPE_ERROR | MSG_TYPE_STREAM_BIT };
enum LoggerVerbosity { VERBOSITY_ALL = 8, VERBOSITY_INFO_WARNING_ERROR = 4, VERBOSITY_WARNING_ERROR = 2, VERBOSITY_ERROR = 1, VERBOSITY_NONE = 0 };
template <typename T> std::string toString(const T &v, const int precision = 3, const int width = -1) {
  std::stringstream ss; if (width > precision) ss << std::fixed << std::setw(width) << std::setprecision(precision) << v;
  else ss << std::fixed << std::setprecision(precision) << v; return ss.str(); }
inline std::string toString(const Eigen::Ref<const Eigen::VectorXd> &v, const int precision = 3, const int width = -1, const std::string sep = ", ") {
  std::stringstream ss; (void)width; ss << std::fixed << std::setprecision(precision);
  for (Eigen::Index i = 0; i < v.size(); ++i) ss << (i ? sep : std::string()) << v[i]; return ss.str(); }
class Logger {
 public:
  Logger(double = 0.001, double = 1.0) : lv(VERBOSITY_ERROR) {}
  std::ostream &stream() { return dgshim_null(); }
  std::ostream &stream(MsgType, const std::string & = "") { return dgshim_null(); }
  void sendMsg(const std::string &, MsgType, const std::string & = "") {}
  void sendMsg(const std::string &, MsgType, const std::string &, int) {}
  bool setTimeSample(double t) { ts = t; return true; }
  bool setStreamPrintPeriod(double t) { sp = t; return true; }
  double getTimeSample() { return ts; }
  double getStreamPrintPeriod() { return sp; }
  void setVerbosity(LoggerVerbosity l) { lv = l; }
  LoggerVerbosity getVerbosity() { return lv; }
  void countdown() {}
 private:
  LoggerVerbosity lv; double ts = 0, sp = 0;
};
}  // namespace dynamicgraph
#define SEND_MSG(msg, type) sendMsg(msg, type, __FILE__ ":" "0")
#define SEND_DEBUG_STREAM_MSG(msg) SEND_MSG(msg, ::dynamicgraph::MSG_TYPE_DEBUG_STREAM)
#define SEND_INFO_STREAM_MSG(msg) SEND_MSG(msg, ::dynamicgraph::MSG_TYPE_INFO_STREAM)
#define SEND_WARNING_STREAM_MSG(msg) SEND_MSG(msg, ::dynamicgraph::MSG_TYPE_WARNING_STREAM)
#define SEND_ERROR_STREAM_MSG(msg) SEND_MSG(msg, ::dynamicgraph::MSG_TYPE_ERROR_STREAM)
#endif
