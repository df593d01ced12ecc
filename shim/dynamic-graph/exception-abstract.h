#ifndef DGSHIM_EXC_H
#define DGSHIM_EXC_H
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <exception>
#include <ostream>
#include <string>
#include <dynamic-graph/fwd.hh>
#define DG_RETHROW catch (::dynamicgraph::ExceptionAbstract & err) { throw err; }
#define DG_THROW throw
namespace dynamicgraph {
class ExceptionAbstract : public std::exception {
 public:
  class Param {
   public:
    static const int BUFFER_SIZE = 80;
    const char *functionPTR; char function[BUFFER_SIZE]; int line;
    const char *filePTR; char file[BUFFER_SIZE]; bool pointersSet, set;
    Param(const int &l, const char *f, const char *fi) : functionPTR(f), line(l), filePTR(fi), pointersSet(true), set(true) {}
    Param() : functionPTR(0), line(0), filePTR(0), pointersSet(false), set(false) {}
    Param &initCopy(const Param &p) { *this = p; return *this; }
  };
  enum ExceptionEnum { ABSTRACT = 0, SIGNAL = 100, FACTORY = 200, DYNAMIC = 300, TRACES = 400, TOOLS = 700 };
  static const std::string EXCEPTION_NAME;
  ExceptionAbstract(const int &code, const std::string &msg) : code(code), message(msg) {}
  virtual ~ExceptionAbstract() throw() {}
  virtual const std::string &getExceptionName() const { return EXCEPTION_NAME; }
  virtual const char *what() const throw() { return message.c_str(); }
  const char *getMessage() const { return message.c_str(); }
  const std::string &getStringMessage() const { return message; }
  int getCode() const { return code; }
  friend std::ostream &operator<<(std::ostream &os, const ExceptionAbstract &e) {
    os << e.getExceptionName() << "Error [#" << e.code << "]: " << e.message << std::endl; return os; }
 protected:
  int code; std::string message;
};
#define DGSHIM_EXC(Name, ...)                                                     \
  class Name : public ExceptionAbstract {                                         \
   public:                                                                        \
    enum ErrorCodeEnum { __VA_ARGS__ };                                           \
    static const std::string EXCEPTION_NAME;                                      \
    virtual const std::string &getExceptionName() const { return EXCEPTION_NAME; }\
    ErrorCodeEnum code;                                                           \
    Name(const ErrorCodeEnum &c, const std::string &msg = "") : ExceptionAbstract(c, msg), code(c) {} \
    Name(const ErrorCodeEnum &c, const std::string &msg, const char *format, ...) : ExceptionAbstract(c, msg), code(c) { \
      char buf[512]; va_list a; va_start(a, format); vsnprintf(buf, 512, format, a); message += buf; va_end(a); } \
    virtual ~Name() throw() {}                                                    \
  }
DGSHIM_EXC(ExceptionSignal, GENERIC = SIGNAL, READWRITE_LOCK, COPY_NOT_INITIALIZED, NOT_INITIALIZED, PLUG_IMPOSSIBLE, SET_IMPOSSIBLE, BAD_CAST);
DGSHIM_EXC(ExceptionFactory, GENERIC = FACTORY, UNREFERED_OBJECT, UNREFERED_SIGNAL, UNREFERED_FUNCTION, DYNAMIC, SIGNAL_CONFLICT, FUNCTION_CONFLICT, OBJECT_CONFLICT, SYNTAX_ERROR, READ_FILE);
DGSHIM_EXC(ExceptionTraces, GENERIC = TRACES, NOT_OPEN);
}  // namespace dynamicgraph
#endif
