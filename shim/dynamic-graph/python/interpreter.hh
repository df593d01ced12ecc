#pragma once
#include <string>
#include <vector>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/python/api.hh>
namespace dynamicgraph { namespace python {
// recording stand-in: remembers what it was asked to run
struct InterpreterLog { static std::vector<std::string> &log() { static std::vector<std::string> l; return l; } };
class Interpreter {
 public:
  Interpreter() {}
  ~Interpreter() {}
  void python(const std::string &command, std::string &result, std::string &out, std::string &err) {
    InterpreterLog::log().push_back("py:" + command); result = "R(" + command + ")"; out = "O(" + command + ")"; err = ""; 
    if (command.find("ERR") != std::string::npos) err = "E(" + command + ")"; }
  std::string python(const std::string &command) { InterpreterLog::log().push_back("py:" + command); return "R(" + command + ")"; }
  void startRosService() {}
  void runPythonFile(std::string f) { InterpreterLog::log().push_back("file:" + f); }
  void runPythonFile(std::string f, std::string &err) { InterpreterLog::log().push_back("file:" + f); err = ""; }
  void runMain() {}
};
} }
