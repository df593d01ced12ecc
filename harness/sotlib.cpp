// libraries given to the loader
#include <sot/core/abstract-sot-external-interface.hh>
#include <sot/core/exception-tools.hh>
#include <stdexcept>
using namespace dynamicgraph::sot;
extern "C" void vh_event(const char *); extern "C" void *vh_device(const char *); extern "C" void vh_device_end(void *); extern "C" void vh_throw(int);
#ifndef ID
#define ID "x"
#endif
namespace {
struct Ext : AbstractSotExternalInterface {
  int n = 0; double in = 0; void *dev = 0; int mode = 0;
  Ext() {
#ifdef DEVICE
    dev = vh_device("robot");
#endif
  }
  ~Ext() { if (dev) vh_device_end(dev); }
  void setupSetSensors(std::map<std::string, SensorValues> &) { vh_event("setup"); }
  void nominalSetSensors(std::map<std::string, SensorValues> &m) { const std::vector<double> &v = m["s"].getValues(); in = v[0]; mode = (int)v[1]; vh_event(("in:" + std::to_string((int)in)).c_str()); if (mode % 2 == 1) vh_throw(mode); }
  void cleanupSetSensors(std::map<std::string, SensorValues> &) { vh_event("cleanup"); }
  void getControl(std::map<std::string, ControlValues> &m) { ++n; vh_event("out"); if (mode % 2 == 0 && mode) vh_throw(mode); std::vector<double> v(1, 10 * in + n); m["u"].setName("u"); m["u"].setValues(v); }
  void setSecondOrderIntegration() { vh_event("second"); }
  void setNoIntegration() { vh_event("none"); }
};
}
#ifndef NOCREATE
extern "C" AbstractSotExternalInterface *createSotExternalInterface() { vh_event("create:" ID); return new Ext; }
#endif
extern "C" void destroySotExternalInterface(AbstractSotExternalInterface *p) { vh_event("destroy:" ID); delete p; }
