// Common helpers of the Gyoto property drivers.
#ifndef GY_H
#define GY_H
#include "pbt.h"
#include "GyotoUtils.h"
#include "GyotoError.h"
#include "GyotoRegister.h"
#include "GyotoFactory.h"
#include "GyotoFactoryMessenger.h"
#include "GyotoMetric.h"
#include "GyotoAstrobj.h"
#include "GyotoSpectrum.h"
#include "GyotoSpectrometer.h"
#include "GyotoScreen.h"
#include "GyotoScenery.h"
#include "GyotoPhoton.h"
#include "GyotoConverters.h"
#include "GyotoProperty.h"
#include "GyotoValue.h"
#include "GyotoDefs.h"
#include <limits.h>
namespace gy {
using namespace Gyoto;
inline std::string selfdir() {
  char b[PATH_MAX]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n < 0) n = 0; b[n] = 0;
  std::string s(b); return s.substr(0, s.rfind('/') + 1);
}
inline void init(char const *plugins = "stdplug") {
  setenv("GYOTO_PLUGIN_PATH", selfdir().c_str(), 1);
  setenv("GYOTO_PLUGINS", plugins, 1);
  if (getenv("PBT_VERBOSE")) Gyoto::verbose(10); else Gyoto::verbose(0);
  Gyoto::Register::init(nullptr);
  pbt::exception_text() = []() -> std::string {
    try { throw; }
    catch (Gyoto::Error const &e) { return std::string((const char *)e); }
    catch (std::exception const &e) { return std::string("std::exception ") + e.what(); }
    catch (...) { return "unknown exception"; }
  };
}
inline SmartPointer<Metric::Generic> metric(std::string kind) {
  std::vector<std::string> plg; return (*Metric::getSubcontractor(kind, plg))(nullptr, plg);
}
inline SmartPointer<Astrobj::Generic> astrobj(std::string kind) {
  std::vector<std::string> plg; return (*Astrobj::getSubcontractor(kind, plg))(nullptr, plg);
}
inline SmartPointer<Spectrum::Generic> spectrum(std::string kind) {
  std::vector<std::string> plg; return (*Spectrum::getSubcontractor(kind, plg))(nullptr, plg);
}
inline SmartPointer<Spectrometer::Generic> spectrometer(std::string kind) {
  std::vector<std::string> plg; return (*Spectrometer::getSubcontractor(kind, plg))(nullptr, plg);
}
template <class F> bool throws(F f) {
  try { f(); } catch (Gyoto::Error const &) { return true; } return false;
}
inline std::string num(double x) { std::ostringstream s; s << std::setprecision(9) << x; return s.str(); }
}
#define GY_MAIN int main(int argc, char **argv) { return pbt::main_(argc, argv, [] { gy::init(); }); }
#endif
