// Generic objects by introspection: any registered kind, random values for any
// subset of its properties, comparison and description through the property list.
#ifndef OBJGEN_H
#define OBJGEN_H
#include "gy.h"
#include "GyotoWorldline.h"
#include "GyotoComplexSpectrometer.h"
#include "GyotoComplexMetric.h"
#include "GyotoComplexAstrobj.h"
#include "GyotoStar.h"
namespace og {
using namespace Gyoto;
typedef std::vector<double> V;
inline std::vector<std::string> const &kinds(char cat) {
  static std::map<char, std::vector<std::string>> k = {
    {'M', {"KerrBL", "KerrKS", "Minkowski", "ReissnerNordstrom", "Hayward", "BalasinGrumiller", "SchwarzschildHarmonic", "KonoplyaRezzollaZhidenko", "RezzollaZhidenko", "ChernSimons", "Shift", "Complex"}},
    {'A', {"FixedStar", "Star", "Torus", "ThinDisk", "PageThorneDisk", "ThinDiskPL", "ThinDiskIronLine", "PatternDisk", "PatternDiskBB", "DynamicalDisk", "DynamicalDiskBolometric", "Disk3D", "DynamicalDisk3D", "DirectionalDisk", "EquatorialHotSpot", "PolishDoughnut", "DeformedTorus", "OscilTorus", "InflateStar", "FreeStar", "StarTrace", "Jet", "ThickDisk", "SphericalAccretion", "ThinDiskProfile", "StochasticThinDisk", "Blob", "Plasmoid", "FlaredDiskSynchrotron", "ThinDiskGridIntensity", "Complex"}},
    {'S', {"PowerLaw", "BlackBody", "ThermalBremsstrahlung", "ThermalSynchrotron", "PowerLawSynchrotron", "KappaDistributionSynchrotron"}},
    {'R', {"freq", "wave", "freqlog", "wavelog", "Complex"}}};
  return k[cat];
}
struct Any {
  char cat = 0; std::string kind; SmartPointer<Metric::Generic> m; SmartPointer<Astrobj::Generic> a; SmartPointer<Spectrum::Generic> s; SmartPointer<Spectrometer::Generic> r; SmartPointer<Screen> k; SmartPointer<Scenery> sc; SmartPointer<Photon> ph;
  Object *o() const { return cat == 'M' ? (Object *)(Metric::Generic *)m : cat == 'A' ? (Object *)(Astrobj::Generic *)a : cat == 'S' ? (Object *)(Spectrum::Generic *)s : cat == 'R' ? (Object *)(Spectrometer::Generic *)r : cat == 'C' ? (Object *)(Scenery *)sc : cat == 'P' ? (Object *)(Photon *)ph : (Object *)(Screen *)k; }
  Any clone() const { Any x; x.cat = cat; x.kind = kind; switch (cat) { case 'M': x.m = m->clone(); break; case 'A': x.a = a->clone(); break; case 'S': x.s = s->clone(); break; case 'R': x.r = r->clone(); break; case 'C': x.sc = sc->clone(); break; case 'P': x.ph = ph->clone(); break; default: x.k = k->clone(); } return x; }
  Any() {} Any(Any const &) = default;
  Any &operator=(Any const &x) { cat = x.cat; kind = x.kind; m = SmartPointer<Metric::Generic>(x.m); a = SmartPointer<Astrobj::Generic>(x.a); s = SmartPointer<Spectrum::Generic>(x.s); r = SmartPointer<Spectrometer::Generic>(x.r); k = SmartPointer<Screen>(x.k); sc = SmartPointer<Scenery>(x.sc); ph = SmartPointer<Photon>(x.ph); return *this; }
};
inline std::vector<Property const *> props(Object const *o) { std::vector<Property const *> v; Property const *p = o->getProperties(); while (p) { if (*p) { if (p->type != Property::empty_t) v.push_back(p); ++p; } else p = p->parent; } return v; }
inline std::string dstr(double x) { std::ostringstream s; s << std::setprecision(17) << x; return s.str(); }
// masses: the default of 1 kg (geometrical units in documents) is a value of its own
inline double genmass(pbt::Gen &g) { int k = g.below(6); return k < 2 ? 1. : k == 2 ? 1.98843e30 : g.logu(1e30, 1e40); }
inline double dval(pbt::Gen &g, std::string const &n) {
  if (n == "Lambda") return g.uni(0.2, 0.8);
  if (n == "PolytropicIndex") return g.uni(1.1, 3);
  if (n == "SmallRadius") return g.logu(1e-3, 1e3);
  if (n == "FieldOfView") return g.logu(1e-12, 3);
  if (n == "InnerRadius") return g.uni(0.5, 20);
  if (n == "Spin" || n == "Charge") return g.uni(-0.9, 0.9);
  if (n.find("Parabola") != n.npos || n.find("Opening") != n.npos) return g.uni(0.01, 1.5);
  switch (g.below(9)) { case 8: return g.pickd({0, 1, -1, 0.5, 2}); case 0: return g.range(0, 20); case 1: return g.uni(0, 1); case 2: return -g.logu(1e-3, 1e3); case 3: return g.logu(1e-30, 1e30); case 4: return g.uni(0, 1); case 5: return g.uni(1, 100); default: return g.logu(1e-3, 1e3); }
}
inline Any create(pbt::Gen &g, char cat, std::string kind, std::ostream &d, int depth = 0);
inline SmartPointer<Metric::Generic> &forced() { static SmartPointer<Metric::Generic> m; return m; }  // metric of the elements of a Complex
inline void populate(pbt::Gen &g, Any &x, std::ostream &d, int depth, unsigned dens);
inline std::vector<std::string> enumval(std::string const &kind, std::string const &n) {
  if (n == "VelocityKind") return {"Keplerian", "ZAMO"}; if (n == "EmissionType") return {"BB", "Thermal", "PL"};
  if (n == "PerturbKind") return {"RadialTranslation", "VerticalTranslation", "Rotation", "Expansion", "RadialShear", "VerticalShear", "PureShear", "Radial", "Vertical", "X", "Plus", "Breathing"};
  if (n == "MotionKind") return {"Circular", "Radial", "Mixed"}; if (n == "EquationKind") return {"Static", "AdvectionDiffusion", "Wave"}; if (n == "ElectronDistribution") return {"Thermal", "PL"};
  if (n == "BlobMotionType") return {"Equatorial", "HelicalConical", "HelicalCylindrical"}; if (n == "BeamingKind") return {"IsotropicBeaming", "NormalBeaming", "RadialBeaming", "IsotropicConstant"};
  if (n == "MagneticConfiguration") return {"None", "Toroidal", "Radial", "Vertical"}; if (n == "Integrator") return {"Legacy", "runge_kutta_fehlberg78", "runge_kutta_cash_karp54", "runge_kutta_dopri5", "runge_kutta_cash_karp54_classic"};
  if (n == "Quantities") return {"Intensity", "EmissionTime MinDistance", "Spectrum Redshift", "Intensity EmissionTime MinDistance FirstDistMin Redshift ImpactCoords", "BinSpectrum", "NbCrossEqPlane SpectrumStokesQ SpectrumStokesU SpectrumStokesV SpectrumStokes", "User1 User2 User3 User4 User5"};
  if (n == "Kind") return {"freq", "wave", "freqlog", "wavelog"}; if (n == "BoundaryConditions") return {"None None None", "Periodic None None"};
  if (n == "AngleKind") return {"EquatorialAngles", "SphericalAngles", "Rectilinear"}; if (n == "ObserverKind") return {"ObserverAtInfinity", "KeplerianObserver", "ZAMO", "VelocitySpecified", "FullySpecified"};
  return {};
}
inline size_t veclen(pbt::Gen &g, std::string const &kind, std::string const &n, size_t cur) {
  if (n == "Model_param") return kind == "StochasticThinDisk" ? 10 : 3; if (n == "Position" || n == "InitVelocity" || n == "Init3Velo") return 3; if (n == "InitCoord") return 8; if (n == "InitPosition" || n == "Init4Coord" || n == "Offset") return 4; if (n == "Band" || n == "CutOff" || n == "VeloParam" || n == "NonThermalDeltaExpo" || n == "AngMomRinner" || n == "ADAFParameters" || n == "LampCutOffsIneV") return 2; return cur ? cur : 2;
}
// try to set property p; returns true if accepted
inline bool setone(pbt::Gen &g, Any &x, Property const *p, std::ostream &d, int depth, Value *rec = NULL, bool *refused = NULL) {
  struct Obj { Object *o; Value *r; void set(Property const &p, Value v) { if (r) *r = v; o->set(p, v); } Value get(Property const &p) { return o->get(p); } } ob = {x.o(), rec}, *o = &ob; std::string n = p->name; std::ostringstream s; s << std::setprecision(17);
  try {
    switch (p->type) {
      case Property::double_t: { double v = dval(g, n); s << ' ' << n << '=' << v; o->set(*p, Value(v)); break; }
      case Property::bool_t: { bool v = g.flip(); s << ' ' << n << '=' << v; o->set(*p, Value(v)); break; }
      case Property::long_t: { long v = g.range(-5, 50); s << ' ' << n << '=' << v; o->set(*p, Value(v)); break; }
      case Property::unsigned_long_t: { unsigned long v = g.below(5); s << ' ' << n << '=' << v; o->set(*p, Value(v)); break; }
      case Property::size_t_t: { size_t v = 1 + g.below(60); s << ' ' << n << '=' << v; o->set(*p, Value(v)); break; }
      case Property::string_t: { auto e = enumval(x.kind, n); if (e.empty()) return false; std::string v = g.pick(e); s << ' ' << n << '=' << v; o->set(*p, Value(v)); break; }
      case Property::vector_double_t: { size_t cur = 0; if (n != "InitCoord" && n != "InitPosition" && n != "InitVelocity") { V c = o->get(*p); cur = c.size(); } V v(veclen(g, x.kind, n, cur)); for (auto &y : v) y = (n == "Band" || n == "CutOff") ? g.logu(1e10, 1e20) : dval(g, ""); if (n == "Band" || n == "CutOff") std::sort(v.begin(), v.end());
        if (n == "InitCoord") { v = {g.uni(-100, 100), g.uni(6, 30), g.uni(0.5, 2.6), g.uni(-3, 3), 1, 0, 0, 0}; double pos[4], u[4] = {1, g.uni(-.1, .1), g.uni(-.01, .01), g.uni(-.01, .01)}; memcpy(pos, &v[0], 32); SmartPointer<Metric::Generic> mm = x.a ? x.a->metric() : x.ph ? x.ph->metric() : x.sc ? x.sc->metric() : SmartPointer<Metric::Generic>(); if (mm && x.a) mm->normalizeFourVel(pos, u); if (!x.a && mm) { double cc[8]; std::copy(pos, pos + 4, cc); std::copy(u, u + 4, cc + 4); mm->nullifyCoord(cc); std::copy(cc + 4, cc + 8, u); } std::copy(u, u + 4, v.begin() + 4); }
        if (n == "InitPosition" || n == "Init4Coord") v = {g.uni(-100, 100), g.uni(6, 30), n == "Init4Coord" ? M_PI/2 : g.uni(0.5, 2.6), g.uni(-3, 3)}; if (n == "InitVelocity" || n == "Init3Velo") v = {g.uni(-.1, .1), g.uni(-.01, .01), g.uni(-.01, .01)}; if (n == "AngMomRinner") v = {g.uni(3.7, 4.5), g.uni(4, 8)}; if (n == "Position") v = {g.uni(6, 30), g.uni(0.5, 2.6), g.uni(-3, 3)};
        s << ' ' << n << "=("; for (double y : v) s << y << ' '; s << ')'; o->set(*p, Value(v)); break; }
      case Property::vector_unsigned_long_t: { std::vector<unsigned long> v(1 + g.below(3)); for (auto &y : v) y = g.below(9); s << ' ' << n << "=ul" << v.size(); o->set(*p, Value(v)); break; }
      case Property::spectrum_t: { if (depth > 2) return false; s << ' ' << n << "={"; Any y = create(g, 'S', g.pick(std::vector<std::string>{"PowerLaw", "BlackBody"}), s, depth + 1); s << '}'; o->set(*p, Value(y.s)); break; }
      case Property::metric_t: { if (x.cat != 'M' || depth > 2) return false; s << ' ' << n << "={"; Any y = create(g, 'M', g.pick(std::vector<std::string>{"KerrBL", "Minkowski", "KerrKS", "ReissnerNordstrom"}), s, depth + 1); s << '}'; o->set(*p, Value(y.m)); break; }
      case Property::spectrometer_t: { if (depth > 2) return false; s << ' ' << n << "={"; Any y = create(g, 'R', g.pick(kinds('R')), s, depth + 1); s << '}'; o->set(*p, Value(y.r)); break; }
      default: return false;
    }
  } catch (Gyoto::Error const &) { d << ' ' << n << ":refused"; if (refused) *refused = true; return false; }
  d << s.str(); return true;
}
inline void populate(pbt::Gen &g, Any &x, std::ostream &d, int depth, unsigned dens) {
  // a refused value may leave the object half-way: start again from the untouched object with the accepted values
  Any base = x.clone(); std::vector<std::pair<Property const *, Value>> acc;
  auto ps = props(x.o());
  std::string excl = x.kind == "PolishDoughnut" ? (g.flip() ? "Lambda" : "AngMomRinner") : "";  // these two replace each other
  for (auto p : ps) if (p->name != excl && (g.below(4) < dens || ((p->name == "InitPosition" || p->name == "InitVelocity" || p->name == "InitCoord" || p->name == "Init4Coord")))) { Value v; bool ref = false; if (setone(g, x, p, d, depth, &v, &ref)) acc.push_back({p, v});
    else while (ref) { ref = false; x = base.clone(); for (size_t i = 0; i < acc.size(); ++i) try { x.o()->set(*acc[i].first, acc[i].second); } catch (Gyoto::Error const &) { acc.erase(acc.begin() + i); ref = true; break; } } }
}
inline Any create(pbt::Gen &g, char cat, std::string kind, std::ostream &d, int depth) {
  Any x; x.cat = cat; x.kind = kind; d << kind << ':';
  if (cat == 'M') { x.m = gy::metric(kind); if (kind == "Complex") { Metric::Complex *c = dynamic_cast<Metric::Complex *>((Metric::Generic *)x.m); int n = g.range(1, 3); bool cart = g.flip(); for (int i = 0; i < n; ++i) { d << " ["; Any y = create(g, 'M', cart ? "KerrKS" : "KerrBL", d, depth + 1); d << ']'; c->append(y.m); } } if (kind == "Shift") { Any y = create(g, 'M', g.flip() ? "KerrKS" : "KerrBL", d, depth + 1); x.m->set("SubMetric", Value(y.m)); } }
  else if (cat == 'A') { x.a = gy::astrobj(kind); SmartPointer<Metric::Generic> m = forced(); if (!depth || !m) { m = gy::metric("KerrBL"); double sp = g.chance(1, 3) ? 0. : g.uni(0, 0.9); m->set("Spin", Value(sp)); m->mass(genmass(g)); d << " (spin " << sp << " mass " << m->mass() << ")"; forced() = m; } x.a->metric(m); if (kind == "Complex") { Astrobj::Complex *c = dynamic_cast<Astrobj::Complex *>((Astrobj::Generic *)x.a); int n = g.range(1, 3); for (int i = 0; i < n; ++i) { d << " ["; Any y = create(g, 'A', g.pick(std::vector<std::string>{"FixedStar", "Torus", "ThinDisk", "PageThorneDisk", "Star"}), d, depth + 1); d << ']'; c->append(y.a); } } }
  else if (cat == 'S') x.s = gy::spectrum(kind);
  else if (cat == 'R') { x.r = gy::spectrometer(kind); if (kind == "Complex") { Spectrometer::Complex *c = dynamic_cast<Spectrometer::Complex *>((Spectrometer::Generic *)x.r); int n = g.range(1, 3); for (int i = 0; i < n; ++i) { d << " ["; Any y = create(g, 'R', g.pick(std::vector<std::string>{"freq", "wave", "freqlog", "wavelog"}), d, depth + 1); d << ']'; c->append(y.r); } } else { double lo = g.uni(10, 17), hi = lo + g.uni(0.1, 3); bool wave = kind.substr(0, 4) == "wave", lg = kind.size() > 4 && kind.find("log") != std::string::npos; V b = {lo, hi}; if (wave) b = {-hi, -lo}; if (!lg) b = {pow(10, b[0]), pow(10, b[1])}; x.r->set("Kind", Value(kind)); x.r->set("NSamples", Value(size_t(1 + g.below(20)))); x.r->set("Band", Value(b)); d << " band " << b[0] << ',' << b[1]; } return x; }
  else if (cat == 'C' || cat == 'P') { Any a = create(g, 'A', g.pick(std::vector<std::string>{"FixedStar", "Torus", "ThinDisk", "PageThorneDisk", "Star", "Complex", "PolishDoughnut"}), d, 0);
    if (cat == 'C') { x.sc = new Scenery(); d << " / screen"; Any k = create(g, 'K', "Screen", d, 1); k.k->metric(a.a->metric()); x.sc->metric(a.a->metric()); x.sc->screen(k.k); x.sc->astrobj(a.a); d << " / scenery"; }
    else { x.ph = new Photon(); x.ph->metric(a.a->metric()); x.ph->astrobj(a.a); d << " / photon"; } }
  else { x.k = new Screen(); SmartPointer<Metric::Generic> m = gy::metric("KerrBL"); m->mass(genmass(g)); x.k->metric(m); }
  populate(g, x, d, depth, g.range(0, 4)); return x;
}
inline bool near(double a, double b, double rt) { if (a == b || (a != a && b != b)) return true; return fabs(a - b) <= rt*std::max(fabs(a), fabs(b)); }
// property-wise comparison; empty string if equal, otherwise what differs
inline std::string diff(Object const *a, Object const *b, double rt, int depth = 0, std::set<std::string> const *skip = NULL) {
  if (!a || !b) return a == b ? "" : "one is null"; if (a->kind() != b->kind()) return "kind " + a->kind() + " / " + b->kind();
  for (auto p : props(a)) { std::string n = p->name; if (skip && skip->count(n)) continue; Property const *q = b->property(n); if (!q) return n + " missing"; bool ea = false, eb = false; Value x, y; std::string err; try { x = a->get(*p); } catch (Gyoto::Error const &e) { ea = true; } try { y = b->get(*q); } catch (Gyoto::Error const &e) { eb = true; err = (const char *)e; } if (ea != eb) return n + " readable in only one of them " + err; if (ea) continue;
    switch (p->type) {
      case Property::double_t: if (!near(double(x), double(y), rt)) return n + " " + dstr(double(x)) + " / " + dstr(double(y)); break;
      case Property::bool_t: if (bool(x) != bool(y)) return n + " " + std::to_string(bool(x)) + " / " + std::to_string(bool(y)); break;
      case Property::long_t: if (long(x) != long(y)) return n + " " + std::to_string(long(x)) + " / " + std::to_string(long(y)); break;
      case Property::unsigned_long_t: { unsigned long u = x, v = y; if (u != v) return n + " " + std::to_string(u) + " / " + std::to_string(v); break; }
      case Property::size_t_t: { size_t u = x, v = y; if (u != v) return n + " " + std::to_string(u) + " / " + std::to_string(v); break; }
      case Property::string_t: case Property::filename_t: { std::string u = x, v = y; if (u != v) return n + " '" + u + "' / '" + v + "'"; break; }
      case Property::vector_double_t: { V u = x, v = y; if (u.size() != v.size()) return n + " lengths " + std::to_string(u.size()) + " / " + std::to_string(v.size()); for (size_t i = 0; i < u.size(); ++i) if (!near(u[i], v[i], n == "AngMomRinner" ? std::max(rt, 1e-6) : rt)) return n + "[" + std::to_string(i) + "] " + dstr(u[i]) + " / " + dstr(v[i]); break; }
      case Property::vector_unsigned_long_t: { std::vector<unsigned long> u = x, v = y; if (u != v) return n + " differs"; break; }
      case Property::metric_t: { SmartPointer<Metric::Generic> u = x, v = y; std::string r = diff((Metric::Generic *)u, (Metric::Generic *)v, rt, depth + 1, skip); if (r.size()) return n + "::" + r; break; }
      case Property::spectrum_t: { SmartPointer<Spectrum::Generic> u = x, v = y; std::string r = diff((Spectrum::Generic *)u, (Spectrum::Generic *)v, rt, depth + 1, skip); if (r.size()) return n + "::" + r; break; }
      case Property::spectrometer_t: { SmartPointer<Spectrometer::Generic> u = x, v = y; std::string r = diff((Spectrometer::Generic *)u, (Spectrometer::Generic *)v, rt, depth + 1, skip); if (r.size()) return n + "::" + r; break; }
      case Property::astrobj_t: { SmartPointer<Astrobj::Generic> u = x, v = y; std::string r = diff((Astrobj::Generic *)u, (Astrobj::Generic *)v, rt, depth + 1, skip); if (r.size()) return n + "::" + r; break; }
      case Property::screen_t: { SmartPointer<Screen> u = x, v = y; std::string r = diff((Screen *)u, (Screen *)v, rt, depth + 1, skip); if (r.size()) return n + "::" + r; break; }
    } }
  // elements of the Complex kinds
  auto mm = dynamic_cast<Metric::Complex const *>(a); if (mm) { auto nn = dynamic_cast<Metric::Complex const *>(b); if (mm->getCardinal() != nn->getCardinal()) return "number of elements"; for (size_t i = 0; i < mm->getCardinal(); ++i) { std::string r = diff((Metric::Generic *)(*const_cast<Metric::Complex *>(mm))[i], (Metric::Generic *)(*const_cast<Metric::Complex *>(nn))[i], rt, depth + 1, skip); if (r.size()) return "element::" + r; } }
  auto ma = dynamic_cast<Astrobj::Complex const *>(a); if (ma) { auto na = dynamic_cast<Astrobj::Complex const *>(b); if (ma->getCardinal() != na->getCardinal()) return "number of elements"; for (size_t i = 0; i < ma->getCardinal(); ++i) { std::string r = diff((Astrobj::Generic *)(*const_cast<Astrobj::Complex *>(ma))[i], (Astrobj::Generic *)(*const_cast<Astrobj::Complex *>(na))[i], rt, depth + 1, skip); if (r.size()) return "element::" + r; } }
  auto mr = dynamic_cast<Spectrometer::Complex const *>(a); if (mr) { auto nr = dynamic_cast<Spectrometer::Complex const *>(b); if (mr->getCardinal() != nr->getCardinal()) return "number of elements"; for (size_t i = 0; i < mr->getCardinal(); ++i) { std::string r = diff((Spectrometer::Generic *)(*const_cast<Spectrometer::Complex *>(mr))[i], (Spectrometer::Generic *)(*const_cast<Spectrometer::Complex *>(nr))[i], rt, depth + 1, skip); if (r.size()) return "element::" + r; } }
  return "";
}
inline std::string xml(Any const &x) { switch (x.cat) { case 'M': return Factory(x.m).format(); case 'A': return Factory(x.a).format(); case 'S': return Factory(x.s).format(); case 'R': return Factory(x.r).format(); case 'C': return Factory(x.sc).format(); case 'P': return Factory(x.ph).format(); default: return Factory(x.k).format(); } }
inline Any parse(char cat, std::string const &t) { std::vector<char> b(t.begin(), t.end()); b.push_back(0); Factory f(&b[0]); Any x; x.cat = cat; switch (cat) { case 'M': x.m = f.metric(); break; case 'A': x.a = f.astrobj(); break; case 'S': x.s = f.spectrum(); break; case 'R': x.r = f.spectrometer(); break; case 'C': x.sc = f.scenery(); break; case 'P': x.ph = f.photon(); break; default: x.k = f.screen(); } if (x.o()) x.kind = x.o()->kind(); return x; }
}
#endif
