// U01: units.
#include "objgen.h"
#include "scn.h"
#include "GyotoConverters.h"
#include "GyotoUniformSpectrometer.h"
using namespace og;
typedef long double LD;
struct U { char const *n; char dim; double f; double tol; };  // dim: L length T time M mass A angle F frequency E energy N number density P energy density
static std::vector<U> const &table() {
  static std::vector<U> t = {
    {"m", 'L', 1, 0}, {"cm", 'L', 1e-2, 0}, {"km", 'L', 1e3, 0}, {"mm", 'L', 1e-3, 0}, {"nm", 'L', 1e-9, 0}, {"micrometer", 'L', 1e-6, 0}, {"angstrom", 'L', 1e-10, 0}, {"sunradius", 'L', 6.957e8, 2e-3}, {"au", 'L', 1.495978707e11, 1e-5}, {"AU", 'L', 1.495978707e11, 1e-5}, {"astronomicalunit", 'L', 1.495978707e11, 1e-5}, {"ua", 'L', 1.495978707e11, 1e-5}, {"ly", 'L', 9.4607304725808e15, 1e-5}, {"pc", 'L', 3.0856775814913673e16, 1e-5}, {"kpc", 'L', 3.0856775814913673e19, 1e-5}, {"Mpc", 'L', 3.0856775814913673e22, 1e-5},
    {"s", 'T', 1, 0}, {"ms", 'T', 1e-3, 0}, {"min", 'T', 60, 0}, {"h", 'T', 3600, 0}, {"d", 'T', 86400, 0}, {"yr", 'T', 3.15569e7, 1e-4}, {"kyr", 'T', 3.15569e10, 1e-4},
    {"kg", 'M', 1, 0}, {"g", 'M', 1e-3, 0}, {"sunmass", 'M', 1.98841e30, 1e-3},
    {"rad", 'A', 1, 0}, {"degree", 'A', M_PI/180, 0}, {"arcmin", 'A', M_PI/10800, 0}, {"arcsec", 'A', M_PI/648000, 0}, {"as", 'A', M_PI/648000, 0}, {"mas", 'A', M_PI/648000e3, 0}, {"uas", 'A', M_PI/648000e6, 0}, {"microarcsec", 'A', M_PI/648000e6, 0}, {"milliarcsec", 'A', M_PI/648000e3, 0},
    {"Hz", 'F', 1, 0}, {"kHz", 'F', 1e3, 0}, {"GHz", 'F', 1e9, 0}, {"THz", 'F', 1e12, 0},
    {"eV", 'E', 1.602176634e-19, 1e-6}, {"keV", 'E', 1.602176634e-16, 1e-6}, {"MeV", 'E', 1.602176634e-13, 1e-6}, {"J", 'E', 1, 0}, {"erg", 'E', 1e-7, 0},
    {"m-3", 'N', 1, 0}, {"cm-3", 'N', 1e6, 0}, {"km-3", 'N', 1e-9, 0}, {"J.m-3", 'P', 1, 0}, {"erg.cm-3", 'P', 0.1, 0}, {"erg/cm3", 'P', 0.1, 0}};
  return t;
}
static U const &unit(pbt::Gen &g, std::string dims) { std::vector<U const *> v; for (auto &u : table()) if (dims.find(u.dim) != dims.npos) v.push_back(&u); return *g.pick(v); }
static double const C = 299792458., G = 6.67428e-11, H = 6.62607015e-34;  // G as documented by the library
static double Len(double mass) { return G*mass/(C*C); }
// v in unit u as a length (m) / time (s) / frequency (Hz), through the speed of light and Planck's constant
static double as(char want, double v, U const &u) {
  double x = v*u.f; if (u.dim == want) return x; double nu;
  if (want == 'L') switch (u.dim) { case 'T': return x*C; case 'F': return C/x; case 'E': return H*C/x; }
  if (want == 'T') switch (u.dim) { case 'L': return x/C; case 'F': return 1/x; }
  if (want == 'F') switch (u.dim) { case 'L': return C/x; case 'T': return 1/x; case 'E': return x/H; }
  (void)nu; return NAN;
}
static double tol(U const &u, char want) { return 1e-11 + u.tol*1.01 + ((u.dim == 'E') != (want == 'E') ? 2e-6 : 0); }
static bool nr(double a, double b, double t) { return fabs(a - b) <= t*std::max(fabs(a), fabs(b)); }
static double val(pbt::Gen &g) { switch (g.below(4)) { case 0: return 1; case 1: return g.range(1, 50); default: return g.logu(1e-6, 1e6); } }
PBT_SUB(functions, 60000, 2000000, "conversion function x unit x value x mass of the metric; non-trivial: a unit that is not the SI one") {
  double mass = g.logu(1, 1e42); SmartPointer<Metric::Generic> m = gy::metric("KerrBL"); m->mass(mass); double L = Len(mass), v = val(g) * (g.chance(1, 5) ? -1 : 1); int k = g.below(6); std::string f; U u = {"", 0, 1, 0}; double to = 0, from = 0, want = 0, t = 1e-11;
  c.check(nr(m->unitLength(), L, 1e-9), "functions/unitLength", "unitLength of mass " + gy::num(mass) + " is " + gy::num(m->unitLength()) + ", expected " + gy::num(L));
  bool geo = g.chance(1, 6);
  switch (k) {
    case 0: f = "Meters"; u = geo ? U{"geometrical", 'L', L, 0} : unit(g, "LTFE"); to = Units::ToMeters(v, u.n, m); want = as('L', v, u); t = tol(u, 'L'); from = Units::FromMeters(to, u.n, m); break;
    case 1: f = "Seconds"; u = geo ? U{"geometrical_time", 'T', L/C, 0} : unit(g, "TLF"); to = Units::ToSeconds(v, u.n, m); want = as('T', v, u); t = tol(u, 'T'); from = Units::FromSeconds(to, u.n, m); break;
    case 2: f = "Kilograms"; u = unit(g, "M"); to = Units::ToKilograms(v, u.n); want = v*u.f; t = tol(u, 'M'); from = Units::FromKilograms(to, u.n); break;
    case 3: f = "Geometrical"; u = geo ? U{"geometrical", 'L', L, 0} : unit(g, "LTFE"); to = Units::ToGeometrical(v, u.n, m); want = as('L', v, u)/L; t = tol(u, 'L') + 1e-9; from = Units::FromGeometrical(to, u.n, m); break;
    case 4: f = "GeometricalTime"; u = geo ? U{"geometrical_time", 'T', L/C, 0} : unit(g, "TLF"); to = Units::ToGeometricalTime(v, u.n, m); want = as('T', v, u)*C/L; t = tol(u, 'T') + 1e-9; from = Units::FromGeometricalTime(to, u.n, m); break;
    default: f = "Herz"; u = unit(g, "FLTE"); to = Units::ToHerz(v, u.n); want = as('F', v, u); t = tol(u, 'F'); from = Units::FromHerz(to, u.n); break;
  }
  c.note << f << ' ' << gy::num(v) << ' ' << u.n << " mass " << gy::num(mass); c.label(f); c.nontrivial = u.f != 1;
  c.check(nr(to, want, t), "functions/to/" + f + "/" + u.dim, "To" + f + "(" + gy::num(v) + ", " + u.n + ") = " + gy::num(to) + ", expected " + gy::num(want));
  c.check(nr(from, v, 1e-11), "functions/from/" + f + "/" + u.dim, "From" + f + " does not invert To" + f + ": " + gy::num(from) + " instead of " + gy::num(v) + " (" + u.n + ")");
  // wrong dimension: refused
  std::string bad = k == 2 ? "LTFEAN" : k == 1 || k == 4 ? "MEAN" : "MAN"; U w = unit(g, bad); bool thrown = false; try { double r = k == 0 ? Units::ToMeters(v, w.n, m) : k == 1 ? Units::ToSeconds(v, w.n, m) : k == 2 ? Units::ToKilograms(v, w.n) : k == 3 ? Units::ToGeometrical(v, w.n, m) : k == 4 ? Units::ToGeometricalTime(v, w.n, m) : Units::ToHerz(v, w.n); (void)r; } catch (Gyoto::Error const &) { thrown = true; }
  c.check(thrown, "functions/incompatible/" + f, "To" + f + " accepts the unit " + w.n);
}
PBT_SUB(converters, 20000, 500000, "pair of units of the same dimension, including surface brightness; non-trivial: different units") {
  static std::vector<U> sb = {{"J.m-2.s-1.sr-1.Hz-1", 'B', 1, 0}, {"W.m-2.Hz-1.sr-1", 'B', 1, 0}, {"erg.cm-2.s-1.sr-1.Hz-1", 'B', 1e-3, 0}, {"Jy.sr-1", 'B', 1e-26, 0}, {"mJy/sr", 'B', 1e-29, 0}, {"Jy/arcsec2", 'B', 1e-26/pow(M_PI/648000, 2), 0}, {"Jy/mas2", 'B', 1e-26/pow(M_PI/648000e3, 2), 0}, {"J.m-2.s-1.sr-1.eV-1", 'b', 0, 0}};
  U a, b; if (g.flip()) { do a = g.pick(sb); while (a.dim == 'b'); do b = g.pick(sb); while (b.dim == 'b'); } else { std::string d(1, g.pick(std::vector<char>{'L', 'T', 'M', 'A', 'F', 'E', 'N', 'P'})); a = unit(g, d); b = unit(g, d); }
  double v = val(g), r = Units::Converter(a.n, b.n)(v), want = v*a.f/b.f; c.note << v << ' ' << a.n << " -> " << b.n; c.label(std::string(1, a.dim)); c.nontrivial = std::string(a.n) != b.n;
  c.check(nr(r, want, 1e-11 + 1.01*(a.tol + b.tol)), std::string("converters/value/") + a.dim, gy::num(v) + " " + a.n + " = " + gy::num(r) + " " + b.n + ", expected " + gy::num(want));
  Units::Unit ua(a.n), ub(b.n); c.check(nr(ub.To(v, ua), r, 1e-13) && nr(ua.From(v, ub), r, 1e-13), "converters/unit", "Unit::To / From differ from Converter");
  char od = a.dim == 'L' ? 'M' : 'L'; U w = unit(g, std::string(1, od)); bool thrown = false; try { Units::Converter x(a.n, w.n); } catch (Gyoto::Error const &) { thrown = true; } c.check(thrown && !Units::areConvertible(ua, Units::Unit(w.n)), "converters/incompatible", std::string(a.n) + " converted to " + w.n);
}
// what the value of a setting means: g geometrical length, t geometrical time, m metre, s second, k kg, a radian, A radian or length over distance, f Hz, e keV, N m-3, P J m-3
static char base(std::string const &kind, std::string const &n) {
  static std::map<std::string, char> b = {{"Mass", 'k'}, {"Radius", 'g'}, {"RMax", 'g'}, {"DeltaMaxInsideRMax", 'g'}, {"Delta", 'g'}, {"MinimumTime", 't'}, {"InnerRadius", 'g'}, {"OuterRadius", 'g'}, {"Thickness", 'g'}, {"CutRadius", 'g'}, {"RadiusStop", 'g'}, {"LineFreq", 'e'}, {"TimeInflateInit", 't'}, {"TimeInflateStop", 't'}, {"CentralEnthalpyPerUnitVolume", 'P'},
    {"BaseNumberDensity", 'N'}, {"NumberDensityAtInnerRadius", 'N'}, {"NumberDensity", 'N'}, {"NumberDensityMax", 'N'}, {"TimeRef", 'S'}, {"TimeSigma", 'S'}, {"Time", 's'}, {"FieldOfView", 'A'}, {"Dangle1", 'A'}, {"Dangle2", 'A'}, {"PALN", 'a'}, {"Inclination", 'a'}, {"Argument", 'a'}, {"Distance", 'm'}, {"FreqObs", 'f'}};
  if (n == "CutOff") return 'f'; if (n == "Band") return kind == "freq" ? 'f' : kind == "wave" ? 'm' : kind == "freqlog" ? 'F' : 'W'; auto i = b.find(n); return i == b.end() ? 0 : i->second;
}
struct Env { double L, D; };
static U pickunit(pbt::Gen &g, char b, Env const &e) {
  bool geo = g.chance(1, 5);
  switch (b) { case 'g': case 'm': return geo && e.L > 0 ? U{"geometrical", 'L', e.L, 0} : unit(g, g.chance(1, 4) ? "TFE" : "L"); case 't': case 's': return geo && e.L > 0 ? U{"geometrical_time", 'T', e.L/C, 0} : unit(g, g.chance(1, 4) ? "L" : "T");
    case 'k': return unit(g, "M"); case 'S': return unit(g, "T"); case 'a': return unit(g, "A"); case 'A': return geo && e.L > 0 ? U{"geometrical", 'L', e.L, 0} : unit(g, g.chance(1, 3) ? "L" : "A"); case 'f': case 'e': case 'F': return unit(g, "FLE"); case 'W': return unit(g, "LFE"); case 'N': return unit(g, "N"); default: return unit(g, "P"); }
}
static double expected(char b, double v, U const &u, Env const &e) {
  switch (b) { case 'g': return as('L', v, u)/e.L; case 'm': return as('L', v, u); case 't': return as('T', v, u)*C/e.L; case 's': return as('T', v, u); case 'k': case 'N': case 'P': case 'a': case 'S': return v*u.f; case 'A': return u.dim == 'A' ? v*u.f : v*u.f/e.D; case 'f': return as('F', v, u);
    case 'e': return as('F', v, u)*H/1.602176634e-16; case 'F': return log10(as('F', pow(10, v), u)); default: return log10(as('L', pow(10, v), u)); }
}
static double etol(char b, U const &u) { double t = tol(u, b == 'g' || b == 'm' || b == 'W' ? 'L' : b == 't' || b == 's' ? 'T' : b == 'f' || b == 'F' ? 'F' : b == 'e' ? 'E' : u.dim); return t + (b == 'g' || b == 't' ? 1e-9 : b == 'e' ? 4e-6 : 0) + (strchr("geo", u.n[0]) && std::string(u.n).find("geometrical") == 0 ? 1e-9 : 0); }
static Env envof(Any const &x) { Env e = {0, 0}; SmartPointer<Metric::Generic> m = x.cat == 'A' ? x.a->metric() : x.cat == 'K' ? x.k->metric() : SmartPointer<Metric::Generic>(); if (m) e.L = Len(m->mass()); if (x.cat == 'K') e.D = x.k->distance(); return e; }
static bool unitable(Property const *p) { return p->type == Property::double_t ? p->setter_unit.set_double != 0 : p->type == Property::vector_double_t ? p->setter_unit.set_vdouble != 0 : false; }
PBT_SUB(settings, 60000, 1500000, "random object, setting, unit and value; by value or by text; non-trivial: a unit that is not the default one") {
  char cat = g.pick(std::vector<char>{'A', 'A', 'A', 'A', 'M', 'S', 'R', 'K', 'K', 'K'}); std::string kind = cat == 'K' ? "Screen" : g.pick(cat == 'S' ? std::vector<std::string>{"PowerLaw"} : kinds(cat)); if (cat == 'R' && kind == "Complex") throw pbt::Discard();
  Any x; x.cat = cat; x.kind = kind; double mass = g.logu(1e20, 1e42); SmartPointer<Metric::Generic> m = gy::metric("KerrBL"); m->mass(mass);
  switch (cat) { case 'A': x.a = gy::astrobj(kind); try { x.a->metric(m); } catch (Gyoto::Error const &) { throw pbt::Discard(); } break; case 'M': x.m = gy::metric(kind); if (kind == "Shift") x.m->set("SubMetric", Value(gy::metric("KerrBL"))); break; case 'S': x.s = gy::spectrum(kind); break; case 'R': x.r = gy::spectrometer(kind); x.r->set("Kind", Value(kind)); break; default: x.k = new Screen(); x.k->metric(m); x.k->distance(g.logu(1e10, 1e24)); }
  std::vector<Property const *> ps; for (auto p : props(x.o())) if (unitable(p)) ps.push_back(p); if (ps.empty()) throw pbt::Discard(); Property const *p = g.pick(ps); char b = base(kind, p->name); if (!b) throw pbt::Discard(); Env e = envof(x); U u = pickunit(g, b, e), u2 = pickunit(g, b, e);
  size_t n = p->type == Property::double_t ? 1 : 2; V v(n); for (auto &y : v) y = b == 'F' || b == 'W' ? g.uni(-3, 3) : val(g); if (b != 'F' && b != 'W' && b != 'f' && b != 'm' && b != 'e' && as('L', 1, u) > 0 && g.chance(1, 6) && p->name != "Radius") v[0] = -v[0]; if (n == 2 && p->name == "CutOff") { std::sort(v.begin(), v.end()); if (u.dim != 'F' && u.dim != 'E') std::swap(v[0], v[1]); }
  if (p->name == "Mass") v[0] = fabs(v[0]);
  bool text = g.flip(); std::string id = kind + "/" + p->name; c.label(p->name); c.note << kind << " mass " << gy::num(mass) << ' ' << p->name << " = "; for (double y : v) c.note << gy::num(y) << ' '; c.note << u.n << (text ? " (text)" : "") << " read in " << u2.n;
  try { if (text) { std::string t; for (double y : v) t += dstr(y) + " "; x.o()->setParameter(p->name, t, u.n); } else x.o()->set(*p, n == 1 ? Value(v[0]) : Value(v), u.n); } catch (Gyoto::Error const &err) { c.fail("settings/refused/" + id + "/" + u.dim, std::string("refused in ") + u.n + ": " + (const char *)err); return; }
  V r(n), q(n), q2(n); if (n == 1) { r[0] = x.o()->get(*p); q[0] = x.o()->get(*p, u.n); q2[0] = x.o()->get(*p, u2.n); } else { r = V(x.o()->get(*p)); q = V(x.o()->get(*p, u.n)); q2 = V(x.o()->get(*p, u2.n)); }
  c.nontrivial = true;
  if (p->name == "CutOff") { std::sort(r.begin(), r.end()); V w = {expected(b, v[0], u, e), expected(b, v[1], u, e)}; std::sort(w.begin(), w.end()); for (int i = 0; i < 2; ++i) c.check(nr(r[i], w[i], etol(b, u)), "settings/value/" + id, "set to " + gy::num(v[i]) + " " + u.n + ", reads " + gy::num(r[i]) + ", expected " + gy::num(w[i])); std::sort(q.begin(), q.end()); std::sort(v.begin(), v.end()); for (int i = 0; i < 2; ++i) c.check(nr(q[i], v[i], 1e-11), "settings/back/" + id, "reads back as " + gy::num(q[i])); return; }
  double e2t; for (size_t i = 0; i < n; ++i) { double w = expected(b, v[i], u, e); bool lg = b == 'F' || b == 'W';
    c.check(lg ? fabs(r[i] - w) < 2e-6 + etol(b, u) : nr(r[i], w, etol(b, u)), "settings/value/" + id, "set to " + gy::num(v[i]) + " " + u.n + ", reads " + gy::num(r[i]) + ", expected " + gy::num(w));
    c.check(lg ? fabs(q[i] - v[i]) < 1e-9 : nr(q[i], v[i], 1e-11), "settings/back/" + id, "set to " + gy::num(v[i]) + " " + u.n + ", reads back in the same unit as " + gy::num(q[i]));
    e2t = etol(b, u2); double back = expected(b, q2[i], u2, e); c.check(lg ? fabs(back - r[i]) < 2e-6 + e2t : nr(back, r[i], e2t), "settings/other/" + id, "value " + gy::num(r[i]) + " reads " + gy::num(q2[i]) + " " + u2.n); }
  // incompatible unit: refused, value unchanged
  if (n == 1 && b != 'f' && b != 'e') { U w = unit(g, b == 'k' ? "LTA" : b == 'N' || b == 'P' ? "LTMA" : b == 'a' ? "LTM" : "MN"); bool thrown = false; try { x.o()->set(*p, n == 1 ? Value(v[0]) : Value(v), w.n); } catch (Gyoto::Error const &) { thrown = true; } c.check(thrown, "settings/incompatible/" + id, std::string("accepted in ") + w.n); double r2 = x.o()->get(*p); c.check(r2 == r[0], "settings/refused-changed/" + id, "a refused unit changed the value"); }
}
// settings without unit support refuse one instead of ignoring it
PBT_SUB(nounit, 8000, 100000, "setting without unit support given a unit; non-trivial: always") {
  char cat = g.pick(std::vector<char>{'A', 'A', 'M', 'S', 'K'}); Any x; x.cat = cat; x.kind = cat == 'K' ? "Screen" : g.pick(kinds(cat)); switch (cat) { case 'A': x.a = gy::astrobj(x.kind); break; case 'M': x.m = gy::metric(x.kind); break; case 'S': x.s = gy::spectrum(x.kind); break; default: x.k = new Screen(); }
  std::vector<Property const *> ps; for (auto p : props(x.o())) if (p->type == Property::double_t && !unitable(p)) ps.push_back(p); if (ps.empty()) throw pbt::Discard(); Property const *p = g.pick(ps); U u = unit(g, "LTMAF"); c.note << x.kind << ' ' << p->name << " in " << u.n; c.label(x.kind); bool thrown = false, had = true; double v0 = 0; try { v0 = x.o()->get(*p); } catch (Gyoto::Error const &) { had = false; }
  try { if (g.flip()) x.o()->set(*p, Value(1.5), u.n); else x.o()->setParameter(p->name, "1.5", u.n); } catch (Gyoto::Error const &) { thrown = true; } c.check(thrown, "nounit/" + x.kind + "/" + p->name, std::string("a unit (") + u.n + ") is accepted although the setting has none"); if (had) { double v1 = x.o()->get(*p); c.check(v1 == v0 || (v0 != v0 && v1 != v1), "nounit/changed/" + x.kind + "/" + p->name, "value changed"); } c.nontrivial = true;
}
// documents with units, children in any order
PBT_SUB(documents, 6000, 100000, "scenery document with units everywhere and children in any order; non-trivial: always") {
  std::string mass, L; U um = unit(g, "M"); double vm = um.f == 1.98841e30 ? g.logu(1, 1e10) : um.f == 1 ? g.logu(1e30, 1e40) : g.logu(1e33, 1e43); double kg = vm*um.f; std::ostringstream d; d << std::setprecision(17);
  SmartPointer<Metric::Generic> mm = gy::metric("KerrBL"); mm->set("Mass", Value(vm), um.n); double ul = mm->unitLength(); c.check(nr(ul, Len(kg), 1e-9 + um.tol), "documents/unitlength", "unit length"); (void)L;
  Env e = {ul, 0}; struct S { std::string n; char b; double v; U u; }; std::vector<S> sc = {{"Distance", 'm', 0, unit(g, "L")}, {"Time", 's', 0, U()}, {"FieldOfView", 'A', 0, U()}, {"Dangle1", 'A', 0, U()}, {"Dangle2", 'A', 0, U()}, {"Inclination", 'a', 0, U()}, {"PALN", 'a', 0, U()}, {"Argument", 'a', 0, U()}}, ao = {{"InnerRadius", 'g', 0, U()}, {"OuterRadius", 'g', 0, U()}, {"Thickness", 'g', 0, U()}, {"RMax", 'g', 0, U()}};
  if (g.chance(1, 4)) sc[0].u = U{"geometrical", 'L', ul, 0}; sc[0].v = g.logu(1e10, 1e23)/sc[0].u.f; e.D = sc[0].v*sc[0].u.f; double dt = 2*sc[0].u.tol;
  for (size_t i = 1; i < sc.size(); ++i) { sc[i].u = pickunit(g, sc[i].b, e); double si = sc[i].b == 's' ? g.logu(1, 1e12) : sc[i].b == 'a' ? g.uni(0.1, 3) : g.logu(1e-10, 1); sc[i].v = sc[i].b == 'A' && sc[i].u.dim == 'L' ? si*e.D/sc[i].u.f : sc[i].b == 's' && sc[i].u.dim == 'L' ? si*C/sc[i].u.f : si/sc[i].u.f; }
  for (auto &s : ao) { do s.u = pickunit(g, 'g', e); while (s.u.dim != 'L' && s.u.dim != 'T'); s.v = g.uni(1, 50)*(s.u.dim == 'T' ? ul/C : ul)/s.u.f; }
  for (size_t i = sc.size(); i-- > 1;) std::swap(sc[i], sc[g.below(i + 1)]); for (size_t i = ao.size(); i-- > 1;) std::swap(ao[i], ao[g.below(i + 1)]);
  auto one = [&](S const &s) { d << "<" << s.n << " unit=\"" << s.u.n << "\">" << s.v << "</" << s.n << ">\n"; };
  std::string met, scr, ast; d << "<Metric kind=\"KerrBL\"><Mass unit=\"" << um.n << "\">" << vm << "</Mass></Metric>\n"; met = d.str(); d.str(""); d << "<Screen>\n"; for (auto &s : sc) one(s); d << "</Screen>\n"; scr = d.str(); d.str(""); d << "<Astrobj kind=\"ThinDisk\">\n"; for (auto &s : ao) one(s); d << "</Astrobj>\n"; ast = d.str();
  std::vector<std::string> parts = {met, scr, ast}; for (size_t i = 3; i-- > 1;) std::swap(parts[i], parts[g.below(i + 1)]); std::string doc = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\n<Scenery>\n" + parts[0] + parts[1] + parts[2] + "</Scenery>\n"; c.note << doc; c.nontrivial = true;
  Any x; try { x = parse('C', doc); } catch (Gyoto::Error const &err) { c.fail("documents/refused", (const char *)err); return; }
  for (auto &s : sc) { double r = x.sc->screen()->get(s.n), w = expected(s.b, s.v, s.u, e); c.check(nr(r, w, etol(s.b, s.u) + 1e-11 + (s.b == 'A' ? dt : 0)), "documents/Screen/" + s.n, s.n + " = " + gy::num(s.v) + " " + s.u.n + " read as " + gy::num(r) + ", expected " + gy::num(w)); }
  for (auto &s : ao) { double r = x.sc->astrobj()->get(s.n), w = expected(s.b, s.v, s.u, e); c.check(nr(r, w, etol(s.b, s.u)), "documents/Astrobj/" + s.n, s.n + " = " + gy::num(s.v) + " " + s.u.n + " read as " + gy::num(r) + ", expected " + gy::num(w)); }
}
// images in the requested unit
PBT_SUB(images, 300, 5000, "random scenery traced in SI and with units requested for Intensity, Spectrum and BinSpectrum, after a possibly refused request; non-trivial: some pixel sees the object") {
  scn::P s; try { s = scn::make(g, 5); } catch (Gyoto::Error const &) { throw pbt::Discard(); } c.note << s->desc(); c.label(s->akind); using namespace scn; static std::set<std::string> nobin = {"ThickDisk", "SphericalAccretion", "Jet", "PolishDoughnut", "Blob"}; int q = QI | QS | QB; if (nobin.count(s->akind) || s->desc().find("; Torus") != std::string::npos) q &= ~QB; if (s->akind == "PageThorneDisk") q = QS;
  double pix = s->scr->fieldOfView()/5; std::vector<U> sb = {{"J.m-2.s-1.sr-1.Hz-1", 'B', 1, 0}, {"erg.cm-2.s-1.sr-1.Hz-1", 'B', 1e-3, 0}, {"mJy.sr-1", 'B', 1e-29, 0}, {"Jy/pix2", 'B', 1e-26/(pix*pix), 0}, {"J.m-2.s-1.pix-2.Hz-1", 'B', 1/(pix*pix), 0}, {"W.m-2.Hz-1.arcsec-2", 'B', 1/pow(M_PI/648000, 2), 0}}, bb = {{"J.m-2.s-1.sr-1", 'b', 1, 0}, {"erg.cm-2.s-1.sr-1", 'b', 1e-3, 0}, {"W.m-2.pix-2", 'b', 1/(pix*pix), 0}, {"erg.cm-2.s-1.pix-2", 'b', 1e-3/(pix*pix), 0}};
  U ui = g.pick(sb), us = g.pick(sb), ub = g.pick(bb); Img A(25, s->nnu, q), B(25, s->nnu, q);
  auto tr = [&](Img &im) { Screen::Range r1(1, 5, 1), r2(1, 5, 1); Screen::Grid gr(r1, r2, ""); s->sc->rayTrace(gr, &im.p, NULL); };
  try { tr(A); } catch (Gyoto::Error const &) { throw pbt::Discard(); }
  if (g.chance(1, 3)) { std::string bad = g.flip() ? "NoSuchQuantity" : "Intensity[kg]"; bool thrown = false; c.note << " ; refused request " << bad; try { s->sc->requestedQuantitiesString(bad); } catch (Gyoto::Error const &) { thrown = true; } c.check(thrown, "images/badrequest", bad + " accepted"); }
  std::string req = std::string("Intensity[") + ui.n + "] Spectrum[" + us.n + "] BinSpectrum[" + ub.n + "]", copy = std::string(req.c_str()); c.note << " ; request " << req; s->sc->requestedQuantitiesString(req); c.check(req == copy, "images/argument", "the request string of the caller was modified to '" + std::string(req.c_str()) + "'");
  s->sc->setPropertyConverters(&B.p); tr(B); auto Q = s->sc->getRequestedQuantities(); c.check(Q == (Quantity_t)(GYOTO_QUANTITY_INTENSITY | GYOTO_QUANTITY_SPECTRUM | GYOTO_QUANTITY_BINSPECTRUM), "images/quantities", "requested quantities");
  for (auto &kv : A.d) { double f = kv.first == QI ? ui.f : kv.first == QS ? us.f : ub.f; for (size_t i = 0; i < kv.second.size(); ++i) { double a = kv.second[i], b = B.d[kv.first][i]; if (a != a && b != b) continue; if (a != 0) c.nontrivial = true; c.check(nr(b, a/f, 1e-9) || (fabs(a) < 1e-280 && fabs(b) < 1e-250), std::string("images/") + qname(kv.first) + "/" + s->akind, std::string(qname(kv.first)) + " is " + gy::num(a) + " in SI and " + gy::num(b) + " in " + (kv.first == QI ? ui.n : kv.first == QS ? us.n : ub.n) + ", expected " + gy::num(a/f)); } }
}
GY_MAIN
