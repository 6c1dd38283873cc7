// X02: property system (set / get / text / names / children / independence).
#include "objgen.h"
using namespace og;
static Any any(pbt::Gen &g, pbt::Ctx &c, unsigned maxdens = 2) {
  char cat = g.pick(std::vector<char>{'A', 'A', 'A', 'M', 'S', 'R', 'K'}); Any x;
  if (cat == 'K') x = create(g, 'K', "Screen", c.note); else x = create(g, cat, g.pick(kinds(cat)), c.note);
  c.label(std::string(1, cat) + ":" + x.kind); return x;
}
static std::string show(Property const *p, Value const &v) {
  switch (p->type) { case Property::double_t: return dstr(double(v)); case Property::bool_t: return bool(v) ? "true" : "false"; case Property::long_t: return std::to_string(long(v)); case Property::unsigned_long_t: { unsigned long u = v; return std::to_string(u); } case Property::size_t_t: { size_t u = v; return std::to_string(u); } case Property::string_t: case Property::filename_t: { std::string u = v; return u; } case Property::vector_double_t: { V u = v; std::string s; for (double y : u) s += dstr(y) + " "; return s; } case Property::vector_unsigned_long_t: { std::vector<unsigned long> u = v; std::string s; for (auto y : u) s += std::to_string(y) + " "; return s; } default: return "object"; }
}
static bool same(Property const *p, Value const &a, Value const &b, double rt) {
  switch (p->type) { case Property::double_t: return near(double(a), double(b), rt); case Property::bool_t: return bool(a) == bool(b); case Property::long_t: return long(a) == long(b); case Property::unsigned_long_t: { unsigned long u = a, v = b; return u == v; } case Property::size_t_t: { size_t u = a, v = b; return u == v; } case Property::string_t: case Property::filename_t: { std::string u = a, v = b; return u == v; }
    case Property::vector_double_t: { V u = a, v = b; if (u.size() != v.size()) return false; for (size_t i = 0; i < u.size(); ++i) if (!near(u[i], v[i], rt)) return false; return true; }
    case Property::vector_unsigned_long_t: { std::vector<unsigned long> u = a, v = b; return u == v; }
    case Property::spectrum_t: { SmartPointer<Spectrum::Generic> u = a, v = b; return (Spectrum::Generic *)u == (Spectrum::Generic *)v; } case Property::metric_t: { SmartPointer<Metric::Generic> u = a, v = b; return (Metric::Generic *)u == (Metric::Generic *)v; } case Property::spectrometer_t: { SmartPointer<Spectrometer::Generic> u = a, v = b; return (Spectrometer::Generic *)u == (Spectrometer::Generic *)v; } default: return true; }
}
// settings documented to act on another one
static bool coupled(std::string const &a, std::string const &b) {
  static std::set<std::string> k = {"Radius>SafetyValue", "SmallRadius>SafetyValue", "Position>SafetyValue", "Opacity>OpticallyThin", "Lambda>AngMomRinner", "AngMomRinner>Lambda", "ADAFParameters>ADAF", "SubMetric>Mass"};
  return k.count(a + ">" + b);
}
static bool get(Object const *o, Property const *p, Value &v) { try { v = o->get(*p); return true; } catch (Gyoto::Error const &) { return false; } }
// set any property to an accepted value: it reads back as set, and no other property moves
PBT_SUB(setget, 60000, 1500000, "random object, property and value; non-trivial: the value was accepted and differs from the previous one") {
  Any x = any(g, c); auto ps = props(x.o()); if (ps.empty()) throw pbt::Discard(); Property const *p = g.pick(ps); c.note << " ;; set"; Value before; bool had = get(x.o(), p, before); std::map<Property const *, Value> snap; for (auto q : ps) if (q != p) { Value v; if (get(x.o(), q, v)) snap[q] = v; }
  Value v; if (!setone(g, x, p, c.note, 1, &v)) throw pbt::Discard(); Value r; std::string id = x.kind + "/" + p->name; c.check(get(x.o(), p, r), "setget/unreadable/" + id, "set but not readable");
  c.nontrivial = !had || !same(p, before, v, 0);
  if (p->name == "TMin" || p->name == "TMax") { double o = x.o()->get(p->name == "TMin" ? "TMax" : "TMin"), n = r, w = v, q = 0; for (auto &s : snap) if (s.first->name == (p->name == "TMin" ? "TMax" : "TMin")) q = s.second; c.check(std::min(o, n) == std::min(q, w) && std::max(o, n) == std::max(q, w), "setget/value/" + id, "time interval"); for (auto it = snap.begin(); it != snap.end();) if (it->first->name == "TMin" || it->first->name == "TMax") it = snap.erase(it); else ++it; v = r; }
  if (p->name == "Model_param") { V a = v, b = r; c.check(b.size() >= a.size(), "setget/value/" + id, "size"); b.resize(a.size()); r = Value(b); }
  c.check(same(p, v, r, 1e-13), "setget/value/" + id, "set to " + show(p, v) + " but reads " + show(p, r));
  for (auto &s : snap) { if (coupled(p->name, s.first->name)) continue; Value w; c.check(get(x.o(), s.first, w), "setget/lost/" + id, s.first->name + " can no longer be read after setting " + p->name); c.check(same(s.first, s.second, w, 1e-13), "setget/other/" + id + "/" + s.first->name, "setting " + p->name + " changed " + s.first->name + " from " + show(s.first, s.second) + " to " + show(s.first, w)); }
}
// the textual route (as in a document) is equivalent to the typed one
PBT_SUB(text, 60000, 1500000, "random object, property and value given as text (and through Child::Name); non-trivial: accepted") {
  Any x = any(g, c); auto ps = props(x.o()); if (ps.empty()) throw pbt::Discard(); Property const *p = g.pick(ps); c.note << " ;; set"; Any y = x.clone(); Value v; if (!setone(g, x, p, c.note, 1, &v)) throw pbt::Discard(); std::string n = p->name, t, id = x.kind + "/" + n;
  switch (p->type) { case Property::bool_t: if (!bool(v)) n = p->name_false; break; case Property::spectrum_t: case Property::metric_t: case Property::spectrometer_t: throw pbt::Discard(); default: t = show(p, v); }
  std::string pad = g.flip() ? "  " : g.flip() ? "\n\t" : ""; if (p->type != Property::string_t && p->type != Property::bool_t) t = pad + t + pad;
  try { c.check(y.o()->setParameter(n, t, "") == 0, "text/unknown/" + id, "the name " + n + " is not recognised"); } catch (Gyoto::Error const &e) { c.fail("text/refused/" + id, std::string("accepted as a value, refused as text: ") + (const char *)e); }
  std::string d = diff(x.o(), y.o(), 0); if (d.size()) c.fail("text/value/" + id, "set by value / by text '" + t + "': " + d); c.nontrivial = true;
  if (p->type == Property::bool_t) { bool b = v; c.check(bool(x.o()->get(p->name)) == b && bool(x.o()->get(p->name_false)) == !b, "text/boolnames/" + id, "the two names of the flag are not opposite"); Any z = y.clone(); z.o()->set(p->name_false, Value(b)); c.check(bool(z.o()->get(p->name)) == !b, "text/boolset/" + id, "setting the negative name"); }
}
PBT_SUB(child, 12000, 300000, "property of a child object set through Child::Name; non-trivial: accepted") {
  // scenery -> screen / metric / astrobj -> spectrum
  Any x = create(g, 'C', "Scenery", c.note); std::string path; Object *o = NULL; Any ch; 
  switch (g.below(3)) { case 0: path = "Screen"; ch.cat = 'K'; ch.k = x.sc->screen(); ch.kind = "Screen"; break; case 1: path = "Metric"; ch.cat = 'M'; ch.m = x.sc->metric(); ch.kind = ch.m->kind(); break; default: path = "Astrobj"; ch.cat = 'A'; ch.a = x.sc->astrobj(); ch.kind = ch.a->kind(); }
  if (x.sc->astrobj()->kind() == "PolishDoughnut" && ch.cat == 'M') throw pbt::Discard();  // not every torus exists around every spin
  if (ch.cat == 'A' && g.flip()) { Property const *q = ch.a->property("Spectrum"); if (q) { SmartPointer<Spectrum::Generic> s = ch.a->get(*q); if (s) { path += "::Spectrum"; ch.cat = 'S'; ch.s = s; ch.kind = s->kind(); } } }
  o = ch.o(); auto ps = props(o); std::vector<Property const *> ok; for (auto p : ps) if (p->type == Property::double_t || p->type == Property::size_t_t) ok.push_back(p); if (ok.empty()) throw pbt::Discard(); Property const *p = g.pick(ok); Any z = ch.clone(); c.note << " ;; " << path << "::"; Value v; if (!setone(g, z, p, c.note, 1, &v)) throw pbt::Discard();
  try { c.check(x.sc->setParameter(path + "::" + p->name, show(p, v), "") == 0, "child/unknown/" + path, path + "::" + p->name + " not recognised"); } catch (Gyoto::Error const &e) { c.fail("child/refused/" + ch.kind + "/" + p->name, std::string("refused: ") + (const char *)e); }
  Value a = z.o()->get(*p), b = o->get(*p); c.check(same(p, a, b, 1e-13), "child/value/" + ch.kind + "/" + p->name, "set on the child to " + show(p, v) + ", reads " + show(p, b) + ", expected " + show(p, a)); c.nontrivial = true;
  std::string bad = "NoSuchProperty"; int rc = 0; bool thr = false; try { rc = o->setParameter(bad, "1", ""); } catch (Gyoto::Error const &) { thr = true; } c.check(rc || thr, "child/unknown-accepted/" + ch.kind, "an unknown property name is silently accepted");
}
GY_MAIN
