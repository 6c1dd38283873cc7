// C01: clones are equal and independent, in any order of changes and destructions (run under AddressSanitizer).
#include "objgen.h"
#include "scn.h"
using namespace og;
static Any any(pbt::Gen &g, pbt::Ctx &c) {
  char cat = g.pick(std::vector<char>{'A', 'A', 'A', 'A', 'M', 'M', 'S', 'R', 'K', 'C', 'C', 'P'}); Any x;
  x = create(g, cat, cat == 'K' ? "Screen" : cat == 'C' ? "Scenery" : cat == 'P' ? "Photon" : g.pick(kinds(cat)), c.note); if (cat == 'C') x.sc->nProcesses(0); c.label(std::string(1, cat) + ":" + x.kind); return x;
}
// an object reachable from x (x itself, its spectra, metric, screen, astrobj, elements)
static Any inner(pbt::Gen &g, Any const &x, std::string &path) {
  Any y = x; int depth = 0;
  while (depth++ < 3 && g.flip()) {
    std::vector<std::pair<std::string, Any>> ch;
    for (auto p : props(y.o())) { Any z; try { if (p->type == Property::spectrum_t) { z.cat = 'S'; z.s = SmartPointer<Spectrum::Generic>(y.o()->get(*p)); } else if (p->type == Property::metric_t) { z.cat = 'M'; z.m = SmartPointer<Metric::Generic>(y.o()->get(*p)); } else if (p->type == Property::spectrometer_t) { z.cat = 'R'; z.r = SmartPointer<Spectrometer::Generic>(y.o()->get(*p)); } else if (p->type == Property::screen_t) { z.cat = 'K'; z.k = SmartPointer<Screen>(y.o()->get(*p)); } else if (p->type == Property::astrobj_t) { z.cat = 'A'; z.a = SmartPointer<Astrobj::Generic>(y.o()->get(*p)); } else continue; } catch (Gyoto::Error const &) { continue; } if (z.o()) { z.kind = z.cat == 'K' ? "Screen" : z.o()->kind(); ch.push_back({p->name, z}); } }
    if (y.cat == 'A') if (auto cc = dynamic_cast<Astrobj::Complex *>((Astrobj::Generic *)y.a)) for (size_t i = 0; i < cc->getCardinal(); ++i) { Any z; z.cat = 'A'; z.a = (*cc)[i]; z.kind = z.a->kind(); ch.push_back({"element", z}); }
    if (y.cat == 'M') if (auto cc = dynamic_cast<Metric::Complex *>((Metric::Generic *)y.m)) for (size_t i = 0; i < cc->getCardinal(); ++i) { Any z; z.cat = 'M'; z.m = (*cc)[i]; z.kind = z.m->kind(); ch.push_back({"element", z}); }
    if (y.cat == 'R') if (auto cc = dynamic_cast<Spectrometer::Complex *>((Spectrometer::Generic *)y.r)) for (size_t i = 0; i < cc->getCardinal(); ++i) { Any z; z.cat = 'R'; z.r = (*cc)[i]; z.kind = z.r->kind(); ch.push_back({"element", z}); }
    if (ch.empty()) break; size_t i = g.below(ch.size()); path += ch[i].first + "::"; y = ch[i].second;
  }
  return y;
}
PBT_SUB(clones, 3000, 60000, "random object (including whole sceneries), a history of clonings, changes (also of inner objects) and destructions; non-trivial: at least one change applied to one of at least two living clones") {
  std::vector<Any> v; std::vector<std::string> doc; v.push_back(any(g, c)); doc.push_back(xml(v[0])); std::string kind = v[0].kind; int steps = g.range(2, 8);
  for (int s = 0; s < steps; ++s) {
    size_t i = g.below(v.size());
    switch (v.size() == 1 ? 0 : g.below(4)) {
      case 0: { c.note << " ; clone(" << i << ")"; Any y = v[i].clone(); std::string d = diff(v[i].o(), y.o(), 0); if (d.size()) c.fail("clones/equal/" + kind + "/" + d.substr(0, d.find_first_of(" [")), "a clone differs from the original: " + d); v.push_back(y); doc.push_back(xml(y)); c.check(doc.back() == doc[i], "clones/xml/" + kind, "the document of a clone differs from that of the original"); c.check(xml(v[i]) == doc[i], "clones/touched/" + kind, "cloning changed the original"); break; }
      case 1: case 2: { std::string path; Any y = inner(g, v[i], path); auto ps = props(y.o()); if (ps.empty()) break; Property const *p = g.pick(ps); if ((y.cat == 'M' && p->name == "Spin") || p->name == "NProcesses") break; c.note << " ; " << i << "." << path; bool ref = false; Value val; bool ok = setone(g, y, p, c.note, 1, &val, &ref); (void)ok; doc[i] = xml(v[i]); c.nontrivial = c.nontrivial || v.size() > 1;
        for (size_t k = 0; k < v.size(); ++k) if (k != i) c.check(xml(v[k]) == doc[k], "clones/shared/" + kind + "/" + path + p->name, "changing " + path + p->name + " of one object changed another one"); break; }
      default: c.note << " ; destroy(" << i << ")"; v.erase(v.begin() + i); doc.erase(doc.begin() + i); for (size_t k = 0; k < v.size(); ++k) c.check(xml(v[k]) == doc[k], "clones/destroyed/" + kind, "destroying one object changed another one");
    }
  }
}
// what a scenery shows is its own: clones made before show the same when the original is traced, changed or destroyed
static void prep(SmartPointer<Astrobj::Generic> o) {
  if (Astrobj::Complex *cx = dynamic_cast<Astrobj::Complex *>((Astrobj::Generic *)o)) { for (size_t i = 0; i < cx->getCardinal(); ++i) prep((*cx)[i]); return; }
  if (Worldline *w = dynamic_cast<Worldline *>((Astrobj::Generic *)o)) { w->xFill(-3200); w->xFill(400); }
}
typedef std::vector<std::pair<size_t, size_t>> Pix;
static bool trace(SmartPointer<Scenery> sc, Pix const &px, scn::Img &im, bool pr = true) {
  try { if (pr) prep(sc->astrobj()); for (size_t k = 0; k < px.size(); ++k) { Astrobj::Properties p = im.p; p += k; (*sc)(px[k].first, px[k].second, &p, (double *)NULL, (Photon *)NULL); } } catch (Gyoto::Error const &) { return false; }
  return true;
}
static bool same(scn::Img const &A, scn::Img const &B, std::string &w) {
  for (auto &kv : A.d) for (size_t k = 0; k < kv.second.size(); ++k) { double a = kv.second[k], b = B.d.at(kv.first)[k]; if (a == b || (a != a && b != b)) continue; if (!(fabs(a - b) <= 1e-9*std::max(fabs(a), fabs(b)) || (kv.first == scn::QC && fabs(a - b) < 1e-6))) { w = std::string(scn::qname(kv.first)) + " is " + gy::num(b) + ", expected " + gy::num(a); return false; } }
  return true;
}
PBT_SUB(traces, 300, 6000, "random scenery, clones of it traced before and after the original is traced, changed (also inner objects), retraced or destroyed; non-trivial: some traced pixel sees the object") {
  scn::P s; try { s = scn::make(g, 5); } catch (Gyoto::Error const &e) { throw pbt::Discard(); } c.note << s->desc(); c.label(s->akind); int q = scn::QALL & ~scn::QU & ~scn::QB & ~scn::QN; if (s->akind == "PageThorneDisk") q = (q & ~scn::QI) | scn::QU;
  Pix px; for (int k = g.range(3, 5); k; --k) px.push_back({size_t(g.range(2, 4)), size_t(g.range(2, 4))}); size_t nnu = s->nnu; std::string kind = s->akind, w; c.note << " ; pixels"; for (auto &x : px) c.note << ' ' << x.first << ',' << x.second;
  if (g.chance(1, 3)) { scn::Img I(px.size(), nnu, q); c.note << " ; traced first"; if (!trace(s->sc, px, I, g.flip())) throw pbt::Discard(); }
  SmartPointer<Scenery> sc = s->sc, k1 = sc->clone(), k2 = sc->clone(), k3; bool moving = s->desc().find(" init r=") != std::string::npos;
  scn::Img R(px.size(), nnu, q), O(px.size(), nnu, q); if (!trace(k1, px, R)) throw pbt::Discard(); for (size_t i = 0; i < px.size(); ++i) c.nontrivial = c.nontrivial || R.hit(i);
  if (!moving) { c.check(trace(sc, px, O), "traces/original/" + kind, "the original refuses a ray the clone accepts"); c.check(same(R, O, w), "traces/clone/" + kind, "the clone does not show what the original shows: " + w); }
  k3 = k1->clone(); int n = g.range(0, 4);
  Any x; x.cat = 'C'; x.kind = "Scenery"; x.sc = sc; s->sc = NULL; s->met = NULL; s->obj = NULL; s->scr = NULL; sc = NULL;
  for (int i = 0; i < n; ++i) { std::string path; Any y = inner(g, x, path); auto ps = props(y.o()); if (ps.empty()) continue; Property const *p = g.pick(ps); if (p->name == "NProcesses" || p->name == "Resolution" || p->name == "NThreads" || p->name == "Integrator" || p->name == "Spectrometer") continue; c.note << " ; " << path; Value val; bool ref = false; setone(g, y, p, c.note, 1, &val, &ref); }
  if (g.chance(2, 3)) { c.note << " ; destroy original"; x = Any(); }
  if (g.flip()) { c.note << " ; destroy first clone"; scn::Img I(px.size(), nnu, q); c.check(trace(k1, px, I), "traces/refuse/" + kind, "a clone refuses rays after the original was changed"); c.check(same(R, I, w), "traces/changed/" + kind, "a clone shows something else after the original was changed or destroyed: " + w); k1 = NULL; }
  for (int i = 0; i < 2; ++i) { scn::Img I(px.size(), nnu, q); SmartPointer<Scenery> k = i ? k3 : k2; c.check(trace(k, px, I), "traces/refuse/" + kind, "a clone refuses rays after the original was changed"); c.check(same(R, I, w), std::string("traces/") + (i ? "second" : "late") + "/" + kind, "a clone shows something else after the original was changed or destroyed: " + w); }
}
GY_MAIN
