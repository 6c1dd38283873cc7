// R01: what a pixel shows depends on the scenery and the pixel only.
#include "scn.h"
#include "GyotoStandardAstrobj.h"
using namespace scn;
typedef std::vector<std::pair<size_t, size_t>> Pix;
// integrate the worldline of moving objects over the whole span once, so that it is the same for every trace
static void prep(SmartPointer<Astrobj::Generic> o) {
  if (Astrobj::Complex *cx = dynamic_cast<Astrobj::Complex *>((Astrobj::Generic *)o)) { for (size_t i = 0; i < cx->getCardinal(); ++i) prep((*cx)[i]); return; }
  if (Worldline *w = dynamic_cast<Worldline *>((Astrobj::Generic *)o)) { w->xFill(-3200); w->xFill(400); }
}
// quantities an object kind can deliver
static int qof(S const &s) {
  int q = QALL & ~QU; static std::set<std::string> nobin = {"ThickDisk", "SphericalAccretion", "Jet", "PolishDoughnut", "Blob"}; // adaptive integration over the bin: slow
  if (nobin.count(s.akind)) q &= ~QB; if (s.met->coordKind() != GYOTO_COORDKIND_SPHERICAL) q &= ~QN;
  if (s.desc().find("; Torus") != std::string::npos) q &= ~QB; // the channels of a Torus are attenuated differently for Spectrum and BinSpectrum (see known findings of R02)
  if (s.akind == "PageThorneDisk") q = (q & ~(QI | QB)) | QU;
  return q;
}
static bool same(double a, double b, double rt) { if (a == b || (a != a && b != b)) return true; return fabs(a - b) <= rt*std::max(fabs(a), fabs(b)); }
// compare cell i of A with cell j of B
static bool cmp(pbt::Ctx &c, Img const &A, size_t i, Img const &B, size_t j, double rt, std::string sig, std::string what) {
  for (auto &kv : B.d) { if (!A.d.count(kv.first)) continue; V a = A.cell(kv.first, i), b = B.cell(kv.first, j);
    for (size_t k = 0; k < a.size(); ++k) if (!same(a[k], b[k], kv.first == QC ? 1e-6 : rt)) {
      if (kv.first == QC) { double sc = 0; for (double x : a) if (fabs(x) < 1e100) sc = std::max(sc, fabs(x)); if (fabs(a[k] - b[k]) <= rt*sc) continue; }
      c.fail(sig + "/" + qname(kv.first), what + ": " + qname(kv.first) + "[" + std::to_string(k) + "] is " + gy::num(b[k]) + ", expected " + gy::num(a[k])); return false; } }
  return true;
}
static bool trace1(S &s, SmartPointer<Scenery> sc, Pix const &px, Img &im) { // one by one
  prep(sc->astrobj());
  try { for (size_t k = 0; k < px.size(); ++k) { Astrobj::Properties p = im.p; p += k; (*sc)(px[k].first, px[k].second, &p, (double *)NULL, (Photon *)NULL); } } catch (Gyoto::Error const &) { return false; }
  return true;
}
static Pix all(size_t n) { Pix p; for (size_t j = 1; j <= n; ++j) for (size_t i = 1; i <= n; ++i) p.push_back({i, j}); return p; }
static bool wl(S const &s) { return s.desc().find(" init r=") != std::string::npos; }
static double rtol(S const &s) { return wl(s) ? 1e-4 : 1e-9; }
// moving objects: threads and clones integrate the orbit anew, to the integrator's tolerance; a pixel
// whose content changes more than that when the observing date moves by 1e-3 M proves nothing
static bool sensitive(S &s, Img const &R, size_t cell, std::pair<size_t, size_t> px) {
  if (!wl(s)) return false; double t0 = s.scr->time("geometrical_time"); bool bad = false;
  for (double d : {-1e-3, 1e-3}) { s.scr->time(t0 + d, "geometrical_time"); Img I(1, s.nnu, R.q); if (!trace1(s, s.sc, Pix(1, px), I)) bad = true;
    for (auto &kv : R.d) if (kv.first != QC && kv.first != QT) { V a = R.cell(kv.first, cell), b = I.cell(kv.first, 0); for (size_t k = 0; k < a.size(); ++k) if (!same(a[k], b[k], 1e-3)) bad = true; }
    if (fabs(R.d.at(QT)[cell] - I.d[QT][0]) > 2e-2) bad = true; }
  s.scr->time(t0, "geometrical_time"); return bad;
}

static P ref(pbt::Gen &g, pbt::Ctx &c, size_t npix, std::unique_ptr<Img> &im, int &nhit, bool thr = false) {
  P s; try { s = make(g, npix); } catch (Gyoto::Error const &e) { c.note << "scenery refused: " << (const char *)e; throw pbt::Discard(); }
  c.note << s->desc(); c.label(s->akind);
  im.reset(new Img(npix*npix, s->nnu, qof(*s)));
  if (!trace1(*s, s->sc, all(npix), *im)) { c.note << " (object refuses some ray)"; throw pbt::Discard(); }
  nhit = 0; for (size_t i = 0; i < npix*npix; ++i) nhit += im->hit(i); c.note << " hits " << nhit << ' ';
  return s;
}

PBT_SUB(subset, 600, 8000, "random scenery, pixel set (grid of ranges, index lists in any order, paired lists), with or without a mask, 0..8 threads, on the scenery or a clone; non-trivial: at least 2 selected pixels see the object") {
  size_t np = g.range(4, 6); std::unique_ptr<Img> R; int nh; P s = ref(g, c, np, R, nh);
  SmartPointer<Scenery> sc = s->sc; bool cl = g.chance(1, 3); if (cl) { sc = s->sc->clone(); c.note << "clone "; }
  size_t nt = g.chance(1, 4) ? 0 : g.range(1, 8); sc->nThreads(nt); c.note << "threads=" << nt << ' ';
  V mask; if (g.chance(1, 3)) { mask.resize(np*np); for (auto &x : mask) x = g.flip(); sc->screen()->mask(&mask[0], np); c.note << "mask "; for (double x : mask) c.note << x; c.note << ' '; }
  Pix px; std::unique_ptr<Screen::Coord1dSet> a, b; std::unique_ptr<Screen::Coord2dSet> set; std::vector<size_t> ia, ib; int kind = g.below(3);
  if (kind == 0) { size_t i0 = g.range(1, np), i1 = g.range(i0, np), di = g.range(1, 3), j0 = g.range(1, np), j1 = g.range(j0, np), dj = g.range(1, 3); a.reset(new Screen::Range(i0, i1, di)); b.reset(new Screen::Range(j0, j1, dj)); c.note << "range " << i0 << ':' << i1 << ':' << di << " x " << j0 << ':' << j1 << ':' << dj;
    for (size_t j = j0; j <= j1; j += dj) for (size_t i = i0; i <= i1; i += di) px.push_back({i, j}); set.reset(new Screen::Grid(*a, *b)); }
  else if (kind == 1) { size_t na = g.range(1, np), nb = g.range(1, np); for (size_t k = 0; k < na; ++k) ia.push_back(g.range(1, np)); for (size_t k = 0; k < nb; ++k) ib.push_back(g.range(1, np)); for (size_t j : ib) for (size_t i : ia) px.push_back({i, j});
    a.reset(new Screen::Indices(&ia[0], na)); b.reset(new Screen::Indices(&ib[0], nb)); set.reset(new Screen::Grid(*a, *b)); c.note << "indices " << na << "x" << nb; }
  else { size_t n = g.range(1, np*np); for (size_t k = 0; k < n; ++k) { ia.push_back(g.range(1, np)); ib.push_back(g.range(1, np)); px.push_back({ia[k], ib[k]}); } a.reset(new Screen::Indices(&ia[0], n)); b.reset(new Screen::Indices(&ib[0], n)); set.reset(new Screen::Bucket(*a, *b)); c.note << "list of " << n; }
  c.label(kind == 0 ? "range" : kind == 1 ? "indices" : "list");
  bool alloc = g.chance(1, 3) && std::set<std::pair<size_t, size_t>>(px.begin(), px.end()).size() == px.size(); Img I(alloc ? np*np : px.size(), s->nnu, R->q, -77); I.p.alloc = alloc;
  prep(sc->astrobj()); try { sc->rayTrace(*set, &I.p, NULL); } catch (Gyoto::Error const &e) { c.fail("subset/error", std::string("ray-tracing the subset failed: ") + (const char *)e); return; }
  int k = 0, h = 0; for (auto &p : px) { size_t full = (p.second - 1)*np + p.first - 1, cell = alloc ? full : k; ++k; std::string w = "pixel (" + std::to_string(p.first) + "," + std::to_string(p.second) + ")";
    if (mask.size() && !mask[full]) { Img Z(1, s->nnu, R->q); Z.p.init(s->nnu); if (!cmp(c, Z, 0, I, cell, 0, "subset/masked", "masked " + w)) return; continue; }
    if (sensitive(*s, *R, full, p)) continue; if (R->hit(full)) ++h; if (!cmp(c, *R, full, I, cell, rtol(*s), "subset", w)) return; }
  if (alloc) { std::set<std::pair<size_t, size_t>> in(px.begin(), px.end()); for (auto &p : all(np)) if (!in.count(p)) for (auto &kv : I.d) for (double x : I.cell(kv.first, (p.second - 1)*np + p.first - 1)) c.check(x == -77, "subset/untouched", "a pixel which was not requested was written"); }
  if (!cl) { sc->screen()->mask(NULL); }
  c.nontrivial = h >= 2;
}
PBT_SUB(history, 500, 6000, "random scenery: trace, then trace other pixels, change settings (inclination, object or metric parameter, spectrometer, field of view) and change them back, then trace again in another order; non-trivial: some pixel sees the object") {
  size_t np = g.range(3, 5); std::unique_ptr<Img> R; int nh; P s = ref(g, c, np, R, nh); SmartPointer<Scenery> sc = s->sc;
  int n = g.range(1, 4); for (int k = 0; k < n; ++k) { int w = g.below(6); Img I(np*np, s->nnu, R->q); Pix px; for (int q = g.range(1, 5); q; --q) px.push_back({size_t(g.range(1, np)), size_t(g.range(1, np))});
    try { if (w == 0) { double v = s->scr->inclination(), x = g.uni(0.2, 2.9); c.note << "inclination " << x << ' '; s->scr->inclination(x); trace1(*s, sc, px, I); s->scr->inclination(v); }
    else if (w == 1) { double v = s->met->mass(); double x = g.logu(1, 1e8); c.note << "mass " << x << ' '; s->met->mass(x); trace1(*s, sc, px, I); s->met->mass(v); }
    else if (w == 2) { double v = s->scr->fieldOfView(); s->scr->fieldOfView(v*g.uni(0.3, 2)); c.note << "field "; trace1(*s, sc, px, I); s->scr->fieldOfView(v); }
    else if (w == 3) { SmartPointer<Spectrometer::Generic> sp = s->scr->spectrometer(); SmartPointer<Spectrometer::Generic> o = sp->clone(); s->scr->spectrometer(o); trace1(*s, sc, px, I); s->scr->spectrometer(sp); c.note << "spectrometer "; }
    else if (w == 4) { bool has = false; try { s->met->get("Spin"); has = true; } catch (Gyoto::Error const &) {} if (has && s->akind != "PolishDoughnut") { double v = s->met->get("Spin"); double x = s->mkind == "KonoplyaRezzollaZhidenko" ? g.uni(0.1, 0.7) : g.uni(0, 0.9); c.note << "spin " << x << ' '; s->met->set("Spin", Value(x)); trace1(*s, sc, px, I); s->met->set("Spin", Value(v)); } }
    else { double v = s->obj->rMax(); s->obj->rMax(v*g.uni(0.5, 2)); c.note << "rmax "; trace1(*s, sc, px, I); s->obj->rMax(v); } } catch (Gyoto::Error const &) { throw pbt::Discard(); } }
  Pix px = all(np); for (size_t k = px.size() - 1; k > 0; --k) std::swap(px[k], px[g.below(k + 1)]);
  Img I(np*np, s->nnu, R->q); if (!trace1(*s, sc, px, I)) { c.fail("history/error", "ray-tracing fails the second time"); return; }
  for (size_t k = 0; k < px.size(); ++k) if (!cmp(c, *R, (px[k].second - 1)*np + px[k].first - 1, I, k, rtol(*s), "history", "pixel (" + std::to_string(px[k].first) + "," + std::to_string(px[k].second) + ") after the detour")) return;
  c.nontrivial = nh >= 1;
}
PBT_SUB(quantities, 400, 5000, "random scenery, random subset of the quantities requested (the photometric ones alone or together with others); non-trivial: some pixel sees the object and a proper subset is asked") {
  size_t np = g.range(3, 5); std::unique_ptr<Img> R; int nh; P s = ref(g, c, np, R, nh); SmartPointer<Scenery> sc = s->sc; if (s->akind == "StochasticThinDisk" || s->akind == "ThinDiskProfile") throw pbt::Discard(); int q = 0; for (int k = 1; k <= QSV; k <<= 1) if ((R->q & k) && g.chance(1, 3)) q |= k; if (!(q & (QI | QS | QB | QU | QC))) q |= R->q & (QI | QU);
  c.note << "quantities"; for (int k = 1; k <= QSV; k <<= 1) if (q & k) c.note << ' ' << qname(k);
  Img I(np*np, s->nnu, q); if (!trace1(*s, sc, all(np), I)) { if (!(q & QS)) throw pbt::Discard(); c.fail("quantities/error", "ray-tracing fails"); return; }
  if (!(q & QS) && s->desc().find("; Torus") != std::string::npos) for (int k : {QT, QD, QF, QR, QN}) I.d.erase(k); // the channels of a Torus stay transparent (see known findings of R02)
  for (size_t k = 0; k < np*np; ++k) if (!cmp(c, *R, k, I, k, rtol(*s), "quantities", "cell " + std::to_string(k))) return;
  c.nontrivial = nh >= 1 && q != R->q;
}
PBT_SUB(impact, 400, 5000, "random optically thick scenery, image computed from stored impact coordinates; non-trivial: some pixel sees the object") {
  size_t np = g.range(4, 7); static std::vector<std::string> ks = {"FixedStar", "Star", "ThinDiskPL", "ThinDisk", "PageThorneDisk", "ThinDiskIronLine", "PatternDisk", "PatternDiskBB", "InflateStar", "DeformedTorus"};
  P s; try { s = make(g, np, g.pick(ks)); } catch (Gyoto::Error const &) { throw pbt::Discard(); } try { s->obj->opticallyThin(false); } catch (Gyoto::Error const &) {} c.note << s->desc(); c.label(s->akind);
  int q = qof(*s); Img R(np*np, s->nnu, q); if (!trace1(*s, s->sc, all(np), R)) throw pbt::Discard();
  int nh = 0; for (size_t i = 0; i < np*np; ++i) nh += R.hit(i);
  Img I(np*np, s->nnu, (q & (QI|QT|QR|QS|QB|QU))); V ic = R.d[QC]; Screen::Range a(1, np, 1), b(1, np, 1); Screen::Grid gr(a, b); s->sc->nThreads(g.below(5));
  try { s->sc->rayTrace(gr, &I.p, &ic[0]); } catch (Gyoto::Error const &e) { c.fail("impact/error", std::string("ray-tracing from impact coordinates fails: ") + (const char *)e); return; }
  for (size_t k = 0; k < np*np; ++k) if (R.d[QC][16*k] == DBL_MAX) { for (int w : {QI, QS, QB, QU}) if (q & w) for (double x : I.cell(w, k)) c.check(x == 0, "impact/empty", "flux in a pixel without impact"); } else if (!cmp(c, R, k, I, k, 1e-9, "impact", "cell " + std::to_string(k) + " from its impact coordinates")) return;
  c.check(ic == R.d[QC], "impact/modified", "the impact coordinates were modified"); c.nontrivial = nh >= 1;
}
GY_MAIN
