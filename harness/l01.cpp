// L01: the gyoto command line: what it writes is what the library computes for the same scenery and options.
#include "scn.h"
#include "GyotoFactory.h"
#include <fitsio.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
using namespace Gyoto; typedef std::vector<double> V; typedef std::vector<std::string> A;
static std::string scratch() { char const *s = getenv("GYOTO_VERIF_SCRATCH"); return std::string(s ? s : "/tmp") + "/l01-" + std::to_string(getpid()); }
struct Dir { std::string p; Dir(std::string q) : p(q) { mkdir(p.c_str(), 0700); } ~Dir() { for (char const *f : {"in.xml", "out.fits", "two.fits", "w1.xml", "w2.xml", "log", "bad.xml", "-out.fits"}) unlink((p + "/" + f).c_str()); rmdir(p.c_str()); } };
// run the program in directory d; exit status, or 1000+signal
static int run(std::string const &d, A const &a, std::string *out = NULL) {
  std::string exe = gy::selfdir() + "gyoto"; pid_t pid = fork(); if (pid < 0) throw std::runtime_error("fork");
  if (!pid) { if (chdir(d.c_str())) _exit(125); int f = open("log", O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(f, 1); dup2(f, 2); alarm(200); std::vector<char *> v; v.push_back((char *)"gyoto"); for (auto &s : a) v.push_back((char *)s.c_str()); v.push_back(NULL); execv(exe.c_str(), v.data()); _exit(126); }
  int st = 0; waitpid(pid, &st, 0); if (out) { std::ifstream i(d + "/log"); std::stringstream s; s << i.rdbuf(); *out = s.str(); } if (WIFSIGNALED(st)) return 1000 + WTERMSIG(st); int r = WEXITSTATUS(st); if (r == 126 || r == 125) throw std::runtime_error("the gyoto program cannot be run"); return r;
}
struct Fits { long n[3] = {0, 0, 0}; V v; A names; bool ipct = false; V ic; long m[3] = {0, 0, 0}; double date = 0; bool ok = false; };
static Fits readfits(std::string f) {
  Fits r; fitsfile *p = NULL; int st = 0, nax = 0; long one[3] = {1, 1, 1}; if (fits_open_file(&p, f.c_str(), READONLY, &st)) return r; fits_get_img_dim(p, &nax, &st); if (nax != 3) { int s2 = 0; fits_close_file(p, &s2); return r; } fits_get_img_size(p, 3, r.n, &st); r.v.resize(r.n[0]*r.n[1]*r.n[2]); fits_read_pix(p, TDOUBLE, one, r.v.size(), NULL, r.v.data(), NULL, &st);
  for (int k = 1; k < 30; ++k) { char key[20], val[80]; sprintf(key, "QUANT_%d", k); int s2 = 0; if (fits_read_key(p, TSTRING, key, val, NULL, &s2)) break; r.names.push_back(val); } r.ok = !st;
  int s2 = 0; if (!fits_movnam_hdu(p, ANY_HDU, (char *)"Gyoto Impact Coordinates", 0, &s2)) { r.ipct = true; fits_get_img_size(p, 3, r.m, &s2); r.ic.resize(r.m[0]*r.m[1]*r.m[2]); fits_read_pix(p, TDOUBLE, one, r.ic.size(), NULL, r.ic.data(), NULL, &s2); fits_read_key(p, TDOUBLE, "Gyoto Observing Date", &r.date, NULL, &s2); r.ok = r.ok && !s2; } s2 = 0; fits_close_file(p, &s2); return r;
}
static std::string num(double x) { std::ostringstream s; s << std::setprecision(17) << x; return s.str(); }
static std::string slurp(std::string f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::string join(A const &a) { std::string s; for (auto &x : a) s += " " + x; return s; }
static A const &kinds() { static A k = {"FixedStar", "Torus", "PageThorneDisk", "ThinDiskPL", "ThinDisk", "DeformedTorus", "ThinDiskIronLine"}; return k; }
static A const opaque = {"FixedStar", "PageThorneDisk", "ThinDiskPL", "ThinDisk"};
// order of the planes of the file
static std::vector<int> const order = {scn::QI, scn::QT, scn::QD, scn::QF, scn::QR, scn::QN, scn::QU, scn::QS, scn::QSQ, scn::QSU, scn::QSV, scn::QB};
struct Sel { size_t lo = 1, hi = 0, step = 1; bool has(size_t i, size_t res) const { return i >= lo && i <= std::min(hi ? hi : res, res) && (i - lo) % step == 0; } };
static void write(SmartPointer<Scenery> sc, std::string f) { Factory fa(sc); fa.write(f.c_str()); }
static SmartPointer<Scenery> read(std::string f) { Factory fa(const_cast<char *>(f.c_str())); return fa.scenery(); }
static std::string text(SmartPointer<Scenery> sc) { Factory fa(sc); return fa.format(); }
// a scenery whose quantities can be computed
static scn::P gen(pbt::Gen &g, pbt::Ctx &c, size_t n, bool thick, int &q, bool ic) {
  scn::P ps; try { ps = scn::make(g, n, thick ? g.pick(opaque) : g.pick(kinds())); } catch (Gyoto::Error const &) { throw pbt::Discard(); } scn::S &s = *ps; if (thick && s.akind != "PageThorneDisk") s.obj->opticallyThin(false);
  bool pt = s.akind == "PageThorneDisk", std = s.akind == "FixedStar" || s.akind == "Star" || s.akind == "Torus" || s.akind == "DeformedTorus"; q = 0; for (int k : order) if (g.chance(2, 5)) q |= k; if (ic || thick || s.akind == "Torus" || g.chance(2, 3)) q &= ~(scn::QSQ | scn::QSU | scn::QSV); else c.label("stokes"); if (pt) q &= ~(scn::QI | scn::QB); else q &= ~scn::QU; if (!std) q &= ~(scn::QD | scn::QF); if (s.akind == "Torus") q &= ~(scn::QS | scn::QB); if (thick) q &= ~(scn::QD | scn::QF | scn::QN); if (!q) q = pt ? scn::QU : scn::QI; if (ic) q |= scn::QC;
  s.sc->maxiter(4000); std::string names; for (int k = 1; k <= scn::QSV; k <<= 1) if (q & k) { if (names.size()) names += ' '; names += scn::qname(k); } s.sc->requestedQuantitiesString(names); c.note << s.desc() << " quantities " << names; c.label(s.akind); return ps;
}
// pixel by pixel with the library
static void expect(pbt::Ctx &c, SmartPointer<Scenery> sc, int q, Sel const &si, Sel const &sj, Fits const &f, bool ipct, std::string const &tag, std::string const &opts, bool &hit) {
  size_t res = sc->screen()->resolution(), nnu = sc->screen()->spectrometer() ? sc->screen()->spectrometer()->nSamples() : 0; A names; size_t planes = 0; for (int k : order) if (q & k) { names.push_back(scn::qname(k)); planes += scn::Img::width(k, nnu); }
  c.check(f.ok && size_t(f.n[0]) == res && size_t(f.n[1]) == res && size_t(f.n[2]) == planes, tag + "/size", "image of " + std::to_string(f.n[0]) + "x" + std::to_string(f.n[1]) + "x" + std::to_string(f.n[2]) + ", expected " + std::to_string(res) + "x" + std::to_string(res) + "x" + std::to_string(planes) + opts); c.check(f.names == names, tag + "/names", "quantities in the file:" + join(f.names) + ", expected" + join(names) + opts); c.check(f.ipct == ipct, tag + "/impact-hdu", "impact coordinates in the file" + opts); if (ipct) c.check(f.m[0] == 16 && size_t(f.m[1]) == res && size_t(f.m[2]) == res, tag + "/impact-size", "size of the impact coordinates" + opts);
  scn::Img im(1, nnu, q | (ipct ? scn::QC : 0)); for (size_t j = 1; j <= res; ++j) for (size_t i = 1; i <= res; ++i) { bool in = si.has(i, res) && sj.has(j, res); if (in) { Astrobj::Properties p = im.p; p.init(nnu); (*sc)(i, j, &p); if (im.hit(0)) hit = true; } size_t pl = 0, at = (j - 1)*res + i - 1; std::string w = " of pixel " + std::to_string(i) + "," + std::to_string(j) + opts;
    for (int k : order) if (q & k) for (size_t t = 0; t < scn::Img::width(k, nnu); ++t, ++pl) { double got = f.v[pl*res*res + at], want = in ? im.cell(k, 0)[t] : 0; if (want != want || got == want) continue; c.check(fabs(got - want) <= 1e-9*fabs(want), in ? tag + "/value/" + scn::qname(k) : tag + "/unselected", std::string(scn::qname(k)) + (in ? "" : " (not selected)") + w + " is " + gy::num(got) + ", expected " + gy::num(want)); }
    if (ipct) for (int t = 0; t < 16; ++t) { double got = f.ic[16*at + t], want = in ? im.d[scn::QC][t] : DBL_MAX; if (want != want || got == want) continue; c.check(fabs(got - want) <= 1e-9*fabs(want), in ? tag + "/impact" : tag + "/impact-unselected", "impact coordinate " + std::to_string(t) + w + " is " + gy::num(got) + ", expected " + gy::num(want)); } }
}
PBT_SUB(options, 600, 6000, "random scenery written to a file, random options of the command line (region in any syntax, camera, arbitrary parameters with units, threads, written-back documents) in random order: the image against the library, pixel by pixel; non-trivial: something is visible") {
  Dir d(scratch()); int q; scn::P ps = gen(g, c, 3 + g.below(4), false, q, false); write(ps->sc, d.p + "/in.xml"); SmartPointer<Scenery> sc = read(d.p + "/in.xml"); SmartPointer<Screen> s = sc->screen(); Sel si, sj; A a; std::string unit, xml[2]; int nx = 0; bool ic = false; std::string err;
  auto opt = [&](std::string lng, std::string shrt, std::string v) { if (shrt.size() && g.flip()) a.push_back("-" + shrt + v); else a.push_back("--" + lng + "=" + v); };
  bool longsel[2] = {g.flip(), g.flip()}; int no = 1 + g.below(8);
  for (int k = 0; k < no; ++k) switch (g.below(15)) {
    case 0: case 1: case 2: { bool I = g.flip(); Sel &t = I ? si : sj; size_t lo = 1 + g.below(4), hi = lo + g.below(4), st = 1 + g.below(3); std::string ij = I ? "i" : "j";
      if (longsel[I]) switch (g.below(3)) { case 0: opt(ij + "min", "", std::to_string(lo)); t.lo = lo; break; case 1: opt(ij + "max", "", std::to_string(hi + 2)); t.hi = hi + 2; break; default: opt("d" + ij, "", std::to_string(st)); t.step = st; }
      else { bool h0 = g.flip(), h1 = g.flip(), h2 = g.flip(); t = Sel(); std::string v; if (g.chance(1, 4)) { v = std::to_string(lo); t.lo = t.hi = lo; } else { if (h0) { v = std::to_string(lo); t.lo = lo; } v += ":"; if (h1) { v += std::to_string(hi); t.hi = hi; } if (h2) { v += ":" + std::to_string(st); t.step = st; } } opt(ij + "spec", ij, v); } break; }
    case 3: { double v = g.uni(0.1, 3); opt("inclination", "", num(v)); s->inclination(v); break; }
    case 4: { double v = g.uni(0, 6); opt("paln", "", num(v)); s->PALN(v); break; }
    case 5: { double v = g.uni(-3, 3); opt("argument", "", num(v)); s->argument(v); break; }
    case 6: { double v = s->fieldOfView()*g.uni(0.5, 1.2); opt("fov", "", num(v)); s->fieldOfView(v); break; }
    case 7: { size_t v = 3 + g.below(4); opt("resolution", "r", std::to_string(v)); s->resolution(v); break; }
    case 8: { double v = s->time() + g.uni(-10, 10)*sc->metric()->unitLength()/GYOTO_C; opt("time", "", num(v)); s->time(v); break; }
    case 9: { double v = s->distance()*g.uni(0.8, 1.2); opt("distance", "", num(v)); s->distance(v); break; }
    case 10: { double v = -g.logu(100, 1e4); opt("tmin", "", num(v)); sc->tMin(v); break; }
    case 11: { int v = g.below(4); opt("nthreads", "T", std::to_string(v)); sc->nThreads(v); break; }
    case 12: if (nx < 2) { std::string f = nx ? "w2.xml" : "w1.xml"; opt("xmlwrite", "X", f); xml[nx++] = text(sc); } break;
    case 13: if (!ic) { a.push_back("--impact-coords"); ic = true; } break;
    default: { static struct { char const *n, *u; double lo, hi; } const P[] = {{"Screen::Inclination", "degree", 10, 170}, {"Screen::PALN", "degree", 0, 360}, {"Screen::Inclination", "", 0.2, 3}, {"Astrobj::RMax", "geometrical", 30, 60}, {"Screen::FieldOfView", "microarcsec", 2e3, 2e5}, {"DeltaMin", "", 1e-9, 1e-3}, {"AbsTol", "", 1e-7, 1e-5}, {"MaxIter", "", 1000, 5000}, {"Screen::Distance", "km", 1e9, 1e12}}; if (ps->akind != "PageThorneDisk" && g.chance(1, 6)) { if (unit.size()) { unit = ""; a.push_back("-u"); } std::string n = g.flip() ? "Astrobj::OpticallyThin" : "Astrobj::OpticallyThick"; opt("parameter", "E", n); sc->setParameter(n, "", ""); c.label("flag"); break; } auto &p = P[g.below(8)]; double v = p.lo*pow(fabs(p.hi/p.lo), p.lo > 0 ? g.uni(0, 1) : 0) + (p.lo > 0 ? 0 : g.uni(0, p.hi)); std::string t = std::string(p.n) == "MaxIter" ? std::to_string(int(v)) : num(v);
      if (unit != p.u) { unit = p.u; if (unit.size() && g.flip()) a.push_back("--unit=" + unit); else a.push_back("-u" + unit); } opt("parameter", "E", std::string(p.n) + "=" + t); sc->setParameter(p.n, t, unit); }
  }
  bool bang = g.chance(1, 3); if (bang && g.flip()) { std::ofstream(d.p + "/out.fits") << "old"; } A names = {"in.xml", (bang ? "!" : "") + std::string("out.fits")}; std::string shown = " (gyoto" + join(a) + ")"; A all; size_t p1 = g.below(a.size() + 1), p2 = p1 + g.below(a.size() + 1 - p1); for (size_t i = 0; i <= a.size(); ++i) { if (i == p1) all.push_back(names[0]); if (i == p2) all.push_back(names[1]); if (i < a.size()) all.push_back(a[i]); } { static char const *qv[] = {"-s", "--silent", "-q", "--quiet", "--no-sigfpe"}; if (g.flip()) all.insert(all.begin() + g.below(all.size() + 1), qv[g.below(5)]); }
  c.note << " options" << join(all); size_t res = s->resolution(); if (si.lo > res || sj.lo > res || (si.hi && si.lo > si.hi) || (sj.hi && sj.lo > sj.hi)) { c.label("empty-region"); throw pbt::Discard(); }
  std::string log; int st = run(d.p, all, &log); bool hit = false; auto refused = [&]() { c.label("error"); c.check(st > 0 && st < 1000, "options/error", "the library refuses the computation but the program ends with status " + std::to_string(st) + shown); };
  if (st) { bool threw = false; scn::Img im(1, s->spectrometer() ? s->spectrometer()->nSamples() : 0, q | (ic ? scn::QC : 0)); try { for (size_t j = 1; j <= res; ++j) for (size_t i = 1; i <= res; ++i) if (si.has(i, res) && sj.has(j, res)) { Astrobj::Properties p = im.p; p.init(im.nnu); (*sc)(i, j, &p); } } catch (Gyoto::Error const &) { threw = true; } if (threw) { refused(); return; } }
  c.check(st == 0, "options/status", "the program ends with status " + std::to_string(st) + shown + ": " + log.substr(log.size() > 300 ? log.size() - 300 : 0)); for (int k = 0; k < nx; ++k) { std::string got; try { got = text(read(d.p + (k ? "/w2.xml" : "/w1.xml"))); } catch (Gyoto::Error const &e) { c.fail("options/xmlwrite", "document written back cannot be read" + shown); return; } Factory *f2; { std::ofstream o(d.p + "/bad.xml"); o << xml[k]; } f2 = NULL; (void)f2; std::string want = text(read(d.p + "/bad.xml")); c.check(got == want, "options/xmlwrite", "document written back differs from the settings at that point of the command line" + shown); c.label("xmlwrite"); }
  Fits f = readfits(d.p + "/out.fits"); try { expect(c, sc, q, si, sj, f, ic, "options", shown, hit); } catch (Gyoto::Error const &) { refused(); return; } c.nontrivial = hit; if (ic) c.close(f.date, s->time()*GYOTO_C/sc->metric()->unitLength(), 1e-12, 1e-12, "options/date", "observing date of the impact coordinates");
}
PBT_SUB(impacts, 300, 3000, "opaque scenery, impact coordinates saved, then read back with the same or another date, other quantities, and saved again; non-trivial: something is visible") {
  Dir d(scratch()); int q; scn::P ps = gen(g, c, 3 + g.below(3), true, q, g.flip()); write(ps->sc, d.p + "/in.xml"); SmartPointer<Scenery> sc = read(d.p + "/in.xml"); Sel si, sj; bool hit = false; A a; if (!(q & scn::QC)) a.push_back("--impact-coords"); a.push_back("in.xml"); a.push_back("out.fits"); int st = run(d.p, a); c.check(st == 0, "impacts/status", "the program ends with status " + std::to_string(st)); Fits f = readfits(d.p + "/out.fits"); int qp = q & ~scn::QC; expect(c, sc, qp, si, sj, f, true, "impacts", "", hit); c.nontrivial = hit;
  double ul = sc->metric()->unitLength()/GYOTO_C, dt = g.flip() ? 0 : g.uni(-20, 20), t1 = sc->screen()->time() + dt*ul; bool again = g.flip() || (q & scn::QC); A b = {"--impact-coords=out.fits"}; if (dt) b.push_back("--time=" + num(t1)); if (again && !(q & scn::QC)) b.push_back("--impact-coords"); if (g.flip()) std::swap(b[0], b.back()); Sel ti, tj; if (g.chance(1, 3)) { size_t lo = 1 + g.below(f.n[0]), hi = lo + g.below(2), st = 1 + g.below(2); bool I = g.flip(); Sel &t = I ? ti : tj; t.lo = lo; t.hi = hi; t.step = st; b.push_back((I ? "-i" : "-j") + std::to_string(lo) + ":" + std::to_string(hi) + ":" + std::to_string(st)); c.label("region"); } b.push_back("in.xml"); b.push_back("two.fits"); c.note << " then" << join(b); c.label(dt ? "other-date" : "same-date"); st = run(d.p, b); c.check(st == 0, "impacts/status2", "the program ends with status " + std::to_string(st)); Fits h = readfits(d.p + "/two.fits"); c.check(h.ok && h.names == f.names && h.v.size() == f.v.size() && h.ipct == again, "impacts/same", "files differ in what they hold"); if (!(h.v.size() == f.v.size())) return;
  size_t res = f.n[0], nnu = sc->screen()->spectrometer()->nSamples(), pl = 0; double ds = (t1 - sc->screen()->time())/ul; for (int k : order) if (qp & k) for (size_t t = 0; t < scn::Img::width(k, nnu); ++t, ++pl) for (size_t i = 0; i < res*res; ++i) { double want = f.v[pl*res*res + i], got = h.v[pl*res*res + i]; bool im = f.ic[16*i] != DBL_MAX; if (!ti.has(i % res + 1, res) || !tj.has(i/res + 1, res)) { c.check(got == 0, "impacts/unselected", "pixel that was not selected is not zero"); continue; } if (!im && (k == scn::QT)) continue; if (k == scn::QT && im) want += ds; if (want != want || got == want) continue; if (k == scn::QR && !im) continue; c.check(fabs(got - want) <= 1e-6*fabs(want) + (k == scn::QT ? 1e-6 : 0), std::string("impacts/value/") + scn::qname(k), std::string(scn::qname(k)) + " from the stored impacts is " + gy::num(got) + ", expected " + gy::num(want)); }
  if (again) { c.close(h.date, f.date + ds, 1e-9, 1e-6, "impacts/date", "observing date of the impact coordinates"); for (size_t i = 0; i < f.ic.size(); ++i) { double want = f.ic[i]; if (want != DBL_MAX && i % 8 == 0) want += ds; c.check(fabs(h.ic[i] - want) <= 1e-9*fabs(want) + 1e-6*(i % 8 == 0), "impacts/shifted", "impact coordinate " + std::to_string(i % 16) + " saved again is " + gy::num(h.ic[i]) + ", expected " + gy::num(want)); } }
}
PBT_SUB(refusals, 300, 3000, "output that exists, unknown option, parameter, plug-in, class or unit, missing or broken input, wrong kind of document, missing argument: the program stops with an error status and leaves existing files alone; non-trivial: always") {
  Dir d(scratch()); int q; scn::P ps = gen(g, c, 3, false, q, false); write(ps->sc, d.p + "/in.xml"); std::string in = slurp(d.p + "/in.xml"); c.nontrivial = true; A a; std::string what; bool old = false; int w = g.below(10);
  switch (w) { case 0: what = "existing output"; { std::ofstream(d.p + "/out.fits") << "precious data"; } old = true; a = {"in.xml", "out.fits"}; break; case 1: what = "unknown parameter"; a = {"-EAstrobj::NoSuchThing=1", "in.xml", "out.fits"}; break; case 2: what = "unknown plug-in"; a = {"-pnosuchplugin", "in.xml", "out.fits"}; break; case 3: what = "missing input"; a = {"absent.xml", "out.fits"}; break; case 4: { what = "truncated input"; std::ofstream o(d.p + "/bad.xml"); o << in.substr(0, g.below(in.size() - 12)); o.close(); a = {"bad.xml", "out.fits"}; break; }
    case 5: { what = "document that is not a scenery"; std::ofstream o(d.p + "/bad.xml"); Factory fa(ps->met); o << fa.format(); o.close(); a = {"bad.xml", "out.fits"}; break; } case 6: what = "one file name only"; a = {"in.xml"}; break; case 7: what = "three file names"; a = {"in.xml", "out.fits", "two.fits"}; break; case 8: what = "unknown unit"; a = {"-unosuchunit", "-EScreen::Inclination=1", "in.xml", "out.fits"}; break; default: what = "negative region"; a = {g.flip() ? "--imin=0" : "--jmax=-3", "in.xml", "out.fits"}; }
  c.note << what; c.label(what); std::string log; int st = run(d.p, a, &log); c.check(st > 0 && st < 1000, "refusals/" + what, what + ": the program ends with status " + std::to_string(st)); if (old) c.check(slurp(d.p + "/out.fits") == "precious data", "refusals/overwritten", "an existing file was overwritten without being asked"); else c.check(access((d.p + "/out.fits").c_str(), F_OK) != 0 || w == 8, "refusals/output", what + ": an output file was written"); c.check(slurp(d.p + "/in.xml") == in, "refusals/input", "the input file was modified");
}
PBT_SUB(documentation, 150, 400, "list of the registered classes, and documentation of a random class: every class and every setting is listed; non-trivial: always") {
  Dir d(scratch()); c.nontrivial = true; std::string out; static A const ak = {"FixedStar", "Star", "Torus", "PageThorneDisk", "ThinDiskPL", "ThinDisk", "DeformedTorus", "PolishDoughnut", "ThinDiskIronLine", "Jet", "ThickDisk", "Blob", "PatternDisk", "Complex", "EquatorialHotSpot", "Disk3D", "InflateStar"}, mk = {"KerrBL", "KerrKS", "Minkowski", "ReissnerNordstrom", "Hayward", "RezzollaZhidenko", "Complex", "SchwarzschildHarmonic"}, sk = {"PowerLaw", "BlackBody", "ThermalBremsstrahlung", "ThermalSynchrotron", "PowerLawSynchrotron", "KappaDistributionSynchrotron"};
  if (g.chance(1, 6)) { c.label("list"); int st = run(d.p, {g.flip() ? "-l" : "--list"}, &out); c.check(st == 0, "documentation/list", "--list ends with status " + std::to_string(st)); for (auto &k : ak) c.check(out.find(k) != out.npos, "documentation/list", k + " is not listed"); for (auto &k : mk) c.check(out.find(k) != out.npos, "documentation/list", k + " is not listed"); for (auto &k : sk) c.check(out.find(k) != out.npos, "documentation/list", k + " is not listed"); return; }
  SmartPointer<SmartPointee> keep; Object *o = NULL; std::string cl; SmartPointer<Astrobj::Generic> ao; SmartPointer<Metric::Generic> mo; SmartPointer<Spectrum::Generic> so; SmartPointer<Screen> co; SmartPointer<Scenery> sco; switch (g.below(5)) { case 0: { std::string k = g.pick(ak); ao = gy::astrobj(k); o = (Object *)(Astrobj::Generic *)ao; cl = "Astrobj::" + k; break; } case 1: { std::string k = g.pick(mk); mo = gy::metric(k); o = (Object *)(Metric::Generic *)mo; cl = "Metric::" + k; break; } case 2: { std::string k = g.pick(sk); so = gy::spectrum(k); o = (Object *)(Spectrum::Generic *)so; cl = "Spectrum::" + k; break; } case 3: co = new Screen(); o = (Object *)(Screen *)co; cl = "Screen"; break; default: sco = new Scenery(); o = (Object *)(Scenery *)sco; cl = "Scenery"; }
  c.note << cl; c.label("class"); int st = run(d.p, {g.flip() ? "--help=" + cl : "-h" + cl}, &out); c.check(st == 0, "documentation/status", "--help=" + cl + " ends with status " + std::to_string(st)); Property const *p = o->getProperties(); while (p) { if (*p) { c.check(out.find(p->name) != out.npos, "documentation/property", "setting " + p->name + " of " + cl + " is not documented"); ++p; } else p = p->parent; }
}
GY_MAIN
