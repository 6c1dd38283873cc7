// D01: tabulated data. What a user stores in a table (set through the API or read from a FITS file) is what the model
// gives back at the nodes, linear in between (nearest cell where documented), whatever the order of the settings, after
// a round trip through a FITS file, and in a copy.
#include "metgen.h"
#include "GyotoPatternDisk.h"
#include "GyotoPatternDiskBB.h"
#include "GyotoDynamicalDisk.h"
#include "GyotoDirectionalDisk.h"
#include "GyotoDisk3D.h"
#include "GyotoGridData2D.h"
#include "GyotoStandardAstrobj.h"
#include "GyotoFixedStar.h"
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
using namespace Gyoto; using mg::M; typedef std::vector<double> V;
static std::string scratch() { char const *s = getenv("GYOTO_VERIF_SCRATCH"); return std::string(s ? s : "/tmp") + "/d01-" + std::to_string(getpid()); }
struct Dir { std::string p; Dir(std::string q) : p(q) { mkdir(p.c_str(), 0700); } ~Dir() { if (system(("rm -rf '" + p + "'").c_str())) {} } };
static V table(pbt::Gen &g, size_t n, double lo = 0.5, double hi = 2) { V t(n); for (auto &x : t) x = g.uni(lo, hi); return t; }
static V axis(pbt::Gen &g, size_t n, double lo, double hi, bool lin) { V x(n); if (n == 1) { x[0] = lo; return x; } if (lin) { for (size_t i = 0; i < n; ++i) x[i] = lo + (hi - lo)*i/(n - 1); x[n-1] = hi; return x; } double s = 0; for (size_t i = 0; i < n; ++i) { x[i] = s; s += g.uni(0.2, 1); } double l = x[n-1]; for (auto &y : x) y = lo + (hi - lo)*y/l; x[n-1] = hi; return x; }
static double at(pbt::Gen &g, V const &x, bool &node) { node = false; size_t n = x.size(); switch (g.below(8)) { case 0: node = true; return x[g.below(n)]; case 1: node = true; return x[n-1]; case 2: node = true; return x[0]; case 3: if (n > 1) { node = true; double v = x[g.below(n)]; v += (g.flip() ? 1 : -1)*1e-15*std::fabs(v); return std::min(std::max(v, x[0]), x[n-1]); } default: return n > 1 ? g.uni(x[0], x[n-1]) : x[0]; } }
// cell and weight on an increasing axis, inside it
static void cell(V const &x, double q, size_t &i, double &w) { i = 0; w = 0; if (x.size() < 2) return; while (i + 2 < x.size() && q > x[i+1]) ++i; w = (q - x[i])/(x[i+1] - x[i]); }

static double bbody(double nu, double T) { SmartPointer<Spectrum::Generic> s = gy::spectrum("BlackBody"); s->set("Temperature", T); return (*s)(nu); }
static SmartPointer<Metric::Generic> met(pbt::Gen &g, bool sph, std::string &d) {
  switch (g.below(sph ? 2 : 3)) { case 0: { auto m = gy::metric("KerrBL"); double a = mg::spin(g); m->set("Spin", a); d = "KerrBL " + gy::num(a); return m; } case 1: { auto m = gy::metric("Minkowski"); m->set("Spherical", true); d = "MinkowskiSph"; return m; } default: d = "Minkowski"; return gy::metric("Minkowski"); } }
static void place(SmartPointer<Metric::Generic> m, double t, double r, double phi, double *p) { p[0] = t; if (m->coordKind() == GYOTO_COORDKIND_SPHERICAL) { p[1] = r; p[2] = M_PI/2; p[3] = phi; } else { p[1] = r*cos(phi); p[2] = r*sin(phi); p[3] = 0; } }
// tangent of the motion (dr/dt, dtheta/dt, dphi/dt) from the line element
static bool unit(SmartPointer<Metric::Generic> m, const double *p, double a, double b, double cc, double *u) { double g[4][4]; m->gmunu(g, p); double v[4] = {1, a, b, cc}, s = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) s += g[i][j]*v[i]*v[j]; if (s >= -1e-3) return false; for (int i = 0; i < 4; ++i) u[i] = v[i]/sqrt(-s); return true; }

PBT_SUB(ndinterp, 60000, 1500000, "array of 1-4 dimensions (lengths 1-5), axes given or evenly spaced, boundary condition of each axis, query on nodes, inside or outside; non-trivial: at least two dimensions or a query outside") {
  SmartPointer<Astrobj::Generic> o = new Astrobj::FixedStar(); int N = g.range(1, 4); bool given = g.flip(); std::vector<V> X(N); std::vector<std::string> cond(N); std::vector<int> len(N); V q(N); bool out = false, err = false, null = false; size_t tot = 1; c.label(given ? "axes" : "linear");
  for (int d = 0; d < N; ++d) { len[d] = g.chance(1, 8) ? 1 : g.range(2, 5); tot *= len[d]; double lo = g.flip() ? 0 : g.uni(-3, 5), hi = lo + g.logu(0.1, 10); X[d] = axis(g, len[d], lo, hi, !given); cond[d] = g.pick(std::vector<std::string>{"None", "Constant", "Linear", "Periodic", "Null"}); if (len[d] == 1 && (cond[d] == "Linear" || cond[d] == "Periodic")) cond[d] = "Constant"; bool nd; q[d] = at(g, X[d], nd);
    if (len[d] > 1 && g.chance(1, 3)) { double L = hi - lo; q[d] = g.flip() ? hi + L*g.uni(0.01, 2.5) : lo - L*g.uni(0.01, 2.5); out = true; c.label("out " + cond[d]); if (cond[d] == "None") err = true; if (cond[d] == "Null") null = true; }
    c.note << " [" << len[d] << " " << cond[d] << " " << X[d][0] << ".." << X[d].back() << " q " << q[d] << "]"; }
  V A = table(g, tot, -1, 1); if (N > 1 || out) c.nontrivial = true;
  std::vector<double *> px(N); std::vector<V> par(N); V qq = q; for (int d = 0; d < N; ++d) { par[d] = {X[d][0], X[d].back(), double(len[d])}; px[d] = given ? X[d].data() : par[d].data(); }
  double got = 0; bool thrown = gy::throws([&] { got = given ? o->interpolate(N, A.data(), qq.data(), px.data(), len.data(), cond.data()) : o->interpolate(N, A.data(), qq.data(), px.data(), cond.data()); });
  c.check(thrown == err, "ndinterp/none", std::string("query outside an axis with condition None: ") + (thrown ? "refused although inside" : "accepted")); if (thrown || err) return;
  if (null) { c.check(got == 0, "ndinterp/null", "value outside an axis with condition Null: " + gy::num(got)); return; }
  std::vector<size_t> ci(N); V w(N); for (int d = 0; d < N; ++d) { double x = q[d], lo = X[d][0], hi = X[d].back(); if (len[d] > 1 && (x < lo || x > hi)) { if (cond[d] == "Constant") x = x < lo ? lo : hi; else if (cond[d] == "Periodic") { double P = hi - lo; x -= P*std::floor((x - lo)/P); if (x < lo) x = lo; if (x > hi) x = hi; } } cell(X[d], x, ci[d], w[d]); }
  double want = 0, mag = 0; for (int b = 0; b < (1 << N); ++b) { double f = 1; size_t k = 0; bool skip = false; for (int d = 0; d < N; ++d) { bool up = b >> d & 1; if (len[d] == 1 && up) { skip = true; break; } f *= up ? w[d] : 1 - w[d]; k = k*len[d] + ci[d] + up; } if (skip) continue; want += f*A[k]; mag += std::fabs(f); }
  c.close(got, want, 0, 1e-9*(1 + mag), std::string("ndinterp/") + (given ? "axes" : "linear") + (out ? "/out" : "/in"), "interpolated value");
}

static bool same(double a, double b) { return std::fabs(a - b) <= 1e-13*(std::fabs(a) + 1); } // keywords hold 15 digits
struct PM { size_t np, nr; V I, op, vel, R, lin; double rin = 0, rout = 0, Om = 0, pmin = 0, pmax = 2*M_PI; size_t rep = 1; bool rad = false; };
static double bil(PM const &m, V const &A, size_t off, double r, double phi0, size_t *iu = nullptr, bool *edge = nullptr) {
  V const &x = m.rad ? m.R : m.lin; size_t ir; double wr; cell(x, r, ir, wr); if (iu) iu[1] = ir + 1; double tol = 1e-9; if (edge) *edge = wr < tol || wr > 1 - tol;
  if (m.np == 1) { if (iu) iu[0] = 0; return A[off + ir]*(1 - wr) + A[off + ir + 1]*wr; }
  double phi = fmod(phi0, 2*M_PI); if (phi < 0) phi += 2*M_PI; size_t il, ih; double w; double d = (m.pmax - m.pmin)/((m.np - 1)*m.rep);
  if (m.rep > 1) { double P = (m.pmax - m.pmin)/m.rep; phi = m.pmin + fmod(fmod(phi - m.pmin, P) + P, P); }
  if (m.rep == 1 && (phi < m.pmin || phi > m.pmax)) { if (phi < m.pmin) phi += 2*M_PI; il = m.np - 1; ih = 0; w = (phi - m.pmax)/(m.pmin + 2*M_PI - m.pmax); } else { double f = (phi - m.pmin)/d; il = std::min(size_t(f), m.np - 2); ih = il + 1; w = f - il; }
  if (edge && (w < tol || w > 1 - tol)) *edge = true; if (iu) iu[0] = ih;
  auto v = [&](size_t p, size_t q) { return A[off + p*m.nr + q]; }; return (v(il, ir)*(1 - wr) + v(il, ir + 1)*wr)*(1 - w) + (v(ih, ir)*(1 - wr) + v(ih, ir + 1)*wr)*w;
}
// on a closed circle the first and last azimuth are the same place
static void seam(PM &m) { if (m.np > 1 && (m.rep > 1 || m.pmax - m.pmin > 6.28)) for (size_t k = 0; k < m.nr; ++k) { size_t l = (m.np - 1)*m.nr + k, n = m.np*m.nr; m.I[l] = m.I[k]; if (m.vel.size()) { m.vel[l] = m.vel[k]; m.vel[n + l] = m.vel[n + k]; } } }
static PM genpat(pbt::Gen &g, bool vel, bool kerr) {
  PM m; m.np = g.chance(1, 5) ? 1 : g.range(2, 6); m.nr = g.range(2, 6); m.I = table(g, m.np*m.nr); m.rin = kerr ? g.uni(7, 9) : g.uni(1, 9); m.rout = m.rin + g.uni(1, 10);
  m.rad = g.flip(); m.R = axis(g, m.nr, m.rin, m.rout, false); m.Om = g.flip() ? 0 : g.uni(-0.3, 0.3);
  if (g.chance(1, 3)) { m.rep = g.range(2, 4); if (g.flip()) { m.pmin = g.uni(0, 1); m.pmax = m.pmin + 2*M_PI; } } else if (g.flip()) { m.pmin = g.uni(0, 2); m.pmax = g.uni(m.pmin + 1, 6.2); }
  if (vel) m.vel = table(g, 2*m.np*m.nr, -0.02, 0.02);
  seam(m); return m;
}
// give the settings of the model to the object, in a random legal order
static void fill(pbt::Gen &g, Astrobj::PatternDisk *o, PM const &m, std::ostringstream &n) {
  size_t ax[3] = {1, m.np, m.nr}, a2[2] = {m.np, m.nr}; std::vector<int> before = {0, 1, 2, 3, 4}, after; for (size_t i = before.size(); i > 1; --i) std::swap(before[i-1], before[g.below(i)]); size_t nb = g.range(0, 5); after.assign(before.begin() + nb, before.end()); before.resize(nb); n << " before:";
  auto set = [&](int k) { n << k; switch (k) { case 0: o->innerRadius(m.rin); break; case 1: o->outerRadius(m.rout); break; case 2: o->phimin(m.pmin); break; case 3: o->phimax(m.pmax); break; case 4: o->repeatPhi(m.rep); break; } };
  for (int k : before) set(k);
  if (g.chance(1, 4)) { size_t bx[3] = {1, size_t(g.range(1, 5)), size_t(g.range(2, 5))}; V J = table(g, bx[1]*bx[2]); o->copyIntensity(J.data(), bx); n << " other" << bx[1] << "x" << bx[2]; size_t b2[2] = {bx[1], bx[2]}; if (g.flip()) { V W = table(g, 2*bx[1]*bx[2]); o->copyVelocity(W.data(), b2); } if (g.flip()) { V W = table(g, bx[1]*bx[2]); o->copyOpacity(W.data(), bx); o->copyOpacity(nullptr, bx); } if (!m.vel.size()) o->copyVelocity(nullptr, b2); }
  o->copyIntensity(m.I.data(), ax); n << " after:"; int kk = 0; std::vector<int> rest = {10, 11, 12}; for (size_t i = 3; i > 1; --i) std::swap(rest[i-1], rest[g.below(i)]);
  for (int k : rest) { if (k == 10 && m.op.size()) o->copyOpacity(m.op.data(), ax); if (k == 11 && m.vel.size()) o->copyVelocity(m.vel.data(), a2); if (k == 12) { if (m.rad) o->copyGridRadius(m.R.data(), m.nr); else if (o->getGridRadius()) o->copyGridRadius(nullptr, 0); } (void)kk; }
  for (int k : after) set(k); if (m.rad) { o->innerRadius(m.rin); o->outerRadius(m.rout); } o->patternVelocity(m.Om);
}

PBT_SUB(pattern, 30000, 600000, "table of intensity (temperature), opacity, velocity and radii of any shape, limits in azimuth and repetition, settings in any order, table replaced, written to a file and read in a fresh or used object, copied; queries on nodes, edges and in between; non-trivial: at least two azimuths, between nodes") {
  std::string d; bool bb = g.chance(1, 4), thin = !bb && g.flip(), vel = g.flip(); auto gg = met(g, vel, d); PM m = genpat(g, vel, d[0] == 'K'); m.lin = axis(g, m.nr, m.rin, m.rout, true); if (thin) m.op = table(g, m.np*m.nr, 0.01, 2);
  c.note << d << (bb ? " BB" : "") << " np " << m.np << " nr " << m.nr << " r " << m.rin << ".." << m.rout << (m.rad ? " radii" : "") << " phi " << m.pmin << ".." << m.pmax << " rep " << m.rep << " Om " << m.Om << (thin ? " thin" : "") << (vel ? " vel" : "");
  bool spec = bb && g.flip(); if (spec) { for (auto &x : m.I) x *= 1e4; c.label("black body"); }
  auto mk = [&]() -> SmartPointer<Astrobj::PatternDisk> { SmartPointer<Astrobj::PatternDisk> p; if (bb) p = new Astrobj::PatternDiskBB(); else p = new Astrobj::PatternDisk(); p->metric(gg); if (bb) p->set("SpectralEmission", spec); return p; };
  bool file = false; auto o = mk(); std::ostringstream n; fill(g, (Astrobj::PatternDisk *)o, m, n); c.note << n.str(); if (thin) { c.check(o->opticallyThin(), "pattern/thin", "a disk given an opacity is transparent"); } else o->opticallyThin(false);
  if (g.chance(1, 4)) { Dir dir(scratch()); file = true; c.label("file"); o->fitsWrite("!" + dir.p + "/p.fits"); auto q = mk(); if (g.flip()) { std::ostringstream n2; PM m2 = genpat(g, vel, true); m2.Om = m.Om; m2.rad = true; fill(g, (Astrobj::PatternDisk *)q, m2, n2); c.label("used object"); q->innerRadius(0); q->outerRadius(DBL_MAX); q->repeatPhi(1); }
    q->file(dir.p + "/p.fits"); q->opticallyThin(thin); o = q;
    size_t ax[3]; o->getIntensityNaxes(ax); c.check(ax[0] == 1 && ax[1] == m.np && ax[2] == m.nr && !memcmp(o->getIntensity(), m.I.data(), 8*m.I.size()), "pattern/file/intensity", "intensity table read back"); c.check(bool(o->opacity()) == thin && bool(o->getVelocity()) == vel && bool(o->getGridRadius()) == m.rad, "pattern/file/present", "tables present in the file"); }
  if (g.chance(1, 4)) { c.label("copy"); SmartPointer<Astrobj::PatternDisk> k = o->clone(); o = k; }
  bool nr_, np_; V const &x = m.rad ? m.R : m.lin; double r = at(g, x, nr_); if (g.chance(1, 10)) { r = g.flip() ? m.rin*g.uni(0.5, 0.999) : m.rout*g.uni(1.001, 2); c.label("outside"); } V ph(m.np); for (size_t i = 0; i < m.np; ++i) ph[i] = m.np > 1 ? m.pmin + (m.pmax - m.pmin)*i/((m.np - 1)*m.rep) : 0; double phi = g.flip() ? g.uni(0, 2*M_PI) : at(g, ph, np_); if (g.chance(1, 12)) phi = -1e-17; if (g.chance(1, 12)) phi = 2*M_PI; if (g.chance(1, 8)) phi -= 2*M_PI; double t = m.Om != 0 ? g.uni(-50, 50) : g.uni(-1e3, 1e3);
  if (file || gg->coordKind() != GYOTO_COORDKIND_SPHERICAL) { // limits are kept with 15 digits in the file; the radius is computed from the coordinates: keep away from the limits
    if (std::fabs(r/x[0] - 1) < 1e-9 || std::fabs(r/x.back() - 1) < 1e-9) r = 0.5*(x[0] + x.back()); }
  double co[8] = {0}; place(gg, t, r, phi, co); double q = phi - m.Om*t; c.note << " | r " << gy::num(r) << " phi " << gy::num(phi) << " t " << gy::num(t); size_t iu[2]; bool edge, in = r >= x[0] && r <= x.back(); double I = in ? bil(m, m.I, 0, r, q, iu, &edge) : 0; if (in && m.np > 1 && !edge) c.nontrivial = true;
  double nu = g.logu(1e12, 1e16), ds = g.logu(0.1, 10); if (spec && in) I = bbody(nu, I);
  state_t cp(8, 0.); double got = o->emission(nu, ds, cp, co), f = 1;
  if (thin && in && !edge) { double tau = m.op[iu[0]*m.nr + iu[1]]*ds; f = -expm1(-tau); c.close(o->transmission(nu, ds, cp, co), exp(-tau), 1e-12, 1e-300, "pattern/transmission", "transmission of the cell"); }
  if (!(thin && in && edge)) c.close(got, I*f, spec ? 1e-6 : 1e-8, 1e-300, std::string("pattern/emission/") + (m.np == 1 ? "axisymmetric" : m.rep > 1 ? "repeated" : "azimuth") + (m.rad ? "/radii" : "/linear"), "emission");
  if (!thin) c.check(o->transmission(nu, ds, cp, co) == 0, "pattern/opaque", "transmission of an opaque disk");
  if (vel && in) { double a = bil(m, m.vel, 0, r, q), b = bil(m, m.vel, m.np*m.nr, r, q), u[4], v[4]; if (unit(gg, co, a, 0, b, u)) { o->getVelocity(co, v); for (int i = 0; i < 4; ++i) c.close(v[i], u[i], 1e-8, 1e-10, "pattern/velocity", "component " + std::to_string(i)); c.label("velocity"); } }
}

PBT_SUB(dynamic, 1200, 20000, "series of 1-5 dated tables in a directory, date before, between or after them, object or copy; non-trivial: date between two tables") {
  std::string d; auto gg = met(g, true, d); PM m0 = genpat(g, true, true); m0.rad = true; size_t nt = g.range(1, 5); std::vector<PM> T; double t0 = g.uni(-20, 20), dt = g.logu(0.1, 10); bool spec = g.flip(); c.note << d << " nt " << nt << " np " << m0.np << " nr " << m0.nr << " tinit " << t0 << " dt " << dt;
  Dir dir(scratch()); SmartPointer<Astrobj::DynamicalDisk> o = new Astrobj::DynamicalDisk(); o->metric(gg);
  for (size_t k = 0; k < nt; ++k) { PM m = m0; m.I = table(g, m.np*m.nr); if (spec) for (auto &x : m.I) x *= 1e4; m.vel = table(g, 2*m.np*m.nr, -0.02, 0.02); seam(m); T.push_back(m); Astrobj::PatternDisk p; std::ostringstream n; fill(g, &p, m, n); char b[40]; snprintf(b, 40, "/data%04d.fits.gz", int(k + 1)); p.fitsWrite(dir.p + b); }
  o->set("tinit", t0); o->set("dt", dt); o->file(dir.p + "/"); o->set("SpectralEmission", spec); o->opticallyThin(false); if (g.chance(1, 3)) { o->file(dir.p + "/"); c.label("twice"); } if (g.flip()) { c.label("copy"); SmartPointer<Astrobj::DynamicalDisk> k = o->clone(); o = k; }
  for (int rep = 0; rep < 6; ++rep) { double t; size_t k = 0; double w = 0; int what = g.below(3); if (what == 0) { t = t0 - g.uni(0.01, 50); } else if (what == 1 || nt < 3) { t = t0 + dt*(nt - 1) + g.uni(0.01, 50); k = nt - 1; } else { k = g.below(nt - 2); w = g.uni(0.001, 0.999); t = t0 + dt*(k + w); c.nontrivial = true; }
    double r = g.uni(m0.rin, m0.rout), phi = g.uni(0, 2*M_PI), co[8] = {0}; place(gg, t, r, phi, co); double nu = g.logu(1e12, 1e16), q = phi - m0.Om*t; auto em = [&](PM const &m) { double I = bil(m, m.I, 0, r, q); return spec ? bbody(nu, I) : I; };
    double want = em(T[k]); if (w > 0) want += w*(em(T[k+1]) - want); state_t cp(8, 0.); c.note << " | t " << gy::num(t); c.close(o->emission(nu, 1, cp, co), want, spec ? 1e-6 : 1e-8, 1e-300, "dynamic/emission", "emission at a date");
    double u0[4], u1[4], v[4]; auto vv = [&](PM const &m, double *u) { return unit(gg, co, bil(m, m.vel, 0, r, q), 0, bil(m, m.vel, m.np*m.nr, r, q), u); }; if (!vv(T[k], u0)) continue; if (w > 0) { if (!vv(T[k+1], u1)) continue; for (int i = 0; i < 4; ++i) u0[i] += w*(u1[i] - u0[i]); } o->getVelocity(co, v); for (int i = 0; i < 4; ++i) c.close(v[i], u0[i], 1e-8, 1e-10, "dynamic/velocity", "component " + std::to_string(i)); }
}

PBT_SUB(directional, 6000, 150000, "table of intensity against frequency, inclination and radius, lamp cut-offs, averaged over angles or not, set or read from a file, copy; photon in any direction; non-trivial: between the nodes of the three axes") {
  SmartPointer<Metric::KerrBL> gg = new Metric::KerrBL(); double a = g.uni(0, 0.95); gg->spin(a); SmartPointer<Astrobj::DirectionalDisk> o = new Astrobj::DirectionalDisk(); o->metric(gg); size_t nn = g.range(2, 5), ni = g.range(2, 5), nr = g.range(2, 5), ax[3] = {nn, ni, nr}; V A = table(g, nn*ni*nr); double f0 = g.logu(1e14, 1e18), f1 = f0*g.uni(3, 30);
  V F = axis(g, nn, f0, f1, false), FD(F.rbegin(), F.rend()), C = axis(g, ni, g.uni(0.02, 0.3), g.uni(0.6, 0.99), false), R = axis(g, nr, g.uni(7, 9), g.uni(12, 30), false); bool avg = g.chance(1, 3), file = g.chance(1, 3); double z = g.uni(3, 30);
  c.note << "a " << a << " n " << nn << "x" << ni << "x" << nr << " f " << f0 << ".." << f1 << " lamp " << z << (avg ? " avg" : "") << (file ? " file" : ""); o->copyIntensity(A.data(), ax); o->copyGridRadius(R.data(), nr); o->copyGridCosi(C.data(), ni); o->copyGridFreq(FD.data(), nn);
  if (file) { Dir dir(scratch()); o->fitsWrite("!" + dir.p + "/d.fits"); o = new Astrobj::DirectionalDisk(); o->metric(gg); o->file(dir.p + "/d.fits"); c.label("file"); } o->set("AverageOverAngle", avg); o->lampaltitude(z); o->outerRadius(1e3);
  double r = g.uni(R[0], R.back()); if (g.chance(1, 10)) r = g.flip() ? R[0]*g.uni(0.9, 0.999) : R.back()*g.uni(1.001, 1.5); double gl = (pow(r, 1.5) + a)/sqrt(r*r*r + 2*a*pow(r, 1.5) - 3*r*r)*sqrt((z*z + a*a - 2*z)/(z*z + a*a));
  double lo = f0*g.uni(1.001, 1.5), hi = f1*g.uni(0.6, 0.999); bool bad = file && g.chance(1, 12); if (bad) { if (g.flip()) lo = f0*g.uni(0.5, 0.99); else hi = f1*g.uni(1.01, 2); } double eV = GYOTO_eV2Hz; o->lampcutoffsinev(V{lo/gl/eV, hi/gl/eV}); if (g.chance(1, 3)) { SmartPointer<Astrobj::DirectionalDisk> k = o->clone(); o = k; c.label("copy"); }
  double co[8] = {g.uni(-9, 9), r, M_PI/2, g.uni(0, 2*M_PI)}; gg->circularVelocity(co, co + 4); double G[4][4]; gg->gmunu(G, co); double k[4] = {0, g.uni(-1, 1), g.uni(-1, 1)/r, g.uni(-1, 1)/r}; double B = 0, Cc = 0; for (int i = 1; i < 4; ++i) { B += G[0][i]*k[i]; for (int j = 1; j < 4; ++j) Cc += G[i][j]*k[i]*k[j]; } k[0] = (-B - sqrt(B*B - G[0][0]*Cc))/G[0][0]; state_t cp(8); for (int i = 0; i < 4; ++i) { cp[i] = co[i]; cp[4+i] = k[i]; }
  double up = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) up += G[i][j]*co[4+i]*k[j]; double mu = std::fabs(sqrt(G[2][2])*k[2]/up), nu = g.uni(f0, f1); if (g.chance(1, 8)) nu = g.flip() ? f0*g.uni(0.3, 0.99) : f1*g.uni(1.01, 2);
  c.note << " | r " << gy::num(r) << " mu " << gy::num(mu) << " nu " << gy::num(nu); if (std::fabs(nu/lo - 1) < 1e-6 || std::fabs(nu/hi - 1) < 1e-6) throw pbt::Discard();
  double got = 0; bool thrown = gy::throws([&] { got = o->emission(nu, 1, cp, co); }); c.check(thrown == bad, "directional/range", bad ? "cut-offs beyond the table accepted" : "emission refused"); if (thrown) return; double want = 0;
  if (nu > lo && nu < hi && r > R[0] && r < R.back()) { size_t in, ii, ir; double wn, wi, wr; cell(F, nu, in, wn); cell(R, r, ir, wr); double m = std::min(std::max(mu, C[0]), C.back()); cell(C, m, ii, wi); auto v = [&](size_t n, size_t i, size_t q) { return A[q*ni*nn + i*nn + (nn - 1 - n)]; }; if (m == mu && !avg) c.nontrivial = true;
    for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) { double w = (x ? wn : 1 - wn)*(y ? wr : 1 - wr), s = 0; if (avg) { for (size_t i = 0; i + 1 < ni; ++i) s += 0.5*(C[i+1] - C[i])*(v(in + x, i, ir + y) + v(in + x, i + 1, ir + y)); s /= C.back() - C[0]; } else s = v(in + x, ii, ir + y)*(1 - wi) + v(in + x, ii + 1, ir + y)*wi; want += w*s; } }
  c.close(got, want, 1e-8, 1e-300, avg ? "directional/average" : "directional/emission", "emission");
}

PBT_SUB(disk3d, 8000, 200000, "tables on a cylindrical grid, limits set in any order, rotating pattern, repetition, file, copy; velocity of the nearest cell; non-trivial: the place is off the node of its cell") {
  std::string d; auto gg = met(g, true, d); size_t nn = g.range(1, 3), np = g.range(2, 6), nz = g.range(2, 4), nr = g.range(2, 5), ax[4] = {nn, np, nz, nr}, a3[3] = {np, nz, nr}; V A = table(g, nn*np*nz*nr), O = table(g, nn*np*nz*nr), W = table(g, 3*np*nz*nr, -0.05, 0.05); for (size_t i = 0; i < W.size(); i += 3) W[i] *= 0.1; bool op = g.flip();
  double rin = g.uni(7, 9), rout = rin + g.uni(1, 10), zmin = g.flip() ? 0 : -g.uni(0.5, 3), zmax = g.uni(0.5, 3), pmin = 0, pmax = 2*M_PI, Om = g.flip() ? 0 : g.uni(-0.3, 0.3), tp = g.uni(-5, 5); size_t rp = g.chance(1, 3) ? g.range(2, 4) : 1; if (rp == 1 && g.flip()) { pmin = g.uni(0, 2); pmax = g.uni(pmin + 1, 2*M_PI); }
  c.note << d << " n " << nn << "x" << np << "x" << nz << "x" << nr << " r " << rin << ".." << rout << " z " << zmin << ".." << zmax << " phi " << pmin << ".." << pmax << " rep " << rp << " Om " << Om; SmartPointer<Astrobj::Disk3D> o = new Astrobj::Disk3D(); o->metric(gg); std::vector<int> ord = {0, 1, 2, 3, 4, 5, 6, 7}; for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i-1], ord[g.below(i)]);
  if (g.chance(1, 4)) { size_t bx[4] = {nn, size_t(g.range(2, 5)), nz, size_t(g.range(2, 5))}; V J = table(g, bx[0]*bx[1]*bx[2]*bx[3]); o->copyEmissquant(J.data(), bx); V K = J; o->copyOpacity(K.data(), bx); if (!op) o->copyOpacity(nullptr, bx); c.label("replaced"); }
  for (int k : ord) switch (k) { case 0: o->rin(rin); break; case 1: o->rout(rout); break; case 2: o->zmin(zmin); break; case 3: o->zmax(zmax); break; case 4: o->phimin(pmin); break; case 5: o->phimax(pmax); break; case 6: o->repeatPhi(rp); break; case 7: o->copyEmissquant(A.data(), ax); break; }
  o->copyVelocity(W.data(), a3); if (op) o->copyOpacity(O.data(), ax); o->set("omegaPattern", Om); o->set("tPattern", tp);
  if (g.chance(1, 3)) { Dir dir(scratch()); c.label("file"); o->nu0(3e9); o->dnu(2e8); o->fitsWrite("!" + dir.p + "/e.fits"); o = new Astrobj::Disk3D(); o->metric(gg); o->file(dir.p + "/e.fits"); o->set("omegaPattern", Om); o->set("tPattern", tp); c.check(o->nu0() == 3e9 && o->dnu() == 2e8 && o->repeatPhi() == rp && same(o->rin(), rin) && same(o->rout(), rout) && same(o->zmin(), zmin) && same(o->zmax(), zmax) && same(o->phimin(), pmin) && same(o->phimax(), pmax), "disk3d/file/keys", "limits and frequencies read back"); }
  if (g.chance(1, 3)) { c.label("copy"); SmartPointer<Astrobj::Disk3D> k = o->clone(); o = k; }
  size_t bx[4]; o->getEmissquantNaxes(bx); c.check(!memcmp(ax, bx, sizeof ax) && !memcmp(o->getEmissquant(), A.data(), 8*A.size()) && !memcmp(o->getVelocity(), W.data(), 8*W.size()), "disk3d/tables", "tables given back"); c.check(bool(o->opacity()) == op && (!op || !memcmp(o->opacity(), O.data(), 8*O.size())), "disk3d/opacity", "opacity given back");
  double r = g.uni(rin, rout), z = g.uni(zmin, zmax), phi = g.uni(0, 2*M_PI), t = g.uni(-30, 30); double fr = (r - rin)/(rout - rin)*(nr - 1), fz = (z - zmin)/(zmax - zmin)*(nz - 1); double q = fmod(phi - Om*(t - tp), 2*M_PI); if (q < 0) q += 2*M_PI; size_t ip; double fp = 0; if (q < pmin) ip = 0; else if (q > pmax) ip = np - 1; else { fp = (q - pmin)/(pmax - pmin)*(np - 1)*rp; ip = size_t(floor(fp + 0.5)); if (rp > 1) ip %= np - 1; }
  auto tie = [](double f) { return std::fabs(f - floor(f) - 0.5) < 1e-6; }; if (tie(fr) || tie(fz) || tie(fp)) throw pbt::Discard(); c.nontrivial = true; size_t ir = size_t(floor(fr + 0.5)), iz = size_t(floor(fz + 0.5)); double *w = &W[((ir*nz + iz)*np + ip)*3];
  if (rp > 1 && ip == 0 && memcmp(w, &W[((ir*nz + iz)*np + np - 1)*3], 24)) { c.label("seam"); return; } // first and last point of the period are the same place
  double R = sqrt(r*r + z*z), p[4] = {t, R, acos(z/R), phi}, u[4], v[4], rd = (r*w[2] + z*w[1])/R, td = (z*rd/R - w[1])/r; c.note << " | r " << gy::num(r) << " z " << gy::num(z) << " phi " << gy::num(phi) << " t " << gy::num(t); if (!unit(gg, p, rd, td, w[0], u)) throw pbt::Discard();
  o->getVelocity(p, v); for (int i = 0; i < 4; ++i) c.close(v[i], u[i], 1e-8, 1e-10, "disk3d/velocity", "component " + std::to_string(i));
}

struct Grid { size_t nt, np, nr; V T, P, R; bool dates; };
static double tri(Grid const &m, const double *A, double t, double phi, double r) {
  size_t it, ir, ip, iq; double wt, wr, wp; t = std::min(std::max(t, m.T[0]), m.T.back()); cell(m.T, t, it, wt); cell(m.R, r, ir, wr); if (phi < m.P[0] || phi > m.P.back()) { if (phi < m.P[0]) phi += 2*M_PI; ip = m.np - 1; iq = 0; wp = (phi - m.P.back())/(m.P[0] + 2*M_PI - m.P.back()); } else { cell(m.P, phi, ip, wp); iq = ip + 1; }
  double s = 0; for (int b = 0; b < 8; ++b) { double w = (b & 1 ? wt : 1 - wt)*(b & 2 ? wp : 1 - wp)*(b & 4 ? wr : 1 - wr); size_t k = it + (b & 1); if (k >= m.nt) continue; s += w*A[(k*m.np + (b & 2 ? iq : ip))*m.nr + ir + (b & 4 ? 1 : 0)]; } return s;
}
static Grid grid(pbt::Gen &g, bool dates) { Grid m; m.dates = dates; m.nt = g.chance(1, 6) ? 1 : g.range(2, 5); m.np = g.range(2, 6); m.nr = g.range(2, 5); double t0 = g.uni(-20, 20), r0 = g.uni(7, 9), p0 = g.flip() ? 0 : g.uni(0, 2); m.T = axis(g, m.nt, t0, t0 + g.uni(1, 30), !dates); m.R = axis(g, m.nr, r0, r0 + g.uni(1, 20), true); m.P = axis(g, m.np, p0, p0 ? g.uni(p0 + 1, 6.2) : g.flip() ? 2*M_PI : g.uni(3, 6.2), true); return m; }
static void limits(pbt::Gen &g, GridData2D &D, Grid const &m) { std::vector<int> o = {0, 1, 2, 3, 4, 5}; for (size_t i = 6; i > 1; --i) std::swap(o[i-1], o[g.below(i)]); D.nt(m.nt); D.nphi(m.np); D.nr(m.nr); for (int k : o) switch (k) { case 0: D.tmin(m.T[0]); break; case 1: D.tmax(m.T.back()); break; case 2: D.rmin(m.R[0]); break; case 3: D.rmax(m.R.back()); break; case 4: D.phimin(m.P[0]); break; case 5: D.phimax(m.P.back()); break; } }
static void query(pbt::Gen &g, Grid const &m, double &t, double &phi, double &r, bool &node) { bool a, b, d; r = at(g, m.R, a); phi = g.flip() ? g.uni(0, 2*M_PI) : at(g, m.P, b); t = g.chance(1, 3) ? m.T[0] - g.uni(0, 20) : g.chance(1, 4) ? m.T.back() + g.uni(0, 20) : at(g, m.T, d); node = a; }

PBT_SUB(grid2d, 40000, 800000, "table against date, azimuth and radius, dates evenly spaced or listed, limits in any order, copy; queries on nodes, limits, in between and before or after the dates; non-trivial: several dates, between the nodes") {
  bool dates = g.flip(); Grid m = grid(g, dates); GridData2D D; limits(g, D, m); V A = table(g, m.nt*m.np*m.nr); double t, phi, r; bool nd; query(g, m, t, phi, r, nd); c.label(m.nt == 1 ? "stationary" : dates ? "dates" : "even"); if (!nd && m.nt > 1 && t > m.T[0] && t < m.T.back()) c.nontrivial = true; c.note << m.nt << "x" << m.np << "x" << m.nr << " t " << m.T[0] << ".." << m.T.back() << " phi " << m.P[0] << ".." << m.P.back() << " r " << m.R[0] << ".." << m.R.back() << " | " << gy::num(t) << " " << gy::num(phi) << " " << gy::num(r);
  GridData2D E(D); c.close((g.flip() ? D : E).interpolate(t, phi, r, A.data(), dates ? m.T.data() : nullptr), tri(m, A.data(), t, phi, r), 0, 1e-8, std::string("grid2d/") + (m.nt == 1 ? "stationary" : dates ? "dates" : "even"), "interpolated value");
}

PBT_SUB(flared, 2500, 50000, "flared disk read from a file (density, velocity, optional field, dates), shifted in time, copy, read twice; non-trivial: several dates, between the nodes") {
  std::string d; auto gg = met(g, true, d); Grid m = grid(g, true); Dir dir(scratch()); GridData2D D; limits(g, D, m); size_t n = m.nt*m.np*m.nr; V W(2*n), A = table(g, n), B = table(g, 4*n); for (auto &x : W) x = g.uni(-0.02, 0.02); bool fld = g.flip(); std::string f = dir.p + "/g.fits"; fitsfile *fp = D.fitsCreate("!" + f); D.fitsWriteHDU(fp, "VELOCITY", W.data(), 2); D.fitsWriteHDU(fp, "DENSITY", A.data()); if (fld) D.fitsWriteHDU(fp, "BVECTOR", B.data(), 4); D.fitsWriteHDU(fp, "TIMEARRAY", m.T.data()); D.fitsClose(fp);
  auto o = gy::astrobj("FlaredDiskSynchrotron"); o->metric(gg); o->set("File", f); double s = 0; if (g.flip()) { o->set("TimeTranslation_inMunit", s = g.uni(-30, 30)); if (g.flip()) o->set("TimeTranslation_inMunit", s = g.uni(-30, 30)); c.label("shifted"); } if (g.chance(1, 4)) { o->set("File", f); c.label("twice"); } if (g.chance(1, 3)) { SmartPointer<Astrobj::Generic> k = o->clone(); o = k; c.label("copy"); } double hr = g.uni(0.05, 0.5); o->set("HoverR", hr);
  c.note << d << " " << m.nt << "x" << m.np << "x" << m.nr << " shift " << s; auto *st = dynamic_cast<Astrobj::Standard *>((Astrobj::Generic *)o); bool tw = false; (void)tw; Grid q = m; for (auto &x : q.T) x += s;
  for (int k = 0; k < 4; ++k) { double t, phi, r; bool nd; query(g, q, t, phi, r, nd); double z = r*hr*g.uni(-1.5, 1.5); double R = sqrt(r*r + z*z), p[4] = {t, R, acos(z/R), phi}; double rr = R*sin(p[2]); if (rr < m.R[0]*(1 + 1e-9) || rr > m.R.back()*(1 - 1e-9)) continue; c.note << " | " << gy::num(t) << " " << gy::num(phi) << " " << gy::num(r); if (!nd && m.nt > 1 && t > q.T[0] && t < q.T.back()) c.nontrivial = true;
    c.close((*st)(p), std::fabs(z) - r*hr, 1e-9, 1e-9*r, "flared/shape", "height above the surface"); double u[4], v[4]; if (!unit(gg, p, tri(q, W.data(), t, phi, rr), 0, tri(q, W.data() + n, t, phi, rr), u)) continue; st->getVelocity(p, v); for (int i = 0; i < 4; ++i) c.close(v[i], u[i], 1e-8, 1e-9, "flared/velocity", "component " + std::to_string(i)); }
}
GY_MAIN
