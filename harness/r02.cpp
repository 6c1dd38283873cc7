// R02: radiative transfer: from emission, absorption and redshift of the hits to the
// quantities of the pixel, polarised or not.
#include "scn.h"
#include <array>
#include "GyotoUniformSpectrometer.h"
#include "GyotoMinkowski.h"
#include "GyotoKerrBL.h"
#include "GyotoFixedStar.h"
#include "GyotoPageThorneDisk.h"
#include "GyotoStandardAstrobj.h"
#include "GyotoPowerLawSpectrum.h"
#include "GyotoComplexAstrobj.h"
#include "GyotoBlackBodySpectrum.h"
#include <Eigen/Dense>
using namespace Gyoto; using Eigen::Matrix4d; using Eigen::Vector4d;
typedef std::vector<double> V; typedef long double LD;
struct M4 { LD a[4][4]; };
static M4 mul(M4 const &x, M4 const &y) { M4 r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { r.a[i][j] = 0; for (int k = 0; k < 4; ++k) r.a[i][j] += x.a[i][k]*y.a[k][j]; } return r; }
static M4 eye() { M4 r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.a[i][j] = i == j; return r; }
static LD nrm(M4 const &x) { LD s = 0; for (auto &r : x.a) for (LD v : r) s = std::max(s, fabsl(v)); return s; }
// exp(-K s) and its integral over 0..s, by scaling and doubling of the Taylor series
static void expint(M4 K, LD s, M4 &O, M4 &P) {
  int n = 0; LD h = s; while (nrm(K)*4*h > 0.01L) { h /= 2; ++n; }
  M4 t = eye(); O = eye(); for (auto &r : P.a) for (LD &v : r) v = 0; LD f = 1;
  for (int k = 0; k < 14; ++k) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { if (k) O.a[i][j] += t.a[i][j]*f; P.a[i][j] += t.a[i][j]*f*h/(k + 1); } t = mul(t, K); f *= -h/(k + 1); }
  for (; n--;) { M4 q = mul(O, P); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) P.a[i][j] += q.a[i][j]; O = mul(O, O); }
}
static M4 kmat(LD aI, LD aQ, LD aU, LD aV, LD rQ, LD rU, LD rV, LD s2, LD c2) {
  LD q = aQ*c2 - aU*s2, u = aU*c2 + aQ*s2, p = rQ*c2 - rU*s2, w = rU*c2 + rQ*s2;
  return M4{{{aI, q, u, aV}, {q, aI, rV, -w}, {u, -rV, aI, p}, {aV, w, -p, aI}}};
}
// An object that provides its emission and transmission through any subset of the methods made for that
enum { ES = 1, EV = 2, TR = 4, RQ = 8, RP = 16 };
struct Mock : Astrobj::Generic {
  int m; double A, p, ka, q; double pol[3]; int calls = 0;
  Mock(int mm) : Generic("Mock"), m(mm) {}
  Mock(Mock const &o) = default;
  Mock *clone() const override { return new Mock(*this); }
  int Impact(Photon *, size_t, Astrobj::Properties *) override { return 0; }
  // emission of a layer of thickness ds (depends on frequency, thickness, both sets of coordinates)
  double E(double nu, double ds, state_t const &cp, double const *co) const { return A*pow(nu, p)*(flag_radtransf_ ? ds : 1)*(2 + sin(cp[1] + co[5])); }
  double T(double nu, double ds, state_t const &cp, double const *co) const { return flag_radtransf_ ? exp(-ka*pow(nu, q)*ds*(2 + cos(cp[2] + co[4]))) : 0; }
  Matrix4d O(double nu, double ds, state_t const &cp, double const *co) const { double t = T(nu, ds, cp, co); Matrix4d r = Matrix4d::Identity(); double b = 0.3*pol[0], c = 0.5*pol[1]; r << 1, b, 0, 0.1*b, b, 1, c, 0, 0, -c, 1, 0.2*c, 0.1*b, 0, -0.2*c, 1; return t*r; }
  using Generic::emission; using Generic::radiativeQ; using Generic::transmission; using Generic::integrateEmission;
  double emission(double nu, double ds, state_t const &cp, double const *co) const override { return m & ES ? E(nu, ds, cp, co) : Generic::emission(nu, ds, cp, co); }
  void emission(double *I, double const *nu, size_t n, double ds, state_t const &cp, double const *co) const override { if (!(m & EV)) Generic::emission(I, nu, n, ds, cp, co); else for (size_t i = 0; i < n; ++i) I[i] = E(nu[i], ds, cp, co); }
  double transmission(double nu, double ds, state_t const &cp, double const *co) const override { return m & TR ? T(nu, ds, cp, co) : Generic::transmission(nu, ds, cp, co); }
  void radiativeQ(double *I, double *T_, double const *nu, size_t n, double ds, state_t const &cp, double const *co) const override { if (!(m & RQ)) Generic::radiativeQ(I, T_, nu, n, ds, cp, co); else for (size_t i = 0; i < n; ++i) { I[i] = E(nu[i], ds, cp, co); T_[i] = T(nu[i], ds, cp, co); } }
  void radiativeQ(double *I, double *Q, double *U, double *W, Matrix4d *On, double const *nu, size_t n, double ds, state_t const &cp, double const *co) const override {
    if (!(m & RP)) { Generic::radiativeQ(I, Q, U, W, On, nu, n, ds, cp, co); return; }
    for (size_t i = 0; i < n; ++i) { I[i] = E(nu[i], ds, cp, co); Q[i] = pol[0]*I[i]; U[i] = pol[1]*I[i]; W[i] = pol[2]*I[i]; On[i] = O(nu[i], ds, cp, co); } }
};
static SmartPointer<Spectrometer::Uniform> spectro(pbt::Gen &g, std::ostream &d, size_t nmax = 4) {
  SmartPointer<Spectrometer::Uniform> s = new Spectrometer::Uniform(); std::string k = g.pick(std::vector<std::string>{"freq", "freqlog", "wave", "wavelog"}); s->kind(k); size_t n = 1 + g.below(nmax); s->nSamples(n);
  double lo = g.uni(9, 18), hi = lo + g.uni(0.05, 0.8); if (g.chance(1, 4)) std::swap(lo, hi); V b = {lo, hi}; if (k[0] == 'w') for (auto &x : b) x = log10(299792458.) - x; if (k.find("log") == std::string::npos) for (auto &x : b) x = pow(10, x); s->band(b); d << "; spectro " << k << ' ' << n << " in " << b[0] << ".." << b[1]; return s;
}
PBT_SUB(hits, 12000, 400000, "object providing emission/absorption through any subset of the five methods, 1-4 layers, any requested quantities, thin or thick, polarised or not; non-trivial: at least 2 layers, or a default used") {
  int mask = g.below(32); Mock *o = new Mock(mask); SmartPointer<Astrobj::Generic> own(o); bool thin = !g.chance(1, 4), nored = g.chance(1, 6), pt = g.chance(2, 5), withsp = pt || g.chance(5, 6);
  SmartPointer<Metric::Generic> met; bool bl = g.flip(); if (bl) { SmartPointer<Metric::KerrBL> k = new Metric::KerrBL(); k->spin(g.uni(0, 0.9)); met = k; } else { SmartPointer<Metric::Minkowski> k = new Metric::Minkowski(); k->spherical(true); met = k; } met->mass(g.chance(1, 3) ? 1 : g.logu(1e30, 1e40));
  o->metric(met); o->opticallyThin(thin); if (nored) o->redshift(false); o->p = g.uni(-2, 2); o->q = g.uni(-1, 1);
  SmartPointer<Photon> ph = new Photon(); ph->metric(met); double fobs = g.chance(1, 3) ? 1 : g.logu(1e9, 1e18); ph->freqObs(fobs); size_t n = 0; SmartPointer<Spectrometer::Uniform> sp; c.note << std::setprecision(12) << "methods " << mask << (thin ? " thin" : " thick") << (nored ? " noredshift" : "") << (pt ? " polarised" : "") << " freqObs=" << fobs;
  if (pt) ph->parallelTransport(true); if (withsp) { sp = spectro(g, c.note); ph->spectrometer(sp); n = sp->nSamples(); } double ref = withsp ? sp->getMidpoints()[0] : fobs;
  o->A = g.logu(1e-3, 1e3)*pow(ref, -o->p); o->ka = g.chance(1, 8) ? 0 : g.logu(1e-3, 3)*pow(ref, -o->q); for (double &x : o->pol) x = g.uni(-0.5, 0.5);
  int req = 0; for (int q : {scn::QI, scn::QT, scn::QR, scn::QC, scn::QS, scn::QB, scn::QSQ, scn::QSU, scn::QSV}) if (g.flip()) req |= q;
  if (!withsp) req &= ~(scn::QS | scn::QB | scn::QSQ | scn::QSU | scn::QSV); if (pt) req &= ~scn::QC; size_t np = 1 + g.below(3), cell = g.below(np); c.note << " quantities " << req;
  scn::Img im(np, n, req, -5); Astrobj::Properties pr = im.p; pr += cell; pr.init(n);
  if (g.chance(1, 5)) { SmartPointer<Astrobj::Generic> cl(o->clone()); own = cl; o = (Mock *)(Astrobj::Generic *)own; }
  bool hasE = mask & (ES | EV | RQ | RP), hasT = mask & (TR | RQ | RP); int nh = 1 + g.below(4); c.nontrivial = nh > 1 || !hasE || !hasT;
  LD I = 0, Tf = 1, gl = 0, tl = 0; V first; std::vector<LD> S(n), B(n), T(n, 1), Tb(n, 1); std::vector<std::array<LD, 4>> St(n, {{0, 0, 0, 0}}); std::vector<M4> O(n, eye());
  for (int h = 0; h < nh; ++h) {
    double r = g.uni(4, 20), th = g.uni(0.3, 2.8), x[4] = {g.uni(-100, 100), r, th, g.uni(0, 6)}; state_t cp(pt ? 16 : 8); double co[8]; for (int i = 0; i < 4; ++i) cp[i] = co[i] = x[i];
    met->zamoVelocity(x, co + 4); double e = g.uni(-0.5, 0.5); { double k[3] = {co[5]/co[4] + 0.2*e, 0.3*e/r, co[7]/co[4] + g.uni(-0.3, 0.3)/r}; double td = met->SysPrimeToTdot(x, k); co[4] = td; for (int i = 0; i < 3; ++i) co[5 + i] = td*k[i]; }
    double l = g.logu(0.1, 10); for (int i = 0; i < 3; ++i) cp[5 + i] = l*g.uni(-1, 1)/(i ? r : 1); cp[4] = 1; met->nullifyCoord(&cp[0]); for (size_t i = 8; i < cp.size(); ++i) cp[i] = g.uni(-1, 1); double dt = g.chance(1, 10) ? 0. : g.logu(1e-3, 1);
    if (h == 0) { first.assign(co, co + 8); first.insert(first.end(), cp.begin(), cp.begin() + 8); }
    LD gm = 0; { double gg[4][4]; met->gmunu(gg, x); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) gm -= (LD)gg[i][j]*co[4 + i]*cp[4 + j]; } if (nored) gm = 1; LD gr = 1/gm, ds = dt/(LD)cp[4]*gm, g3 = gr*gr*gr;
    auto E = [&](LD nu) -> LD { return hasE ? o->E((double)nu, (double)ds, cp, co) : thin ? ds : 1; }; auto Tr = [&](LD nu) -> LD { return hasT ? o->T((double)nu, (double)ds, cp, co) : (LD)thin; };
    gl = gr; tl = x[0]; I += E(fobs*gm)*g3*Tf; Tf *= Tr(fobs*gm);
    for (size_t i = 0; i < n; ++i) { LD nu = sp->getMidpoints()[i]*gm; if (!pt) S[i] += E(nu)*g3*T[i]; else { LD s[4] = {E(nu), 0, 0, 0}; M4 Om; if (mask & RP) { for (int k = 0; k < 3; ++k) s[k + 1] = s[0]*o->pol[k]; Matrix4d om = o->O((double)nu, (double)ds, cp, co); for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) Om.a[a][b] = om(a, b); } else { Om = eye(); for (auto &rr : Om.a) for (LD &v : rr) v *= Tr(nu); }
        for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) St[i][a] += O[i].a[a][b]*s[b]*g3; O[i] = mul(O[i], Om); }
      LD a = sp->getChannelBoundaries()[sp->getChannelIndices()[2*i]]*gm, b = sp->getChannelBoundaries()[sp->getChannelIndices()[2*i + 1]]*gm; if (a > b) std::swap(a, b); LD in = 0; int N = 40; LD hh = (b - a)/N; for (int k = 0; k <= N; ++k) in += E(a + k*hh)*(k == 0 || k == N ? 1 : k % 2 ? 4 : 2); in *= hh/3; B[i] += in*g3*gr*T[i]; T[i] *= Tr(nu); }
    o->processHitQuantities(ph, cp, co, dt, &pr);
  }
  auto near = [&](double got, LD want, LD scale, double tol, std::string q) { c.check(fabsl(got - want) <= tol*std::max(fabsl(want), fabsl(scale)) || fabsl(want - got) < 1e-290L, "hits/" + q, q + " = " + gy::num(got) + ", expected " + gy::num((double)want)); };
  if (req & scn::QI) near(im.cell(scn::QI, cell)[0], I, 0, 1e-9, "Intensity"); if (req & scn::QR) near(im.cell(scn::QR, cell)[0], gl, 0, 1e-9, "Redshift"); if (req & scn::QT) near(im.cell(scn::QT, cell)[0], tl, 0, 1e-12, "EmissionTime");
  if (req & scn::QC) { V v = im.cell(scn::QC, cell); for (int i = 0; i < 16; ++i) near(v[i], first[i], 0, 1e-14, "ImpactCoords"); }
  char const *sn[] = {"Spectrum", "SpectrumStokesQ", "SpectrumStokesU", "SpectrumStokesV"}; int sq[] = {scn::QS, scn::QSQ, scn::QSU, scn::QSV};
  for (size_t i = 0; i < n; ++i) { for (int k = 0; k < 4; ++k) if (req & sq[k]) near(im.cell(sq[k], cell)[i], pt ? St[i][k] : k ? 0 : S[i], pt ? 1e-6*St[i][0] : 0, 1e-8, sn[k]); if (req & scn::QB) near(im.cell(scn::QB, cell)[i], B[i], 0, 0.03, "BinSpectrum"); }
  for (auto &q : im.d) for (size_t i = 0; i < np; ++i) if (i != cell) for (double v : im.cell(q.first, i)) c.check(v == -5, "hits/neighbour", std::string("a neighbouring cell of ") + scn::qname(q.first) + " was written");
  c.label(pt ? "polarised" : "scalar"); c.label("methods-" + std::to_string(mask)); if (!hasE) c.label("default-emission"); if (!hasT) c.label("default-transmission"); c.label("layers-" + std::to_string(nh));
}
PBT_SUB(matrices, 40000, 1500000, "transmission and emission matrices for any physical absorption/rotation coefficients, angles and thickness (also zero coefficients, purely absorbing, thick); non-trivial: optical depth or rotation above 1e-3") {
  Mock o(0); SmartPointer<Metric::Minkowski> m = new Metric::Minkowski(); m->mass(g.logu(1e30, 1e40)); o.metric(m); double ul = m->unitLength(), ds = g.logu(1e-3, 10), sc = 1/(ul*ds);
  double aI = g.chance(1, 8) ? 0 : g.logu(1e-5, 3000), aP = g.chance(1, 6) ? 0 : aI*g.uni(0, 0.95), rP = g.chance(1, 6) ? 0 : g.logu(1e-5, 30); if (aI > 0 && g.chance(1, 8)) { double k = g.logu(1e-20, 1); aI *= k; aP *= k; } auto dir = [&](double v[3]) { double z = g.uni(-1, 1), f = g.uni(0, 6.28), s = sqrt(1 - z*z); v[0] = s*cos(f); v[1] = s*sin(f); v[2] = z; if (g.chance(1, 4)) { int k = g.below(3); v[0] = v[1] = v[2] = 0; v[k] = g.sgn(); } };
  double a[3], r[3]; dir(a); dir(r); if (g.chance(1, 6)) for (int i = 0; i < 3; ++i) r[i] = a[i]*g.sgn(); double al[4] = {aI*sc, aP*a[0]*sc, aP*a[1]*sc, aP*a[2]*sc}, rn[3] = {rP*r[0]*sc, rP*r[1]*sc, rP*r[2]*sc}, chi = g.chance(1, 6) ? 0 : g.uni(-3.2, 3.2);
  c.note << std::setprecision(12) << "tau " << aI << ' ' << aP << " rot " << rP << " a " << a[0] << ',' << a[1] << ',' << a[2] << " r " << r[0] << ',' << r[1] << ',' << r[2] << " chi " << chi; c.nontrivial = aI > 1e-3 || rP > 1e-3;
  M4 K = kmat(al[0]/sc, al[1]/sc, al[2]/sc, al[3]/sc, rn[0]/sc, rn[1]/sc, rn[2]/sc, sinl(2*(LD)chi), cosl(2*(LD)chi)), O, P; expint(K, 1, O, P);
  Matrix4d got[4] = {o.Omatrix(al, rn, chi, ds), o.Omatrix(al, rn, sin(2*chi), cos(2*chi), ds), o.Omatrix(al[0], al[1], al[2], al[3], rn[0], rn[1], rn[2], chi, ds), o.Omatrix(al[0], al[1], al[2], al[3], rn[0], rn[1], rn[2], sin(2*chi), cos(2*chi), ds)};
  double tol = 1e-6; // near-degenerate eigenvalues are not resolved better by the closed formula
  for (int v = 0; v < 4; ++v) for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) c.check(fabsl(got[v](i, j) - O.a[i][j]) <= tol*(1e-3 + nrm(O)), "matrices/O", "transmission matrix (variant " + std::to_string(v) + ") element " + std::to_string(i) + std::to_string(j) + " = " + gy::num(got[v](i, j)) + ", expected " + gy::num((double)O.a[i][j]));
  Matrix4d Pm = o.Pmatrix(al[0], al[1], al[2], al[3], rn[0], rn[1], rn[2], sin(2*chi), cos(2*chi), ds); 
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) c.check(fabsl(Pm(i, j)*sc - P.a[i][j]) <= (1e-6 + (aI > 99 ? 2*exp(aP - aI) : 0))*(1e-9 + nrm(P)), "matrices/P", "emission matrix element " + std::to_string(i) + std::to_string(j) + " = " + gy::num(Pm(i, j)*sc) + ", expected " + gy::num((double)P.a[i][j]) + " (times thickness)");
  double j[4]; for (double &x : j) x = g.uni(-1, 1); Vector4d w = o.rotateJs(j[0], j[1], j[2], j[3], chi), w2 = o.rotateJs(j[0], j[1], j[2], j[3], sin(2*chi), cos(2*chi)); LD s2 = sinl(2*(LD)chi), c2 = cosl(2*(LD)chi), e[4] = {j[0], j[1]*c2 - j[2]*s2, j[2]*c2 + j[1]*s2, j[3]};
  for (int i = 0; i < 4; ++i) { c.close(w(i), (double)e[i], 1e-12, 1e-12, "matrices/rotateJs", "rotated emission"); c.close(w2(i), (double)e[i], 1e-12, 1e-12, "matrices/rotateJs", "rotated emission"); }
}
struct V3 { LD x, y, z; };
static V3 operator*(LD s, V3 a) { return {s*a.x, s*a.y, s*a.z}; }
static V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static LD dot(V3 a, V3 b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
// position and coordinate velocity dx/dt in Cartesian axes
static void cart(bool sph, const double p[4], const double v[3], V3 &x, V3 &w) {
  if (!sph) { x = {p[1], p[2], p[3]}; w = {v[0], v[1], v[2]}; return; }
  LD s = sinl(p[2]), c = cosl(p[2]), sp = sinl(p[3]), cp = cosl(p[3]), r = p[1]; x = {r*s*cp, r*s*sp, r*c}; w = v[0]*V3{s*cp, s*sp, c} + (r*v[1])*V3{c*cp, c*sp, -s} + (r*s*v[2])*V3{-sp, cp, 0};
}
// An object of any shape: implicit function f(x,y,z), flat space
struct Shape : Astrobj::Standard {
  int kind = 0; bool sph = false; V a; LD al = 0;
  Shape() : Standard("Shape") {} Shape(Shape const &o) = default; Shape *clone() const override { return new Shape(*this); }
  double f(V3 x) const { x = x - V3{a[0], a[1], a[2]}; LD r = sqrtl(dot(x, x)); switch (kind) { case 0: return (double)(r*r); case 1: return (double)fabsl(r - a[3]); case 2: return (double)fabsl(sinl(a[3]*x.x + a[4]*x.y + a[5]*x.z)); default: { LD q = sqrtl(x.x*x.x + x.y*x.y) - a[3]; return (double)(q*q + x.z*x.z); } } }
  double operator()(double const p[4]) override { double v[3] = {0, 0, 0}; V3 x, w; cart(sph, p, v, x, w); return f(x); }
  void getVelocity(double const p[4], double v[4]) override { (void)p; v[0] = 1; v[1] = v[2] = v[3] = 0; }
  using Generic::emission; using Generic::transmission;
  double emission(double, double ds, state_t const &, double const *) const override { return !flag_radtransf_ ? 1 : al == 0 ? ds : (double)(-expm1l(-al*ds)/al); }
  double transmission(double, double ds, state_t const &, double const *) const override { return flag_radtransf_ ? (double)expl(-al*ds) : 0; }
  double safety() const { return safety_value_; }
  void crit(double v, double s) { critical_value_ = v; safety_value_ = s; }
};
PBT_SUB(segments, 16000, 400000, "one integration step across an object of any shape (ball, shell, slabs, torus; entering, leaving, inside, through a gap, outside), thin or opaque; non-trivial: part of the step is inside") {
  Shape *o = new Shape(); SmartPointer<Astrobj::Generic> own(o); o->kind = g.below(4); o->sph = g.chance(1, 3); SmartPointer<Metric::Minkowski> m = new Metric::Minkowski(); m->spherical(o->sph); o->metric(m); bool thin = g.chance(4, 5); o->opticallyThin(thin); o->al = g.chance(1, 2) ? 0 : g.logu(0.01, 1); double h = g.uni(1, 4), cr;
  o->a = {g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2)}; switch (o->kind) { case 0: cr = pow(g.uni(0.5, 4), 2); break; case 1: o->a.push_back(g.uni(1, 4)); cr = g.uni(0.2, 0.7)*o->a[3]; break; case 2: for (int i = 0; i < 3; ++i) o->a.push_back(g.uni(-1.2, 1.2)); cr = g.uni(0.2, 0.8); break; default: o->a.push_back(g.uni(2, 4)); cr = pow(g.uni(0.3, 1.2), 2); } double delta = g.logu(0.05, 6); o->crit(cr, g.flip() ? DBL_MAX : cr*g.uni(1.5, 5)); o->deltaInObj(delta);
  double z = g.uni(-1, 1), ps = g.uni(0, 6.28), si = sqrt(1 - z*z); V3 n = {si*cos(ps), si*sin(ps), z}, x0 = {g.uni(-3, 3), g.uni(-3, 3), g.uni(-3, 3)}; x0 = x0 + (LD)g.uni(-8, 8)*n; double t0 = g.uni(-10, 10);
  V3 xf = x0 + (LD)(-h)*n; (void)xf; double c8[8] = {t0, (double)x0.x, (double)x0.y, (double)x0.z, 1, (double)n.x, (double)n.y, (double)n.z};
  if (o->sph) { LD d = -dot(x0, n); /* large steps near the axis are not integrated accurately */ h = g.uni(0.2, 0.6); delta = g.logu(0.01, 0.8); o->deltaInObj(delta); V3 pc = x0 + d*n; if (sqrtl(dot(pc, pc)) < 0.1L) throw pbt::Discard(); LD r = sqrtl(dot(x0, x0)), rh = sqrtl(x0.x*x0.x + x0.y*x0.y), st = rh/r, ct = x0.z/r, cp = x0.x/rh, sp = x0.y/rh; c8[1] = (double)r; c8[2] = (double)acosl(ct); c8[3] = (double)atan2l(x0.y, x0.x); c8[5] = (double)dot(n, V3{st*cp, st*sp, ct}); c8[6] = (double)(dot(n, V3{ct*cp, ct*sp, -st})/r); c8[7] = (double)(dot(n, V3{-sp, cp, 0})/rh); }
  c.note << std::setprecision(12) << "shape " << o->kind << (o->sph ? " spherical" : "") << (thin ? " thin" : " thick") << " alpha=" << (double)o->al << " critical=" << cr << " delta=" << delta << " a="; for (double v : o->a) c.note << v << ','; c.note << " step " << h << " from"; for (double v : c8) c.note << ' ' << v;
  SmartPointer<Photon> ph = new Photon(); ph->metric(m); ph->astrobj(own); ph->setInitCoord(c8, -1); ph->adaptive(false); ph->delta(h); { double av = 1e-8; ph->absTol(av); ph->relTol(av); } ph->xFill(t0 - 4*h); size_t i0 = ph->getImin(), i1 = ph->getImax(); if (i1 <= i0) throw pbt::Discard(); size_t ix = i0 + g.below(i1 - i0); state_t q1(8), q2(8); ph->getCoord(ix, q1); ph->getCoord(ix + 1, q2); double t1 = q1[0], t2 = q2[0];
  if (o->sph) for (double *q : {&q1[0], &q2[0]}) { V3 gx, gw, px = x0 + (LD)(q[0] - t0)*n; double v[3] = {0, 0, 0}; cart(true, q, v, gx, gw); px = px - gx; if (!(dot(px, px) < 1e-10L)) { c.label("integration-inaccurate"); throw pbt::Discard(); } } // a fixed step close to the coordinate axis
  auto at = [&](double t) { return o->f(x0 + (LD)(t - t0)*n); }; const int N = 400; std::vector<std::pair<LD, LD>> in; bool was = false; LD beg = 0, L = 0; double low = DBL_MAX; for (int k = 0; k <= N; ++k) { double t = t1 + (t2 - t1)*k/N, v = at(t); low = std::min(low, v); bool now = v < cr; auto root = [&](double a, double b) { bool fa = at(a) < cr; for (int q = 0; q < 60; ++q) { double mm = 0.5*(a + b); ((at(mm) < cr) == fa ? a : b) = mm; } return (LD)0.5*(a + b); }; if (now && !was) beg = k ? root(t - (t2 - t1)/N, t) : (LD)t; if (!now && was) in.push_back({beg, root(t - (t2 - t1)/N, t)}); was = now; } if (was) in.push_back({beg, (LD)t2});
  for (auto &p : in) L += p.second - p.first; bool in1 = at(t1) < cr, in2 = at(t2) < cr; double v1 = at(t1), v2 = at(t2); if (fabs(v1 - cr) < 1e-3*cr || fabs(v2 - cr) < 1e-3*cr || (low > cr && low < 1.02*cr)) throw pbt::Discard();
  for (size_t k = 0; k < in.size(); ++k) { if (in[k].second - in[k].first < 0.02) throw pbt::Discard(); if (k && (in[k].second - in[k].first < 1.05*delta || in[k].first - in[k - 1].second < 1.05*delta)) throw pbt::Discard(); } if (in.size() > 1 && in[0].second - in[0].first < 1.05*delta) throw pbt::Discard();
  if (in.size() > 1 && !(in1 && in2)) { c.label("several-crossings"); throw pbt::Discard(); } // the entry is searched by bisection: which one is found is not specified
  double val[2], imp[16], dist = DBL_MAX, fd = DBL_MAX, tm = -1e99; for (double &v : imp) v = DBL_MAX; val[0] = val[1] = 0; Astrobj::Properties pr; pr.intensity = val; pr.time = &tm; pr.distance = &dist; pr.first_dmin = &fd; pr.impactcoords = imp; int r = o->Impact(ph, ix, &pr); c.nontrivial = !in.empty(); std::ostringstream w; w << " (from " << t1 << " to " << t2 << ", inside"; for (auto &p : in) w << ' ' << (double)p.first << ".." << (double)p.second; w << ')';
  if (!in1 && !in2) { c.label(in.empty() ? "outside" : "through"); if (!r) { c.check(in.empty() || o->kind || (v1 > o->safety() && v2 > o->safety()), "segments/pass", "a step across a ball is no hit" + w.str()); c.check(dist <= std::min(v1, v2)*(1 + 1e-3) + 1e-4 && dist >= low*(1 - 1e-3) - 1e-4, "segments/distance", "minimum distance " + gy::num(dist) + " not between " + gy::num(low) + " and " + gy::num(std::min(v1, v2)) + w.str()); c.check(val[0] == 0 && imp[0] == DBL_MAX, "segments/outside", "quantities of a miss were written" + w.str()); c.check(tm >= t1 && tm <= t2, "segments/time", "date of closest approach out of the step"); return; } c.check(!in.empty(), "segments/false-hit", "hit reported by a step wholly outside" + w.str()); }
  else c.check(r, "segments/missed", "a step with an end inside is no hit" + w.str());
  if (in.size() > 1) c.label("gap"); else c.label(in1 ? in2 ? "inside" : "leaving" : in2 ? "entering" : "through"); LD tl = in.back().second;
  LD want = !thin ? 1 : o->al == 0 ? L : -expm1l(-o->al*L)/o->al; c.close(val[0], (double)want, 2e-4/(double)L + 1e-6, 0, "segments/Intensity", "intensity of the step" + w.str()); c.close(imp[0], (double)tl, 0, 1e-3, "segments/impact", "date of the impact" + w.str());
  V3 px = x0 + (LD)(imp[0] - t0)*n; double vv[3] = {0, 0, 0}; V3 gx, gw; cart(o->sph, imp, vv, gx, gw); V3 df = gx - px; c.check(dot(df, df) < 1e-6L, "segments/place", "the impact is not on the ray"); if (!thin) c.close(tm, (double)tl, 0, 1e-3, "segments/time", "emission date of an opaque object" + w.str());
}
static LD spec(Spectrum::Generic *s, LD nu) { return (*s)((double)nu); }
PBT_SUB(sphere, 2400, 60000, "uniform absorbing or opaque sphere at rest or in motion in flat space, Cartesian or spherical coordinates, traced pixel against the analytic chord; non-trivial: ray crosses the sphere") {
  bool sph = g.flip(), moving = !sph && g.chance(2, 3), thin = g.chance(3, 4); // (a Star has one set of velocity components: rigid in Cartesian coordinates only)
  SmartPointer<Metric::Minkowski> m = new Metric::Minkowski(); m->spherical(sph); m->mass(g.logu(1e30, 1e40)); scn::S S; S.met = m; S.mkind = sph ? "MinkowskiSph" : "Minkowski"; S.d << S.mkind << " mass=" << m->mass(); S.rsize = 6;
  double d0 = g.uni(4, 8), th = g.uni(0.8, 2.3), ph = g.uni(0, 6.28), R = g.uni(0.15, 0.5)*d0; LD st = sinl(th); V3 c0 = {d0*st*cosl(ph), d0*st*sinl(ph), d0*cosl(th)}; V pos = sph ? V{d0, th, ph} : V{(double)c0.x, (double)c0.y, (double)c0.z}; V3 vel = {0, 0, 0}; double t0 = 0;
  SmartPointer<Astrobj::Generic> o = gy::astrobj(moving ? "Star" : "FixedStar"); o->metric(m); scn::Set q(o, S.d); S.d << "; "; q("Radius", R);
  if (!moving) q.v("Position", pos); else { double v[3] = {g.uni(-0.03, 0.03), g.uni(-0.03, 0.03), g.uni(-0.03, 0.03)}; double p4[4] = {t0, pos[0], pos[1], pos[2]}; if (g.chance(1, 2)) for (double &x : v) x *= 5; if (sph) { v[1] /= d0; v[2] /= d0*sin(th); } double c8[8] = {p4[0], p4[1], p4[2], p4[3]}; dynamic_cast<Worldline *>((Astrobj::Generic *)o)->setInitCoord(c8, v); V3 xx; cart(sph, p4, v, xx, vel); S.d << " at " << p4[1] << ',' << p4[2] << ',' << p4[3] << " v " << v[0] << ',' << v[1] << ',' << v[2]; }
  SmartPointer<Spectrum::Generic> em = scn::spectrum(g, S.d), op; bool grey = true; if (em->kind() == "BlackBody") { q.o = em; q("Temperature", g.logu(2e6, 1e9)); q.o = o; } { double e = g.chance(1, 3) ? 0 : g.uni(-1, 1); grey = e == 0; SmartPointer<Spectrum::PowerLaw> pl = new Spectrum::PowerLaw(e, g.logu(1e-3, 3)/pow(1e17, e)); op = pl; S.d << " opacity " << pl->constant() << " nu^" << e; } o->set("Spectrum", Value(em)); o->set("Opacity", Value(op)); q.b("OpticallyThin", thin); q("RMax", 30); if (g.chance(1, 3)) q("DeltaInObj", g.uni(0.02, 0.5)); S.obj = o;
  size_t np = 8; scn::camera(g, S, np); double dist = S.scr->distance("geometrical"); S.scr->set("Time", Value(dist), "geometrical_time"); scn::spectro(g, S, 3); SmartPointer<Scenery> sc = new Scenery(); sc->metric(m); sc->screen(S.scr); sc->astrobj(o); sc->nThreads(0); sc->set("MinimumTime", Value(-500.));
  size_t i = 1, j = 1; double r8[8]; V3 x0, n, dx, w; LD A, B, C, D; for (int k = 0; k < 30; ++k) { i = 1 + g.below(np); j = 1 + g.below(np); S.scr->getRayTriad(i, j, r8, false, NULL, NULL); double rv[3] = {r8[5]/r8[4], r8[6]/r8[4], r8[7]/r8[4]}; cart(sph, r8, rv, x0, n); dx = x0 - c0 - (LD)(r8[0] - t0)*vel; w = n - vel; A = dot(w, w); B = dot(dx, w); C = dot(dx, dx) - (LD)R*R; D = B*B - A*C; if (D > 0) break; }
  c.note << S.desc() << " pixel " << i << ',' << j;
  scn::Img im(1, S.nnu, scn::QI | scn::QS | scn::QR | (g.flip() ? scn::QB : 0) | (g.flip() ? scn::QT : 0)); Astrobj::Properties pr = im.p; pr.init(S.nnu); (*sc)(i, j, &pr);
  double got = im.cell(scn::QI, 0)[0];
  LD bmin = sqrtl(std::max<LD>(0, dot(dx, dx) - B*B/A)); if (fabsl(bmin/R - 1) < 0.02L) throw pbt::Discard(); // grazing
  if (D <= 0) { c.label("miss"); c.check(got == 0, "sphere/miss", "a ray passing at " + gy::num((double)(bmin/R)) + " radii of the centre has intensity " + gy::num(got)); return; }
  LD dt = 2*sqrtl(D)/A, tex = r8[0] + (-B + sqrtl(D))/A, gam = 1/sqrtl(1 - dot(vel, vel)), gm = gam*(1 - dot(vel, n)), gr = 1/gm, L = dt*gm, g3 = gr*gr*gr; c.nontrivial = true; c.label(moving ? "moving" : "at-rest"); c.label(thin ? "thin" : "thick"); c.label(sph ? "spherical" : "cartesian");
  auto I = [&](LD nu) -> LD { LD s = spec(em, nu*gm); return thin ? -s*expm1l(-spec(op, nu*gm)*L) : s; }; double tol = thin ? (double)(std::min<LD>(0.5, (1e-3 + 4*bmin*(1e-3 + 3e-6*dist)/dt)/dt)) + 1e-4 : 1e-5; // surface found to the accuracy of the integration
  auto near = [&](double gt, LD want, double t, std::string what) { c.check(fabsl(gt - want) <= t*fabsl(want), "sphere/" + what, what + " = " + gy::num(gt) + ", expected " + gy::num((double)want) + " (chord " + gy::num((double)(dt/R)) + " R, optical depth at the first channel " + gy::num(S.nnu ? (double)(spec(op, S.scr->spectrometer()->getMidpoints()[0]*gm)*L) : 0.) + ", g " + gy::num((double)gr) + ")"); };
  near(got, I(S.scr->freqObs())*g3, tol, "Intensity"); near(im.cell(scn::QR, 0)[0], gr, 1e-6, "Redshift"); if (!thin && (im.q & scn::QT)) c.close(im.cell(scn::QT, 0)[0], (double)tex, 0, 2e-3*R + 1e-3, "sphere/EmissionTime", "EmissionTime");
  V s = im.cell(scn::QS, 0); for (size_t k = 0; k < S.nnu; ++k) { near(s[k], I(S.scr->spectrometer()->getMidpoints()[k])*g3, tol, "Spectrum"); }
  if ((im.q & scn::QB) && (grey || !thin)) { V b = im.cell(scn::QB, 0); auto sp = S.scr->spectrometer(); for (size_t k = 0; k < S.nnu; ++k) { LD lo = sp->getChannelBoundaries()[sp->getChannelIndices()[2*k]], hi = sp->getChannelBoundaries()[sp->getChannelIndices()[2*k + 1]]; if (lo > hi) std::swap(lo, hi); LD in = 0; int N = 60; for (int q = 0; q <= N; ++q) in += I(lo + q*(hi - lo)/N)*(q == 0 || q == N ? 1 : q % 2 ? 4 : 2); near(b[k], in*(hi - lo)/N/3*g3, 0.04, "BinSpectrum"); } }
}
PBT_SUB(composite, 1500, 40000, "2-4 separate uniform spheres at rest, absorbing or opaque, put together in any order (also nested composites) in flat space, Cartesian or spherical coordinates, one pixel against the layered analytic solution; non-trivial: the ray crosses at least two of them") {
  bool sph = g.flip(); SmartPointer<Metric::Minkowski> m = new Metric::Minkowski(); m->spherical(sph); m->mass(g.logu(1e30, 1e40)); scn::S S; S.met = m; S.mkind = sph ? "MinkowskiSph" : "Minkowski"; S.d << S.mkind << " mass=" << m->mass(); S.rsize = 6; size_t np = 8;
  scn::camera(g, S, np); double dist = S.scr->distance("geometrical"); S.scr->set("Time", Value(dist), "geometrical_time"); scn::spectro(g, S, 3); size_t i = 1 + g.below(np), j = 1 + g.below(np); double r8[8]; V3 x0, n; S.scr->getRayTriad(i, j, r8, false, NULL, NULL); { double rv[3] = {r8[5]/r8[4], r8[6]/r8[4], r8[7]/r8[4]}; cart(sph, r8, rv, x0, n); } LD nn = sqrtl(dot(n, n)); n = (1/nn)*n;
  // spheres close to the ray, separate from each other
  struct B { V3 c; double R; SmartPointer<Spectrum::Generic> em; SmartPointer<Spectrum::PowerLaw> op; bool thin; LD b, tin, L; }; std::vector<B> bs; LD s0 = -dot(x0, n), gap = g.logu(1e-3, 2e-2); int want = 2 + g.below(3);
  V3 e1 = fabsl(n.x) < 0.7 ? V3{1, 0, 0} : V3{0, 1, 0}; e1 = e1 - dot(e1, n)*n; e1 = (1/sqrtl(dot(e1, e1)))*e1; V3 e2 = {n.y*e1.z - n.z*e1.y, n.z*e1.x - n.x*e1.z, n.x*e1.y - n.y*e1.x};
  for (int k = 0; k < 40 && (int)bs.size() < want; ++k) { B b; b.R = g.logu(0.05, 2.5); double u = g.uni(0, 6.283), al = g.uni(-9, 9), off = g.chance(4, 5) ? g.uni(0, 0.9)*b.R : g.uni(1.1, 3)*b.R; b.c = x0 + (s0 + al)*n + (off*cosl(u))*e1 + (off*sinl(u))*e2; LD rr = sqrtl(dot(b.c, b.c)); if (rr < b.R + 0.3 || rr + b.R > 14 || (sph && sqrtl(b.c.x*b.c.x + b.c.y*b.c.y) < 0.3 + b.R)) continue; bool clash = false; for (auto &o : bs) { V3 d = o.c - b.c; if (sqrtl(dot(d, d)) < (o.R + b.R)*(1 + gap) + gap) clash = true; } if (clash) continue; b.b = off; LD h = b.R*b.R - off*off; b.L = h > 0 ? 2*sqrtl(h) : 0; b.tin = s0 + al + b.L/2; b.thin = g.chance(2, 3); bs.push_back(b); }
  if (bs.size() < 2) throw pbt::Discard();
  bool coarse = g.flip(); std::vector<SmartPointer<Astrobj::Generic>> os; for (auto &b : bs) { SmartPointer<Astrobj::Generic> o = gy::astrobj("FixedStar"); o->metric(m); scn::Set q(o, S.d); S.d << "; "; q("Radius", b.R); LD rr = sqrtl(dot(b.c, b.c)); V pos = sph ? V{(double)rr, (double)acosl(b.c.z/rr), (double)atan2l(b.c.y, b.c.x)} : V{(double)b.c.x, (double)b.c.y, (double)b.c.z}; q.v("Position", pos); b.em = new Spectrum::PowerLaw(g.uni(-1, 1), g.logu(0.1, 10)); b.op = new Spectrum::PowerLaw(0, g.logu(1e-2, 3)/b.R); S.d << " emission " << ((Spectrum::PowerLaw *)(Spectrum::Generic *)b.em)->constant() << " nu^" << ((Spectrum::PowerLaw *)(Spectrum::Generic *)b.em)->exponent() << " opacity " << b.op->constant(); o->set("Spectrum", Value(b.em)); o->set("Opacity", Value(SmartPointer<Spectrum::Generic>(b.op))); q.b("OpticallyThin", b.thin); q("RMax", g.flip() ? 40 : ((double)rr + b.R)*g.uni(2.2, 2.8)); if (g.chance(1, 3)) q("DeltaInObj", g.uni(0.02, 0.5)); if (coarse) { q("DeltaMaxOverRadius", g.uni(0.1, 1)*2*sqrt(0.29 + 0.1/b.R/b.R)); q("DeltaMaxOverDistance", g.uni(0.1, 0.7)); } os.push_back(o); }
  bool nest = os.size() > 2 && g.chance(1, 3), late = g.flip(), cl = g.chance(1, 4); SmartPointer<Astrobj::Complex> cx = new Astrobj::Complex(); if (!late) cx->metric(m); if (nest) { SmartPointer<Astrobj::Complex> in = new Astrobj::Complex(); in->metric(m); in->append(os[0]); in->append(os[1]);  cx->append(in); for (size_t k = 2; k < os.size(); ++k) cx->append(os[k]); } else for (auto &o : os) cx->append(o); if (late) cx->metric(m); if (g.flip()) cx->set("RMax", Value(40.)); SmartPointer<Astrobj::Generic> obj = cx; if (cl) obj = cx->clone();
  SmartPointer<Scenery> sc = new Scenery(); sc->metric(m); sc->screen(S.scr); sc->astrobj(obj); sc->nThreads(0); sc->set("MinimumTime", Value(-500.)); if (g.chance(1, 3)) { double dm = g.logu(0.1, 50); obj->set("DeltaMaxInsideRMax", Value(dm)); S.d << " DeltaMaxInsideRMax=" << dm; } c.note << S.desc() << (nest ? " nested" : "") << " pixel " << i << ',' << j;
  bool pol = S.nnu && g.chance(1, 4); if (pol) { sc->parallelTransport(true); c.label("polarised"); } scn::Img im(1, S.nnu, scn::QS | (pol ? scn::QSQ | scn::QSU | scn::QSV : scn::QI) | (g.flip() ? scn::QT : 0) | (g.flip() ? scn::QR : 0)); Astrobj::Properties pr = im.p; pr.init(S.nnu); (*sc)(i, j, &pr);
  std::vector<B *> od; for (auto &b : bs) od.push_back(&b); std::sort(od.begin(), od.end(), [](B *a, B *b) { return a->tin > b->tin; }); int crossed = 0; for (auto &b : bs) { if (fabsl(b.b/b.R - 1) < 0.05L) throw pbt::Discard(); if (b.L > 0) ++crossed; } c.nontrivial = crossed > 1; c.label("crossed-" + std::to_string(crossed));
  auto model = [&](double nu, LD &tol) -> LD { LD T = 1, I = 0, dtau = 0; tol = 0; for (B *pb : od) if (pb->L > 0) { B &b = *pb; LD sv = spec(b.em, nu), tau = (*b.op)(nu)*b.L, e = b.thin ? std::min<LD>(0.5, (2e-3 + 4*b.b*(1e-3 + 3e-6*dist)/b.L)/b.L) + 1e-4 : 1e-5L, x = b.thin ? -sv*expm1l(-tau) : sv; I += T*x; tol += T*x*(T < 1e-5L ? 1.01L : e + dtau); /* (a ray ends where the transmission falls below 1e-6) */ if (!b.thin) break; T *= expl(-tau); dtau += tau*e; } return I; }; // surfaces found to the accuracy of the integration
  auto cmp = [&](double got, double nu, std::string what) { LD tol, w = model(nu, tol); c.check(fabsl(got - w) <= tol + 1e-9L*fabsl(w), "composite/" + what, what + " = " + gy::num(got) + ", expected " + gy::num((double)w) + " +- " + gy::num((double)tol) + " (" + std::to_string(crossed) + " spheres crossed)"); };
  if (!pol) cmp(im.cell(scn::QI, 0)[0], S.scr->freqObs(), "Intensity"); V sp = im.cell(scn::QS, 0); for (size_t k = 0; k < S.nnu; ++k) cmp(sp[k], S.scr->spectrometer()->getMidpoints()[k], "Spectrum");
  if (pol) for (int q : {scn::QSQ, scn::QSU, scn::QSV}) for (size_t k = 0; k < S.nnu; ++k) c.check(fabs(im.cell(q, 0)[k]) <= 1e-9*fabs(sp[k]) + 1e-300, "composite/QUV", "polarised light from unpolarised sources"); if (crossed && (im.q & scn::QR)) c.close(im.cell(scn::QR, 0)[0], 1, 1e-5, 0, "composite/Redshift", "Redshift"); bool op = false; LD T0 = 1; if (im.q & scn::QT) for (B *pb : od) if (pb->L > 0 && pb->thin) T0 *= expl(-(*pb->op)(1e17)*pb->L); else if (pb->L > 0 && !op && T0 > 1e-5L) { B &b = *pb; op = true; c.close(im.cell(scn::QT, 0)[0], (double)(r8[0] + b.tin), 0, 2e-2 + 3e-6*dist + 8e-3*(double)(b.b/b.L), "composite/EmissionTime", "EmissionTime of the first opaque surface"); }
}
PBT_SUB(unpolarised, 400, 10000, "opaque or transparent scenery whose object has no polarised emission, traced with and without polarisation; non-trivial: pixel hit") {
  static std::vector<std::string> ks = {"FixedStar", "Star", "PageThorneDisk", "PageThorneDisk", "ThinDiskPL", "DeformedTorus", "InflateStar", "ThinDisk"};
  scn::P ps = scn::make(g, 8, g.pick(ks)); scn::S &s = *ps; c.note << s.desc(); c.label(s.akind); if (!s.nnu) throw pbt::Discard(); SmartPointer<Scenery> a = s.sc, b = s.sc->clone(); b->parallelTransport(true); size_t i = 0, j = 0; scn::Img x(1, s.nnu, scn::QR | scn::QT | scn::QS), y(1, s.nnu, scn::QR | scn::QT | scn::QS | scn::QSQ | scn::QSU | scn::QSV); bool hit = false;
  for (int k = 0; k < 6 && !hit; ++k) { i = 1 + g.below(8); j = 1 + g.below(8); Astrobj::Properties p = x.p; p.init(s.nnu); try { (*a)(i, j, &p); } catch (Gyoto::Error const &e) { throw pbt::Discard(); } hit = x.cell(scn::QS, 0)[0] > 0; } if (!hit) { c.label("missed"); return; } c.note << " pixel " << i << ',' << j;
  try { Astrobj::Properties p = y.p; p.init(s.nnu); (*b)(i, j, &p); } catch (Gyoto::Error const &e) { std::string t((const char *)e); if (t.find("olar") != t.npos || t.find("parallel") != t.npos || t.find("not implemented") != t.npos) { c.label("refused"); throw pbt::Discard(); } throw; }
  double r = x.cell(scn::QR, 0)[0], r2 = y.cell(scn::QR, 0)[0]; if (fabs(r - r2) > 1e-4*fabs(r) || fabs(x.cell(scn::QT, 0)[0] - y.cell(scn::QT, 0)[0]) > 2e-3) { c.label("other-geodesic"); throw pbt::Discard(); } c.nontrivial = true; c.label("hit-" + s.akind); // close to an edge
  double tol = 0.05; for (size_t k = 0; k < s.nnu; ++k) { double I = x.cell(scn::QS, 0)[k], J = y.cell(scn::QS, 0)[k], nu = s.scr->spectrometer()->getMidpoints()[k]; if ((s.akind == "PageThorneDisk" || s.akind == "ThinDiskPL") && log1p(2*6.62606957e-34*pow(nu, 3)/pow(299792458., 2)/I) > 5) { c.label("wien"); continue; } // (amplifies the differences between the two integrations)
    c.check(fabs(J - I) <= tol*fabs(I) || I < 1e-60, "unpolarised/I/" + s.akind, "spectrum with polarisation " + gy::num(J) + ", without " + gy::num(I)); for (int q : {scn::QSQ, scn::QSU, scn::QSV}) c.check(fabs(y.cell(q, 0)[k]) <= 1e-9*fabs(J), "unpolarised/QUV/" + s.akind, std::string(scn::qname(q)) + " = " + gy::num(y.cell(q, 0)[k]) + " for an unpolarised source"); }
}
PBT_SUB(screened, 3000, 60000, "thin disk of the library (Page-Thorne, power-law black body) seen through absorbing layers of any opacity in each channel, hit once or twice; non-trivial: visible spectrum") {
  std::string k = g.pick(std::vector<std::string>{"PageThorneDisk", "ThinDiskPL"}); scn::S s; s.mkind = g.flip() ? "KerrBL" : "KerrKS"; s.akind = k; s.met = scn::metric(g, s.mkind, s.d); s.obj = scn::astrobj(g, k, s.met, s); Astrobj::Generic *o = s.obj; o->opticallyThin(false); bool pt = k[0] == 'P', uni = pt && bool(o->get("UniFlux")), cl = g.flip(); if (uni) throw pbt::Discard(); if (cl) { s.obj = o->clone(); o = s.obj; }
  SmartPointer<Photon> ph = new Photon(); ph->metric(s.met); double fobs = g.logu(1e12, 1e17); ph->freqObs(fobs); c.note << s.desc(); SmartPointer<Spectrometer::Uniform> sp = spectro(g, c.note); ph->spectrometer(sp); size_t n = sp->nSamples(); V T(n); for (double &t : T) t = g.chance(1, 6) ? 1 : g.uni(0, 1); double Tf = g.uni(0, 1); for (size_t i = 0; i < n; ++i) ph->transmit(i, T[i]); ph->transmit(size_t(-1), Tf); c.note << " transmissions"; for (double t : T) c.note << ' ' << t; c.label(k);
  double r = g.uni(8, 14), f = g.uni(0, 6.2), a = double(s.met->get("Spin")), co[8], x = r; if (s.mkind == "KerrKS") { x = sqrt(r*r + a*a); co[1] = x*cos(f); co[2] = x*sin(f); co[3] = 0; } else { co[1] = r; co[2] = M_PI/2; co[3] = f; } co[0] = g.uni(-9, 9); s.met->circularVelocity(co, co + 4, 1); state_t cp(8); for (int i = 0; i < 4; ++i) cp[i] = co[i]; for (int i = 0; i < 3; ++i) cp[5 + i] = g.uni(-1, 1)/(i && s.mkind == "KerrBL" ? r : 1); cp[4] = 1; s.met->nullifyCoord(&cp[0]);
  LD gm = 0; { double gg[4][4]; s.met->gmunu(gg, co); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) gm -= (LD)gg[i][j]*co[4 + i]*cp[4 + j]; } LD gr = 1/gm; scn::Img im(1, n, scn::QS | (pt ? scn::QU : scn::QI)); Astrobj::Properties pr = im.p; pr.init(n); o->processHitQuantities(ph, cp, co, 0.1, &pr);
  auto near = [&](double got, LD want, std::string q) { c.check(fabsl(got - want) <= 1e-9L*fabsl(want) || fabsl(got - want) < 1e-290L, "screened/" + k + "/" + q, q + " = " + gy::num(got) + ", expected " + gy::num((double)want)); };
  V v = im.cell(scn::QS, 0); for (size_t i = 0; i < n; ++i) { LD w = o->emission((double)(sp->getMidpoints()[i]*gm), 1, cp, co)*gr*gr*gr*T[i]; if (w > 0) c.nontrivial = true; near(v[i], w, "Spectrum"); }
  if (pt) near(im.cell(scn::QU, 0)[0], dynamic_cast<Astrobj::PageThorneDisk *>(o)->bolometricEmission((double)(fobs*gm), 1, co)*gr*gr*gr*gr*Tf, "User4"); else near(im.cell(scn::QI, 0)[0], o->emission((double)(fobs*gm), 1, cp, co)*gr*gr*gr*Tf, "Intensity");
  c.check(ph->getTransmissionMax() == 0, "screened/" + k + "/opaque", "light passes through an opaque disk"); o->processHitQuantities(ph, cp, co, 0.1, &pr); V v2 = im.cell(scn::QS, 0); for (size_t i = 0; i < n; ++i) c.check(v2[i] == v[i], "screened/" + k + "/second", "the disk is seen through itself");
}
PBT_SUB(scenery, 500, 15000, "traced pixel of a generated scenery: the stored impact is on the ray of the pixel (null, energy and angular momentum conserved) and the redshift, date, intensity, spectrum of opaque objects follow from it; non-trivial: pixel hit") {
  static std::vector<std::string> ks = {"FixedStar", "Star", "Torus", "PageThorneDisk", "ThinDiskPL", "ThinDisk", "EquatorialHotSpot", "DeformedTorus", "OscilTorus", "ThinDiskIronLine", "PatternDisk", "PatternDiskBB", "InflateStar", "ThickDisk", "PolishDoughnut", "Jet", "Blob", "SphericalAccretion", "StarTrace"};
  scn::P ps = scn::make(g, 8, g.pick(ks)); scn::S &s = *ps; c.note << s.desc(); c.label(s.akind); Astrobj::Generic *o = s.obj; bool thick = !s.thin && s.akind != "EquatorialHotSpot" /* always transparent */, pt = s.akind == "PageThorneDisk", uni = pt && bool(o->get("UniFlux")); if (!pt && g.chance(1, 8)) { o->redshift(false); c.note << " noredshift"; } bool nored = !o->redshift();
  scn::Img im(1, s.nnu, scn::QR | scn::QC | scn::QT | (g.chance(s.akind == "Torus" ? 1 : 3, 4) ? scn::QS : 0) | (pt ? scn::QU : scn::QI)); size_t i = 0, j = 0; bool hit = false; for (int k = 0; k < 6 && !hit; ++k) { i = 1 + g.below(8); j = 1 + g.below(8); Astrobj::Properties pr = im.p; pr.init(s.nnu); try { (*s.sc)(i, j, &pr); } catch (Gyoto::Error const &e) { std::string t = (const char *)e; /* refused: outside the validity of the model */ if (t.find("cosalpha>1") != std::string::npos || t.find("u_t^2 is negative") != std::string::npos) throw pbt::Discard(); throw; } hit = im.d[scn::QC][0] != DBL_MAX; } c.note << " pixel " << i << ',' << j; if (!hit) { c.label("miss"); return; }
  c.nontrivial = true; V ic = im.d[scn::QC]; double *co = &ic[0], *cp = &ic[8]; double r8[8]; s.scr->getRayTriad(i, j, r8, false, NULL, NULL); bool sph = s.met->coordKind() == GYOTO_COORDKIND_SPHERICAL;
  auto low = [&](const double *x, LD k[4]) { double gg[4][4]; s.met->gmunu(gg, x); for (int a = 0; a < 4; ++a) { k[a] = 0; for (int b = 0; b < 4; ++b) k[a] += (LD)gg[a][b]*x[4 + b]; } }; LD k0[4], k1[4]; low(r8, k0); low(cp, k1); LD nn = 0, sc = 0; for (int a = 0; a < 4; ++a) { nn += k1[a]*cp[4 + a]; sc += fabsl(k1[a]*cp[4 + a]); }
  double rad = sph ? cp[1] : sqrt(cp[1]*cp[1] + cp[2]*cp[2] + cp[3]*cp[3]); auto Lz = [&](const double *x, LD *k) -> LD { return sph ? k[3] : x[1]*k[2] - x[2]*k[1]; };
  c.check(fabsl(nn) <= 1e-3*sc, "scenery/null", "tangent of the ray at the impact is not null"); c.close((double)k1[0], (double)k0[0], 1e-3, 0, "scenery/energy", "energy at the impact"); c.close((double)Lz(cp, k1), (double)Lz(r8, k0), 1e-3, 1e-2*rad, "scenery/momentum", "angular momentum at the impact"); c.check(cp[0] < r8[0], "scenery/past", "the impact is not in the past of the observer");
  for (int a = 0; a < 4; ++a) c.close(co[a], cp[a], 1e-9, 1e-9, "scenery/position", "position of the emitter (" + std::to_string(a) + ")");
  if (!thick && !pt) { c.label("thin"); return; } c.label("opaque");
  LD gm = 0; for (int a = 0; a < 4; ++a) gm -= k1[a]*co[4 + a]; if (nored) gm = 1; LD gr = uni ? 1 : 1/gm, g3 = gr*gr*gr; state_t cs(cp, cp + 8);
  bool torus = s.akind == "Torus" && (im.q & scn::QS); // the spectrum of a Torus ignores its Spectrum, Opacity and opaqueness
  auto near = [&](double got, LD want, double tol, std::string q) { c.check(fabsl(got - want) <= tol*fabsl(want) || fabsl(want - got) < 1e-290L, torus ? "scenery/torus-spectrum" : "scenery/" + q + "/" + s.akind, q + " of " + s.akind + " = " + gy::num(got) + ", expected " + gy::num((double)want)); };
  near(im.d[scn::QR][0], gr, 1e-9, "Redshift"); c.close(im.d[scn::QT][0], cp[0], 1e-12, 0, torus ? "scenery/torus-spectrum" : "scenery/EmissionTime/" + s.akind, "EmissionTime");
  if (!pt) near(im.d[scn::QI][0], o->emission((double)(s.scr->freqObs()*gm), 1., cs, co)*g3, 1e-9, "Intensity");
  if (!(im.q & scn::QS)) return; V sp = im.cell(scn::QS, 0); for (size_t k = 0; k < s.nnu; ++k) near(sp[k], o->emission((double)(s.scr->spectrometer()->getMidpoints()[k]*gm), 1., cs, co)*g3, 1e-9, "Spectrum");
}
GY_MAIN
