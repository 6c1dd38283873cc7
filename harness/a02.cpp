// A02: emission and absorption of the matter models, against the physical laws of their
// documentation evaluated independently at the place of emission.
#include "metgen.h"
#include "scn.h"
#include "GyotoStandardAstrobj.h"
#include "GyotoThinDisk.h"
#include "GyotoPageThorneDisk.h"
#include "GyotoPolishDoughnut.h"
#include "GyotoInflateStar.h"
#include "GyotoThermalSynchrotronSpectrum.h"
#include "GyotoPowerLawSynchrotronSpectrum.h"
#include "GyotoThermalBremsstrahlungSpectrum.h"
#include "GyotoEquatorialHotSpot.h"
#include <fstream>
#include <boost/math/special_functions/bessel.hpp>
using namespace Gyoto; using mg::M; using mg::ld; typedef std::vector<double> V;
static const double kB = 1.3806488e-16, me = 9.10938215e-28, mp = 1.67262158e-24, cc = 2.99792458e10, qe = 4.80320427e-10, amu = 1.660538921e-24, Gcgs = 6.67384e-8;
static double K(int n, double x) { return boost::math::cyl_bessel_k(n, x); }
static void velocity(SmartPointer<Astrobj::Generic> const &o, const double *p, double *v) { if (auto s = dynamic_cast<Astrobj::Standard *>((Astrobj::Generic *)o)) s->getVelocity(p, v); else dynamic_cast<Astrobj::ThinDisk *>((Astrobj::Generic *)o)->getVelocity(p, v); }
static double planck(double nu, double T) { const double h = 6.62606957e-34, c = 299792458., k = 1.3806488e-23; return 2*h*nu*nu*nu/(c*c)/expm1(h*nu/(k*T)); }
static ld dot(mg::Ref const &R, const double *a, const double *b) { ld s = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) s += R.g[i][j]*a[i]*b[j]; return s; }
// a photon tangent (null, future directed) at p: random direction in the frame of the unit vector u
static bool photon(pbt::Gen &g, mg::Ref const &R, const double *u, double *k) {
  for (int n = 0; n < 5; ++n) { double d[4] = {g.uni(-1, 1), 0, 0, 0}; for (int i = 1; i < 4; ++i) d[i] = g.uni(-1, 1)/sqrt(double(fabsl(R.g[i][i])) + 1e-300); ld ud = dot(R, u, d); for (int i = 0; i < 4; ++i) d[i] += double(ud)*u[i]; ld n2 = dot(R, d, d); if (n2 < 1e-4) continue; double s = g.logu(0.2, 5); for (int i = 0; i < 4; ++i) k[i] = s*(u[i] + d[i]/sqrt(double(n2))); return true; } return false;
}
struct Plasma { double n = 0, T = 0, B = 0, angle = M_PI/2; bool avg = true; std::string el = "Thermal"; double p = 3, npl = 0; bool brems = false; bool absorb = true, empty = false; };
// emission and absorption coefficients (SI) from fresh spectra
static void coefs(Plasma const &q, V const &nu, V &j, V &a) {
  size_t n = nu.size(); j.assign(n, 0); a.assign(n, 0); if (q.empty) return; double nuc = qe*q.B/(2*M_PI*me*cc), th = kB*q.T/(me*cc*cc); V jj(n), aa(n);
  auto add = [&] { for (size_t i = 0; i < n; ++i) { j[i] += jj[i]; a[i] += aa[i]; } };
  if (q.el == "Thermal") { SmartPointer<Spectrum::ThermalSynchrotron> s = new Spectrum::ThermalSynchrotron(); s->temperature(q.T); s->numberdensityCGS(q.n); s->angle_averaged(q.avg); s->angle_B_pem(q.angle); s->cyclotron_freq(nuc); s->besselK2(K(2, 1/th)); s->radiativeQ(&jj[0], &aa[0], &nu[0], n); add(); }
  if (q.el == "PL" || q.npl > 0) { SmartPointer<Spectrum::PowerLawSynchrotron> s = new Spectrum::PowerLawSynchrotron(); s->numberdensityCGS(q.el == "PL" ? q.n : q.npl); s->angle_averaged(q.avg); s->angle_B_pem(q.angle); s->cyclotron_freq(nuc); s->PLindex(q.p); s->radiativeQ(&jj[0], &aa[0], &nu[0], n); add(); }
  if (q.brems) { SmartPointer<Spectrum::ThermalBremsstrahlung> s = new Spectrum::ThermalBremsstrahlung(); s->temperature(q.T); s->numberdensityCGS(q.n); s->radiativeQ(&jj[0], &aa[0], &nu[0], n); add(); }
}
static double magnet(double sigma, double n) { return sqrt(4*M_PI*sigma*mp*cc*cc*n); }

PBT_SUB(plasma, 40000, 1000000, "random plasma model (jet, thick disk, spherical accretion, blob, doughnut, advection-dominated flow), metric, settings, place, photon, frequencies and path length; non-trivial: the plasma emits there") {
  std::string k = g.pick(std::vector<std::string>{"Jet", "ThickDisk", "SphericalAccretion", "Blob", "PolishDoughnut", "ADAF"}); c.label(k);
  std::string mk = k == "PolishDoughnut" || k == "ADAF" || g.flip() ? "KerrBL" : g.pick(std::vector<std::string>{"MinkowskiSph", "ReissnerNordstrom", "Hayward", "RezzollaZhidenko", "KonoplyaRezzollaZhidenko"});
  M m = mg::make(g, mk); m.negr = false; double *p = m.pos; mg::position(g, m, 40); p[1] = fabs(p[1]); if (p[1] < 1.2*m.rmin) throw pbt::Discard();
  if (mk == "KerrBL" && k == "PolishDoughnut") { m.a = g.uni(0, 0.9); m.met->set("Spin", m.a); m.ref = mg::kerrlike([](mg::ld) { return mg::ld(1); }, m.a); }
  double msun = g.logu(1, 1e10); m.met->mass(msun, "sunmass"); double ul = m.met->unitLength();
  SmartPointer<Astrobj::Generic> o = gy::astrobj(k == "ADAF" ? "PolishDoughnut" : k); o->metric(m.met); std::ostringstream d; d << k << " in " << m.desc << " a=" << m.a; scn::Set s(o, d); Plasma q;
  double n0 = g.logu(1e3, 1e9), T0 = g.logu(3e9, 3e11), sg = g.logu(1e-3, 2), slope = g.uni(0, 2), rin = g.uni(1.5, 6), dslope = g.uni(0, 3), ke = 3; bool self = g.flip(); double r = p[1], rho = r*sin(p[2]), z = r*cos(p[2]), u[4], kk[4]; bool defined = true;
  auto nd = [&](std::string n) { if (g.flip()) s(n, n0, "cm-3"); else s(n, n0*1e6, "m-3"); };
  if (k == "Jet") { bool par = g.flip(); s.b("Parabolic", par); double o1; if (par) { o1 = g.logu(0.02, 1); s("JetShapeOuterParabolaParam", o1)("JetShapeInnerParabolaParam", o1*g.uni(1.1, 5)); } else { o1 = g.uni(0.1, 1.4); s("JetOuterOpeningAngle", o1)("JetInnerOpeningAngle", o1*g.uni(0.1, 0.9)); }
    s("JetInnerRadius", rin)("GammaJet", g.uni(1.05, 3))("JetVphiOverVr", g.flip() ? 0. : g.uni(-1, 1)); nd("BaseNumberDensity"); s("BaseTemperature", T0)("TemperatureSlope", slope)("MagnetizationParameter", sg); double base; if (par) { double lo = 0, hi = rin; for (int i = 0; i < 200; ++i) { double x = (lo + hi)/2; (x*x + o1*o1*x*x*x*x < rin*rin ? lo : hi) = x; } base = lo; } else base = rin*tan(o1);
    q.n = n0*base*base/(rho*rho); q.T = T0*pow(rin/r, slope); q.B = magnet(sg, q.n); }
  else if (k == "ThickDisk") { double zs = g.uni(0.05, 1.5); s.b("UseSelfAbsorption", self); s("ThickDiskInnerRadius", rin)("ThickDiskZGaussianSigma", zs).v("VeloParam", V{g.uni(0.2, 1), g.uni(0.2, 1)}); nd("NumberDensityAtInnerRadius"); s("DensitySlope", dslope)("TemperatureAtInnerRadius", T0)("TemperatureSlope", slope)("MagnetizationParameter", sg); if (r < 1.001*rin) throw pbt::Discard(); q.n = n0*pow(rin/r, dslope)*exp(-z*z/(2*zs*zs*rho*rho)); q.T = T0*pow(rin/r, slope); q.B = magnet(sg, q.n); q.absorb = self; if (q.n < 1.1e-10*n0) { if (q.n > 0.9e-10*n0) throw pbt::Discard(); q.empty = true; } }
  else if (k == "SphericalAccretion") { s.b("UseSelfAbsorption", self); s("SphericalAccretionInnerRadius", rin)("DensitySlope", dslope); nd("NumberDensityAtInnerRadius"); s("TemperatureAtInnerRadius", T0)("TemperatureSlope", slope)("MagnetizationParameter", sg); q.n = n0*pow(rin/r, dslope); q.T = T0*pow(rin/r, slope); q.B = magnet(sg, q.n); q.absorb = self; }
  else if (k == "Blob") { double R = g.uni(0.5, 4), rb = g.uni(8, 30), w = g.sgn()*g.uni(0, 0.5)*pow(rb, -1.5), ph0 = g.uni(0, 6.28), t0 = g.uni(-50, 50), tr = g.uni(-50, 50), ts = g.uni(5, 100); s.s("BlobMotionType", "Equatorial"); s.v("Init4Coord", V{t0, rb, M_PI/2, ph0}); s.v("Init3Velo", V{0, 0, w}); s("Radius", R); nd("NumberDensity"); s("Temperature", T0)("TimeRef", tr, "geometrical_time")("TimeSigma", ts, "geometrical_time")("MagnetizationParameter", sg); q.el = g.flip() ? "Thermal" : "PL"; ke = g.uni(3.2, 6); s.s("ElectronDistribution", q.el); s("KappaIndex", ke); bool tg = g.flip(), sp = g.flip(); s.b("TimeGaussianModulated", tg); s.b("SpaceGaussianModulated", sp);
    double t = p[0] = tr + g.uni(-2, 2)*ts, ph = ph0 + w*(t - t0), X[3] = {rb*cos(ph), rb*sin(ph), 0}, dd[3], l2 = 0; for (int i = 0; i < 3; ++i) { dd[i] = g.uni(-0.57, 0.57)*R; l2 += dd[i]*dd[i]; X[i] += dd[i]; } r = p[1] = sqrt(X[0]*X[0] + X[1]*X[1] + X[2]*X[2]); p[2] = acos(X[2]/r); p[3] = atan2(X[1], X[0]) + 2*M_PI*g.range(-1, 1); double f = (tg ? exp(-(t - tr)*(t - tr)/(ts*ts)) : 1)*(sp ? exp(-l2/(2*R*R/9)) : 1); q.n = n0*f; q.T = T0*f; q.p = ke - 1; q.B = magnet(sg, q.n); }
  else if (k == "ADAF") { s.v("ADAFParameters", V{T0, n0}); s.b("AngleAveraged", true); q.n = n0*pow(r/2, -1.1)*exp(-z*z/(2*rho*rho)); q.T = T0*pow(r/2, -0.84); q.B = sqrt(8*M_PI/10*q.n*mp*cc*cc*2/(12*r)); if (fabs(z) > 9.9*rho) { if (fabs(z) < 10.1*rho) throw pbt::Discard(); q.empty = true; } if (q.B < 1.1e-5) { if (q.B > 0.9e-5) throw pbt::Discard(); q.empty = true; } if (g.flip()) { q.brems = true; s.b("Bremsstrahlung", true); } }
  else { double lam = g.uni(0.1, 0.9), H = g.logu(1e-5, 1e2), beta = g.logu(0.3, 30); s("Lambda", lam); s("CentralEnthalpyPerUnitVolume", H, "J.m-3")("CentralTemperature", T0)("Beta", beta); q.avg = g.flip(); s.b("AngleAveraged", q.avg); bool mag = g.flip(); if (mag) s("MagnetizationParameter", sg); q.brems = g.flip(); s.b("Bremsstrahlung", q.brems); double del = 0; if (g.flip()) { del = g.uni(0, 0.2); q.p = g.uni(2.2, 5); s.v("NonThermalDeltaExpo", V{del, q.p}); }
    auto pd = dynamic_cast<Astrobj::PolishDoughnut *>((Astrobj::Generic *)o); double rc = pd->getRcentre(), rcu = pd->getRcusp(); ld l = pd->getL0(); r = p[1] = rcu + (rc - rcu)*g.uni(0.3, 2.5); p[2] = M_PI/2 + g.uni(-0.3, 0.3); auto W = [&](double rr, double th) { double x[4] = {0, rr, th, 0}; mg::Ref A = mg::reference(m, x); ld y = -(A.gup[0][0] - 2*l*A.gup[0][3] + l*l*A.gup[3][3]); return y > 0 ? logl(y)/2 : -9; }; auto LL = [&](double rr, double th) { double x[4] = {0, rr, th, 0}; mg::Ref A = mg::reference(m, x); return A.g[0][3]*A.g[0][3] - A.g[0][0]*A.g[3][3]; };
    ld ws = W(rcu, M_PI/2), wc = W(rc, M_PI/2), w = (W(r, p[2]) - ws)/(wc - ws); if (w < 1e-3) throw pbt::Discard(); ld h = ld(H)*10, e = 2.L/3, ka, km = 0; if (q.avg) ka = powl(h, -e)*(wc - ws)/2.5L; else { ka = powl(h, -e)*(wc - ws)/(2.5L*(1 + 1/ld(beta))); km = powl(LL(rc, M_PI/2), -e)/beta*ka; } ld en = h*powl(w*(ka + km*powl(LL(rc, M_PI/2), e))/(ka + km*powl(LL(r, p[2]), e)), 1.5L), mu = 2/(1 + 0.75L), ne = (en - ka*powl(en, 1 + e))/(cc*cc*mu*amu), nc = (h - ka*powl(h, 1 + e))/(cc*cc*mu*amu); q.n = ne; q.T = T0*powl(ne/nc, e); q.B = mag ? magnet(sg, q.n) : q.avg ? sqrt(double(24*M_PI*ka*powl(en, 1 + e)/beta)) : sqrt(double(8*M_PI*km*powl(LL(r, p[2]), e)*powl(en, 1 + e)));
    double th = kB*q.T/(me*cc*cc); if (th < 0.012) throw pbt::Discard(); double ct = (3*K(3, 1/th) + K(1, 1/th))/(4*K(2, 1/th)) - 1; q.npl = (q.p - 2)/(q.p - 1)*del*ct*q.n; if (q.B < 2e-5) throw pbt::Discard(); }
  mg::Ref R = mg::reference(m, p); try { velocity(o, p, u); } catch (Gyoto::Error const &) { throw pbt::Discard(); } for (double x : u) if (!(fabs(x) < 1e6)) throw pbt::Discard(); if (!(fabsl(dot(R, u, u) + 1) < 1e-5)) { c.label("no-frame"); throw pbt::Discard(); }
  if (!photon(g, R, u, kk)) throw pbt::Discard(); if (k == "PolishDoughnut" && !q.avg) { ld l = dynamic_cast<Astrobj::PolishDoughnut *>((Astrobj::Generic *)o)->getL0(); double b[4] = {double(l), 0, 0, 1}; ld nb = sqrtl(dot(R, b, b)); q.angle = acosl(dot(R, kk, b)/nb/-dot(R, kk, u)); if (sin(q.angle) < 0.05) throw pbt::Discard(); }
  double th = kB*q.T/(me*cc*cc); if (!q.empty && q.el == "Thermal" && (th < 0.02 || q.B < 1e-12)) throw pbt::Discard(); if (!(q.n > 1e-25) && !q.empty) throw pbt::Discard();
  size_t nn = 1 + g.below(4); V nu(nn), I(nn, -7), T(nn, -7), j, a; double nuc = qe*q.B/(2*M_PI*me*cc); for (auto &x : nu) x = q.empty ? 1e11 : nuc*g.logu(1, 1e6)*(1 + th); double ds = g.logu(1e-4, 10); state_t ph(8); double co[8]; for (int i = 0; i < 4; ++i) { ph[i] = co[i] = p[i]; ph[4 + i] = kk[i]; co[4 + i] = u[i]; }
  c.note << d.str() << " at"; for (int i = 0; i < 4; ++i) c.note << ' ' << std::setprecision(12) << p[i]; c.note << " photon"; for (double x : kk) c.note << ' ' << x; c.note << " nu"; for (double x : nu) c.note << ' ' << x; c.note << " ds " << ds << " [n=" << q.n << " T=" << q.T << " B=" << q.B << " angle=" << q.angle << "]";
  coefs(q, nu, j, a); for (size_t i = 0; i < nn; ++i) if (!(j[i] >= 0) || !(a[i] >= 0) || !(j[i] < 1e200) || !(a[i] < 1e200)) throw pbt::Discard(); (void)defined;
  try { o->radiativeQ(&I[0], &T[0], &nu[0], nn, ds, ph, co); } catch (Gyoto::Error const &e) { std::string t = (const char *)e; if (t.find("infinite") != t.npos || t.find("nan") != t.npos) throw pbt::Discard(); throw; }
  for (size_t i = 0; i < nn; ++i) { double al = q.absorb ? a[i] : 0, tau = al*ds*ul, w = j[i]*ds*ul*(tau < 1e-300 ? 1 : -expm1(-tau)/tau), tr = exp(-tau); if (j[i] > 1e-250) c.nontrivial = true; double tol = 2e-5*(1 + (k == "PolishDoughnut" ? 100 : 0)); // rounding of the physical constants
    c.close(I[i], w, tol*(1 + log1p(w > 0 ? fabs(log(w)) : 0)), 1e-280, "plasma/" + k + "/intensity", "intensity of channel " + std::to_string(i)); c.close(T[i], tr, 0, tol*std::max(1e-3, tau*tr) + 1e-9, "plasma/" + k + "/transmission", "transmission of channel " + std::to_string(i)); }
  // no memory: other evaluations and a clone in between change nothing
  V I2(nn), T2(nn), j2; { state_t ph2(ph); ph2[1] *= 1.05; double co2[8]; std::copy(co, co + 8, co2); co2[1] *= 1.05; V x(nn), y(nn); try { o->radiativeQ(&x[0], &y[0], &nu[0], nn, 2*ds, ph2, co2); } catch (Gyoto::Error const &) {} } SmartPointer<Astrobj::Generic> o2 = g.flip() ? SmartPointer<Astrobj::Generic>(o->clone()) : o; o2->radiativeQ(&I2[0], &T2[0], &nu[0], nn, ds, ph, co); for (size_t i = 0; i < nn; ++i) { c.close(I2[i], I[i], 1e-13, 0, "plasma/" + k + "/memory", "intensity computed again"); c.close(T2[i], T[i], 1e-13, 0, "plasma/" + k + "/memory", "transmission computed again"); }
  // the increments along a path add up: two halves make the whole
  if (q.absorb || true) { V Ia(nn), Ta(nn); o->radiativeQ(&Ia[0], &Ta[0], &nu[0], nn, ds/2, ph, co); for (size_t i = 0; i < nn; ++i) { c.close(Ia[i]*(1 + Ta[i]), I[i], 1e-9, 1e-290, "plasma/" + k + "/halves", "two half steps against one"); c.close(Ta[i]*Ta[i], T[i], 1e-9, 1e-12, "plasma/" + k + "/halves", "transmission of two half steps"); } }
}

PBT_SUB(disk, 100000, 2000000, "random thin disk (Page-Thorne, power-law black body, iron line, hot spot, profile), metric, settings, place on the disk, photon and frequency; non-trivial: the disk emits there") {
  std::string k = g.pick(std::vector<std::string>{"PageThorneDisk", "ThinDiskPL", "ThinDiskIronLine", "EquatorialHotSpot"}); c.label(k);
  std::string mk = k == "PageThorneDisk" ? g.pick(std::vector<std::string>{"KerrBL", "KerrKS"}) : g.pick(std::vector<std::string>{"KerrBL", "KerrBL", "KerrKS", "MinkowskiSph", "Minkowski", "ReissnerNordstrom"});
  M m = mg::make(g, mk); m.negr = false; double *p = m.pos; double msun = g.chance(1, 4) ? 0 : g.logu(1, 1e9); if (msun) m.met->mass(msun, "sunmass");
  if (k == "PageThorneDisk") { m.a = g.chance(1, 5) ? 0 : g.uni(0, 0.998); m.met->set("Spin", m.a); } double a = m.a;
  SmartPointer<Astrobj::Generic> o = gy::astrobj(k); std::ostringstream d; d << k << " in " << m.desc << " a=" << m.a << " mass " << msun; scn::Set s(o, d); bool late = g.flip(); if (!late) o->metric(m.met);
  double want, r = g.uni(2, 40), ph = g.uni(0, 6.28), t = g.uni(-100, 100), nu = g.logu(1e9, 1e19), tol = 1e-9; auto place = [&](double rho, double f) { p[0] = t; if (m.spherical) { p[1] = rho; p[2] = M_PI/2; p[3] = f; } else { p[1] = rho*cos(f); p[2] = rho*sin(f); p[3] = 0; } }; state_t cp(8); double co[8]; auto fill = [&] { for (int i = 0; i < 4; ++i) { cp[i] = co[i] = p[i]; cp[4 + i] = 0; co[4 + i] = 0; } };
  if (k == "ThinDiskPL") { double rin = g.uni(2, 8), sl = g.uni(-2, 1), T = g.logu(1e3, 1e9); s("InnerRadius", rin)("Slope", sl)("Tinner", T); want = planck(nu, T*pow(r/rin, sl)); tol = 1e-5; place(r, ph); double x = 6.62606957e-34*nu/(1.3806488e-23*T*pow(r/rin, sl)); if (x > 600 || x < 1e-7) throw pbt::Discard(); tol *= 1 + x; if (late) o->metric(m.met); fill(); c.nontrivial = want > 0; c.note << d.str() << " r=" << r << " nu=" << nu; c.close(o->emission(nu, 1, cp, co), want, tol, 0, "disk/" + k, "emission"); }
  else if (k == "ThinDiskIronLine") { double ix = g.uni(-2, 4), lf = g.logu(1e15, 1e19), cut = g.uni(2, 20); if (g.flip()) { s("PowerLawIndex", ix)("LineFreq", lf, "Hz"); } else s("PowerLawIndex", ix)("LineFreq", lf/2.417989348e17, "keV"); s("CutRadius", cut); nu = lf*(1 + g.pickd({0, 0.5, 0.9, 1.1, 2, 30})*0.01*g.sgn()*g.uni(0.95, 1.05)); if (fabs(fabs(nu/lf - 1) - 0.01) < 1e-4 || fabs(r/cut - 1) < 1e-9) throw pbt::Discard(); want = fabs(nu/lf - 1) < 0.01 && r > cut ? pow(r, -ix) : 0; place(r, ph); if (late) o->metric(m.met); fill(); c.nontrivial = want > 0; c.note << d.str() << " r=" << r << " nu=" << nu; c.close(o->emission(nu, 1, cp, co), want, 1e-12, 0, "disk/" + k, "emission"); }
  else if (k == "PageThorneDisk") {
    double md = g.chance(1, 4) ? 1 : g.logu(1e-6, 1e22); if (late) o->metric(m.met); if (md != 1 || g.flip()) s("Mdot", md); bool phys = msun && md != 1;
    // independent flux: -Omega,r/(E-Omega L)^2 * integral from the marginally stable orbit of (E - Omega L) L,r
    auto ELO = [&](ld rr, ld &E, ld &L, ld &Om) { ld q = sqrtl(1 - 3/rr + 2*ld(a)/(rr*sqrtl(rr))); E = (1 - 2/rr + ld(a)/(rr*sqrtl(rr)))/q; L = sqrtl(rr)*(1 - 2*ld(a)/(rr*sqrtl(rr)) + ld(a)*a/(rr*rr))/q; Om = 1/(rr*sqrtl(rr) + a); };
    ld z1 = 1 + cbrtl(1 - ld(a)*a)*(cbrtl(1 + a) + cbrtl(1 - a)), z2 = sqrtl(3*ld(a)*a + z1*z1), ms = 3 + z2 - sqrtl((3 - z1)*(3 + z1 + 2*z2)); r = double(ms)*g.logu(1.02, 10); ld I = 0; int N = 400; ld lo = logl(ms), h = (logl(r) - lo)/N; auto f = [&](ld x) { ld rr = expl(x), E, L, Om, E2, L2, O2, e = 1e-4L*rr; ELO(rr + e, E2, L2, O2); ld E1, L1, O1; ELO(rr - e, E1, L1, O1); ELO(rr, E, L, Om); return (E - Om*L)*(L2 - L1)/(2*e)*rr; }; for (int i = 0; i < N; ++i) I += h/6*(f(lo + i*h) + 4*f(lo + (i + 0.5L)*h) + f(lo + (i + 1)*h));
    ld E, L, Om; ELO(r, E, L, Om); ld dOm = -1.5L*sqrtl(ld(r))*Om*Om, F = -dOm/((E - Om*L)*(E - Om*L))*I/(4*M_PIl*r); double Ib = double(F)/M_PI*1e-3; double Mg = msun*1.98855e33; if (phys) Ib *= md*pow(cc, 6)/(Gcgs*Gcgs*Mg*Mg); place(m.spherical ? r : sqrt(r*r + a*a), ph); fill(); c.nontrivial = true; tol = phys ? 3e-4 : 2e-6; c.note << d.str() << " r=" << r << " nu=" << nu;
    auto pt = dynamic_cast<Astrobj::PageThorneDisk *>((Astrobj::Generic *)o); c.close(pt->bolometricEmission(nu, 1, co), Ib, tol, 0, "disk/PageThorneDisk/flux", "bolometric intensity"); c.label(phys ? "physical" : "natural");
    double T = pow(M_PI*Ib/5.670373e-8, 0.25), x = 6.62606957e-34*nu/(1.3806488e-23*T); if (x < 300 && x > 1e-9) c.close(pt->emission(nu, 1, cp, co), planck(nu, T), tol*(1 + x) + 1e-6, 0, "disk/PageThorneDisk/spectrum", "black-body intensity"); else c.label("cold");
    double rms = o->get("InnerRadius"); if (late) c.close(rms, double(ms), 1e-9, 0, "disk/PageThorneDisk/inner", "default inner radius"); }
  else { double rs = g.uni(8, 20), sz = g.uni(0.3, 4), f0 = g.uni(0, 6.28); if (m.kind == "KerrBL" && 0) rs += 1; V ci; o->metric(m.met); try { ci = scn::circ(m.met, rs, f0, 0); } catch (Gyoto::Error const &) { throw pbt::Discard(); } for (double x : ci) if (!(fabs(x) < 1e9)) throw pbt::Discard(); V ve = {ci[5]/ci[4], ci[6]/ci[4], ci[7]/ci[4]}; auto hs = dynamic_cast<Astrobj::EquatorialHotSpot *>((Astrobj::Generic *)o); hs->setInitCoord(&ci[0], &ve[0]); d << " spot r=" << rs << " phi=" << f0; s("SpotRadSize", sz); std::string b = g.pick(std::vector<std::string>{"IsotropicBeaming", "IsotropicBeaming", "IsotropicConstant", "NormalBeaming", "RadialBeaming"}); s.s("BeamingKind", b); t = g.uni(-30, 30); double xy[4] = {t}, vv[4]; if (m.spherical) { } double Om = m.spherical ? ve[2] : (ci[1]*ve[1] - ci[2]*ve[0])/(rs*rs), fs = f0 + Om*t, X = rs*cos(fs), Y = rs*sin(fs); (void)xy;
    double dx = g.uni(-1, 1)*g.pickd({1, 2.5, 5})*sz, dy = g.uni(-1, 1)*g.pickd({1, 2.5, 5})*sz, d2 = dx*dx + dy*dy; X += dx; Y += dy; place(hypot(X, Y), atan2(Y, X)); if (hypot(X, Y) < 1.2*m.rmin + 0.5 || fabs(d2/(16*sz*sz) - 1) < 1e-3) throw pbt::Discard(); fill(); mg::Ref R = mg::reference(m, p); velocity(o, p, vv); double kk[4], cosa = 0; bool beam = b == "NormalBeaming" || b == "RadialBeaming"; 
    double w4[4]; { double pc[4] = {t, rs, M_PI/2, fs}; if (!m.spherical) { pc[1] = rs*cos(fs); pc[2] = rs*sin(fs); pc[3] = 0; } m.met->circularVelocity(pc, w4); } ld nn = dot(R, w4, w4); double uu[4]; if (!(nn < -1e-3)) throw pbt::Discard(); for (int i = 0; i < 4; ++i) uu[i] = w4[i]/sqrt(double(-nn)); if (!photon(g, R, uu, kk)) throw pbt::Discard(); for (int i = 0; i < 4; ++i) { cp[4 + i] = kk[i]; co[4 + i] = vv[i]; } if (beam) { cosa = double(sqrtl(R.g[m.spherical ? 2 : 3][m.spherical ? 2 : 3])*fabsl(kk[m.spherical ? 2 : 3])/fabsl(dot(R, kk, w4))); if (cosa > 0.999999) throw pbt::Discard(); }
    double G = exp(-d2/(2*sz*sz)); want = d2 > 16*sz*sz ? 0 : b == "IsotropicBeaming" ? G : b == "IsotropicConstant" ? 1 : b == "NormalBeaming" ? cosa*cosa*G : (1 - cosa)*(1 - cosa)*G; c.nontrivial = want > 0; c.label(b); c.note << d.str() << " t=" << t << " offset " << dx << ' ' << dy; double sc = rs*1e-4*(1 + fabs(t)*0.02); c.close(o->emission(nu, 1, cp, co), want, 0, 1e-6 + 4*sc/sz*G*sqrt(d2)/sz + sc/sz*G + (b == "RadialBeaming" ? 1e-5 : 0), "disk/EquatorialHotSpot", b); }
}

PBT_SUB(polar, 6000, 150000, "random polarised plasma model (jet, thick disk, blob), metric, settings, field geometry, place, photon and frequencies, on an optically thin path; non-trivial: linearly polarised emission") {
  std::string k = g.pick(std::vector<std::string>{"Jet", "ThickDisk", "Blob"}); c.label(k); std::string mk = g.flip() ? "KerrBL" : g.pick(std::vector<std::string>{"MinkowskiSph", "ReissnerNordstrom"});
  M m = mg::make(g, mk); m.negr = false; double *p = m.pos; mg::position(g, m, 40); p[1] = fabs(p[1]); if (p[1] < 1.3*m.rmin) throw pbt::Discard(); m.met->mass(g.logu(1, 1e10), "sunmass"); double ul = m.met->unitLength();
  SmartPointer<Astrobj::Generic> o = gy::astrobj(k); o->metric(m.met); std::ostringstream d; d << k << " in " << m.desc << " a=" << m.a; scn::Set s(o, d); Plasma q; q.avg = false;
  double n0 = g.logu(1e3, 1e9), T0 = g.logu(3e10, 3e11), sg = g.logu(1e-3, 2), slope = g.uni(0, 1), rin = g.uni(1.5, 6), dslope = g.uni(0, 3), r = p[1], rho = r*sin(p[2]), z = r*cos(p[2]), u[4], kk[4];
  std::string cfg = g.pick(std::vector<std::string>{"Vertical", "Radial", "Toroidal", "Poloidal"}); s.s("MagneticConfiguration", cfg);
  if (k == "Jet") { double o1 = g.uni(0.1, 1.4); s.b("Parabolic", false); s("JetOuterOpeningAngle", o1)("JetInnerOpeningAngle", o1*g.uni(0.1, 0.9))("JetInnerRadius", rin)("GammaJet", g.uni(1.05, 3))("JetVphiOverVr", g.flip() ? 0. : g.uni(-1, 1))("BaseNumberDensity", n0, "cm-3")("BaseTemperature", T0)("TemperatureSlope", slope)("MagnetizationParameter", sg); q.n = n0*pow(rin*tan(o1)/rho, 2); q.T = T0*pow(rin/r, slope); q.B = magnet(sg, q.n); }
  else if (k == "ThickDisk") { double zs = g.uni(0.05, 1.5); s("ThickDiskInnerRadius", rin)("ThickDiskZGaussianSigma", zs).v("VeloParam", V{g.uni(0.2, 1), g.uni(0.2, 1)})("NumberDensityAtInnerRadius", n0, "cm-3")("DensitySlope", dslope)("TemperatureAtInnerRadius", T0)("TemperatureSlope", slope)("MagnetizationParameter", sg); q.n = n0*pow(rin/r, dslope)*exp(-z*z/(2*zs*zs*rho*rho)); q.T = T0*pow(rin/r, slope); q.B = magnet(sg, q.n); if (fabs(r/rin - 1) < 1e-6) throw pbt::Discard(); if (r < rin || q.n < 0.9e-10*n0) q.empty = true; else if (q.n < 1.1e-10*n0) throw pbt::Discard(); }
  else { double R = g.uni(0.5, 4), rb = g.uni(8, 30), w = g.sgn()*g.uni(0, 0.5)*pow(rb, -1.5), ph0 = g.uni(0, 6.28), t0 = g.uni(-50, 50), tr = g.uni(-50, 50), ts = g.uni(5, 100); s.s("BlobMotionType", "Equatorial"); s.v("Init4Coord", V{t0, rb, M_PI/2, ph0}); s.v("Init3Velo", V{0, 0, w}); s("Radius", R)("NumberDensity", n0, "cm-3")("Temperature", T0)("TimeRef", tr, "geometrical_time")("TimeSigma", ts, "geometrical_time")("MagnetizationParameter", sg); q.el = g.flip() ? "Thermal" : "PL"; double ke = g.uni(3.2, 6); s.s("ElectronDistribution", q.el); s("KappaIndex", ke); bool tg = g.flip(), sp = g.flip(); s.b("TimeGaussianModulated", tg); s.b("SpaceGaussianModulated", sp);
    double t = p[0] = tr + g.uni(-0.7, 0.7)*ts, ph = ph0 + w*(t - t0), X[3] = {rb*cos(ph), rb*sin(ph), 0}, dd, l2 = 0; for (int i = 0; i < 3; ++i) { dd = g.uni(-0.4, 0.4)*R; l2 += dd*dd; X[i] += dd; } r = p[1] = sqrt(X[0]*X[0] + X[1]*X[1] + X[2]*X[2]); p[2] = acos(X[2]/r); p[3] = atan2(X[1], X[0]); double f = (tg ? exp(-(t - tr)*(t - tr)/(ts*ts)) : 1)*(sp ? exp(-l2/(2*R*R/9)) : 1); q.n = n0*f; q.T = T0*f; q.p = ke - 1; q.B = magnet(sg, q.n); }
  mg::Ref R = mg::reference(m, p); try { velocity(o, p, u); } catch (Gyoto::Error const &) { throw pbt::Discard(); } for (double x : u) if (!(fabs(x) < 1e6)) throw pbt::Discard(); if (!(fabsl(dot(R, u, u) + 1) < 1e-8)) { c.label("no-frame"); throw pbt::Discard(); } if (!photon(g, R, u, kk)) throw pbt::Discard();
  // polarisation basis: two unit vectors orthogonal to the photon and to the emitter
  double n[4], e[2][4]; ld ku = -dot(R, kk, u); for (int i = 0; i < 4; ++i) n[i] = kk[i]/double(ku) - u[i]; for (int a = 0; a < 2; ++a) { double v[4]; for (int i = 0; i < 4; ++i) v[i] = g.uni(-1, 1)/sqrt(double(fabsl(R.g[i][i]))); for (int it = 0; it < 3; ++it) { ld x = dot(R, v, u), y = dot(R, v, n), w = a ? dot(R, v, e[0]) : 0; for (int i = 0; i < 4; ++i) v[i] += double(x)*u[i] - double(y)*n[i] - (a ? double(w)*e[0][i] : 0); } ld nn = dot(R, v, v); if (nn < 1e-2) throw pbt::Discard(); for (int i = 0; i < 4; ++i) e[a][i] = v[i]/sqrt(double(nn)); }
  state_t ph(16); double co[8]; for (int i = 0; i < 4; ++i) { ph[i] = co[i] = p[i]; ph[4 + i] = kk[i]; ph[8 + i] = e[0][i]; ph[12 + i] = e[1][i]; co[4 + i] = u[i]; }
  // direction of the field in the rest frame: the named direction made orthogonal to the velocity (P01 checks the construction; here only the angle with the photon is used)
  double B4[4]; try { o->computeB4vect(B4, cfg, co, ph); } catch (Gyoto::Error const &) { throw pbt::Discard(); } ld nb = sqrtl(dot(R, B4, B4)), cb = dot(R, B4, n)/nb; if (!(fabsl(cb) < 0.995L)) throw pbt::Discard(); q.angle = acosl(cb);
  size_t nn = 1 + g.below(3); V nu(nn); double th = kB*q.T/(me*cc*cc), nuc = qe*q.B/(2*M_PI*me*cc); if (!q.empty && (th < 0.3 || q.B < 1e-8)) throw pbt::Discard(); for (auto &x : nu) x = q.empty ? 1e11 : nuc*g.logu(10, 1e5)*(1 + th);
  c.note << d.str() << " at"; for (int i = 0; i < 4; ++i) c.note << ' ' << std::setprecision(12) << p[i]; c.note << " photon"; for (double x : kk) c.note << ' ' << x; c.note << " nu"; for (double x : nu) c.note << ' ' << x; c.note << " [n=" << q.n << " T=" << q.T << " B=" << q.B << " angle=" << q.angle << "]";
  V j[4], a[4], f[3]; for (auto *w : {j, j + 1, j + 2, j + 3, a, a + 1, a + 2, a + 3, f, f + 1, f + 2}) w->assign(nn, 0);
  if (!q.empty) { if (q.el == "Thermal") { SmartPointer<Spectrum::ThermalSynchrotron> S = new Spectrum::ThermalSynchrotron(); S->temperature(q.T); S->numberdensityCGS(q.n); S->angle_averaged(false); S->angle_B_pem(q.angle); S->cyclotron_freq(nuc); S->besselK2(K(2, 1/th)); S->radiativeQ(&j[0][0], &j[1][0], &j[2][0], &j[3][0], &a[0][0], &a[1][0], &a[2][0], &a[3][0], &f[0][0], &f[1][0], &f[2][0], &nu[0], nn); }
    else { SmartPointer<Spectrum::PowerLawSynchrotron> S = new Spectrum::PowerLawSynchrotron(); S->numberdensityCGS(q.n); S->angle_averaged(false); S->angle_B_pem(q.angle); S->cyclotron_freq(nuc); S->PLindex(q.p); S->radiativeQ(&j[0][0], &j[1][0], &j[2][0], &j[3][0], &a[0][0], &a[1][0], &a[2][0], &a[3][0], &f[0][0], &f[1][0], &f[2][0], &nu[0], nn); } }
  double big = 1e-30; for (size_t i = 0; i < nn; ++i) for (auto *w : {a, a + 1, a + 2, a + 3, f, f + 1, f + 2}) { if (!((*w)[i] < 1e100)) throw pbt::Discard(); big = std::max(big, fabs((*w)[i])); } double ds = std::min(1., g.logu(1e-7, 1e-4)/(big*ul)), de = big*ds*ul; if (!(ds > 0)) throw pbt::Discard();
  V St[4]; for (auto &w : St) w.assign(nn, -7); std::vector<Eigen::Matrix4d> O(nn); try { o->radiativeQ(&St[0][0], &St[1][0], &St[2][0], &St[3][0], &O[0], &nu[0], nn, ds, ph, co); } catch (Gyoto::Error const &er) { std::string t = (const char *)er; if (t.find("infinite") != t.npos || t.find("is nan") != t.npos) throw pbt::Discard(); throw; }
  for (size_t i = 0; i < nn; ++i) { double L = ds*ul, jl = hypot(j[1][i], j[2][i]), tol = 1e-3 + 3*de; if (!(j[0][i]*L > 1e-100) && !q.empty) continue; if (jl > 0.01*j[0][i]) c.nontrivial = true; c.close(St[0][i], j[0][i]*L, tol, 0, "polar/" + k + "/I", "intensity of channel " + std::to_string(i)); c.close(hypot(St[1][i], St[2][i]), jl*L, tol, 1e-3*j[0][i]*L, "polar/" + k + "/linear", "linear polarisation of channel " + std::to_string(i)); c.close(St[3][i], j[3][i]*L, tol, 1e-3*j[0][i]*L*(1 + de/1e-3), "polar/" + k + "/V", "circular polarisation of channel " + std::to_string(i)); if (!q.empty) c.close(1 - O[i](0, 0), a[0][i]*L, 1e-2, 1e-9 + de*de, "polar/" + k + "/absorption", "absorption of channel " + std::to_string(i)); else c.close(O[i](0, 0), 1, 1e-12, 0, "polar/" + k + "/absorption", "transmission of the void"); }
}

PBT_SUB(torus, 4000, 60000, "random oscillating torus with a table of cross-section areas, date; inflating star and date; non-trivial: date between two rows of the table, or within the inflation") {
  std::ostringstream d; static int serial = 0; if (g.flip()) {
    M m = mg::make(g, "KerrBL"); SmartPointer<Astrobj::Generic> o = gy::astrobj("OscilTorus"); o->metric(m.met); scn::Set s(o, d); double C = g.uni(9.5, 15); s("LargeRadius", C)("PolyCst", 1e-3)("PolyIndex", 1.5)("CentralDensity", 1.); s.l("Mode", 0); std::string pk = g.pick(std::vector<std::string>{"Radial", "Plus", "Breathing"}); s.s("PerturbKind", pk); s("PerturbIntens", 0.1); s.b("OpticallyThin", false); if (fabs(m.a) > 0.9) throw pbt::Discard();
    double n = 1.5, wr = 1 - 6/C + 8*m.a*pow(C, -1.5) - 3*m.a*m.a/(C*C), wt = 1 - 4*m.a*pow(C, -1.5) + 3*m.a*m.a/(C*C), S_ = wr + wt, D = sqrt(4*n*(n + 1)*(wr - wt)*(wr - wt) + S_*S_), sg = pk == "Radial" ? sqrt(wr) : sqrt(((2*n + 1)*S_ + (pk == "Plus" ? -D : D))/(2*n)), P = 2*M_PI/(sg/(pow(C, 1.5) + m.a)); int N = 4 + g.below(20); V tt(N), ar(N); for (int i = 0; i < N; ++i) { tt[i] = P*i/(N - 1); ar[i] = g.uni(0.3, 2); } ar[N - 1] = ar[0];
    const char *scr = getenv("GYOTO_VERIF_SCRATCH"); std::string fn = std::string(scr ? scr : "/tmp") + "/area-" + std::to_string(getpid()) + "-" + std::to_string(serial++ % 4) + ".txt"; { std::ofstream f(fn); f << std::setprecision(17); for (int i = 0; i < N; ++i) f << tt[i] << ' ' << ar[i] << '\n'; } o->set("EmittingArea", Value(fn)); unlink(fn.c_str());
    double ph = g.uni(0.001, 0.999)*P, t = ph + P*g.range(-4, 4); int i = 1; while (tt[i] < ph) ++i; if (i >= N - 1) throw pbt::Discard(); double w = (ph - tt[i-1])/(tt[i] - tt[i-1]), area = ar[i-1] + w*(ar[i] - ar[i-1]); state_t cp(8); double co[8] = {}; cp[0] = co[0] = t; cp[1] = co[1] = C; cp[2] = co[2] = M_PI/2; c.note << d.str() << " a=" << m.a << " table of " << N << ", t=" << t << " = " << t/P << " periods"; c.nontrivial = true; c.close(o->emission(1e17, 1, cp, co), 1/area, 1e-5, 0, "torus/OscilTorus", "emission scaled by the area"); }
  else { M m = mg::make(g, g.flip() ? "KerrBL" : "Minkowski"); m.met->mass(g.logu(1, 1e9), "sunmass"); SmartPointer<Astrobj::Generic> o = gy::astrobj("InflateStar"); o->metric(m.met); scn::Set s(o, d); double R0 = g.uni(0.5, 4), R1 = g.uni(0.5, 8), t0 = g.uni(-50, 50), t1 = t0 + g.uni(1, 60); bool thin = g.flip(); s("Radius", R0)("TimeInflateInit", t0, "geometrical_time")("TimeInflateStop", t1, "geometrical_time")("RadiusStop", R1, "geometrical"); SmartPointer<Spectrum::Generic> sp = gy::spectrum("PowerLaw"), op = gy::spectrum("PowerLaw"); double ex = g.uni(-2, 2), k0 = g.logu(0.1, 10), nu = g.logu(1e9, 1e18); sp->set("Exponent", Value(ex)); sp->set("Constant", Value(k0)); op->set("Exponent", Value(0.)); op->set("Constant", Value(0.3)); o->set("Spectrum", Value(sp)); o->set("Opacity", Value(op)); s.b("OpticallyThin", thin);
    double t = g.uni(t0 - 20, t1 + 20), R = t <= t0 ? R0 : t >= t1 ? R1 : R0 + (R1 - R0)*(t - t0)/(t1 - t0), ds = g.logu(1e-3, 3), tau = 0.3*ds, want = k0*pow(nu, ex)*pow(R0/R, 3)*(thin ? -expm1(-tau) : 1); auto st = dynamic_cast<Astrobj::InflateStar *>((Astrobj::Generic *)o); c.note << d.str() << " t=" << t << " ds=" << ds << " thin=" << thin; c.nontrivial = t > t0 && t < t1; c.close(st->radiusAt(t), R, 1e-12, 0, "torus/InflateStar", "radius"); state_t cp(8); double co[8] = {}; cp[0] = co[0] = t; c.close(o->emission(nu, ds, cp, co), want, 1e-9, 0, "torus/InflateStar", "emission"); }
}
GY_MAIN
