// W01: emission laws of the spectra.
#include "gy.h"
#include "GyotoPowerLawSpectrum.h"
#include "GyotoBlackBodySpectrum.h"
#include "GyotoThermalBremsstrahlungSpectrum.h"
#include "GyotoThermalSynchrotronSpectrum.h"
#include "GyotoPowerLawSynchrotronSpectrum.h"
#include "GyotoKappaDistributionSynchrotronSpectrum.h"
#include "GyotoUtils.h"
using namespace Gyoto;
typedef long double LD;
// constants (CGS) as documented by the library
static LD const E = 4.80320427e-10L, ME = 9.10938188e-28L, CL = 2.99792458e10L, KB = 1.3806504e-16L, HP = 6.62606896e-27L, PI = M_PIl;
static bool nr(double a, LD b, double t) { if (a == b) return true; return fabsl(a - b) <= t*std::max<LD>(fabsl(a), fabsl(b)) || (fabs(a) < 1e-290 && fabsl(b) < 1e-290L); }
static LD planck(LD nu, LD T) { return 2*(HP*1e-7L)/(299792458.L*299792458.L)*nu*nu*nu/expm1l(HP*nu/(KB*T)); } // SI
static std::string S(LD x) { return gy::num((double)x); }
#define NEAR(got, want, tol, sig, what) do { double got_ = got; LD want_ = want; c.check(nr(got_, want_, tol), sig, std::string(what) + " = " + gy::num(got_) + ", expected " + S(want_)); } while (0)
PBT_SUB(simple, 60000, 1500000, "power law (with cut-offs, negative or zero exponents) and black body (temperature, colour correction, scaling set in any order), value, optically thin increment and band integral; non-trivial: value different from zero") {
  bool bb = g.flip(); SmartPointer<Spectrum::Generic> s; LD ex = 0, cst = 1, lo = 0, hi = DBL_MAX, T = 1e4, f = 1; LD sc = 2*HP*1e-7L/(299792458.L*299792458.L); bool scset = false;
  if (!bb) {
    SmartPointer<Spectrum::PowerLaw> p = g.flip() ? new Spectrum::PowerLaw() : new Spectrum::PowerLaw(ex = g.range(-3, 3), cst = g.logu(1e-10, 1e10));
    for (int n = g.range(1, 5); n--;) switch (g.below(3)) {
      case 0: ex = g.flip() ? g.range(-4, 4) : g.uni(-4, 4); p->exponent(ex); break; case 1: cst = g.logu(1e-20, 1e20); p->constant(cst); break;
      default: { double a = g.logu(1e8, 1e20), b = g.logu(1e8, 1e20); p->cutoff({a, b}); lo = std::min(a, b); hi = std::max(a, b); }
    }
    s = p; c.note << "PowerLaw " << (double)cst << " nu^" << (double)ex << " in " << (double)lo << ".." << (double)hi;
  } else {
    SmartPointer<Spectrum::BlackBody> p = g.flip() ? new Spectrum::BlackBody() : new Spectrum::BlackBody(T = g.logu(1, 1e9), sc = g.logu(1e-60, 1)); 
    for (int n = g.range(1, 5); n--;) switch (g.below(3)) { case 0: T = g.logu(1, 1e10); p->temperature(T); break; case 1: f = g.uni(1, 3); p->colorCorrection(f); break; default: sc = g.logu(1e-60, 1); scset = true; p->scaling(sc); }
    s = p; c.note << "BlackBody T=" << (double)T << " f=" << (double)f << " scaling=" << (double)sc;
  }
  if (g.chance(1, 4)) { SmartPointer<Spectrum::Generic> o = s; s = o->clone(); c.note << " clone"; }
  auto ref = [&](LD nu) -> LD { if (!bb) return nu < lo || nu > hi ? 0 : cst*powl(nu, ex); LD x = HP*nu/(KB*T*f); return x > 700 ? 0 : sc*nu*nu*nu/(f*f*f*f)/expm1l(x); };
  double nu = bb ? (double)(KB*T*f/HP)*g.logu(1e-6, 60) : hi < 1e300 && g.flip() ? (g.chance(1, 4) ? (double)(g.flip() ? lo : hi) : g.logu(lo/3, hi*3)) : g.logu(1e6, 1e22);
  std::string k = bb ? "BlackBody" : "PowerLaw"; c.label(k); c.nontrivial = ref(nu) != 0; c.note << " nu=" << nu;
  NEAR((*s)(nu), ref(nu), 1e-9, "simple/value/" + k, k + " at " + gy::num(nu));
  double kap = g.chance(1, 5) ? 0 : g.logu(1e-20, 1e5), ds = g.chance(1, 6) ? 0 : g.logu(1e-10, 1e10); LD tau = (LD)kap*ds;
  { double v = (*s)(nu, kap, ds); LD w = -ref(nu)*expm1l(-tau); c.check(fabsl(v - w) <= 1e-9L*fabsl(w) + 3e-16L*ref(nu), "simple/thin/" + k, "emission over " + gy::num(ds) + " m with opacity " + gy::num(kap) + " = " + gy::num(v) + ", expected " + S(w)); }
  // band integral, documented to 1%: within 5% where the spectrum is smooth over the band
  double n1 = bb ? (double)(KB*T*f/HP)*g.logu(1e-3, 10) : lo > 0 && hi < 1e300 ? (double)lo + (double)(hi - lo)*g.uni(0, 0.5) : g.logu(1e8, 1e18), n2 = n1*g.uni(1.001, 3); if (!bb) { if (n2 > hi) n2 = hi; }
  LD I = 0; int N = 400; LD h = ((LD)n2 - n1)/N; for (int i = 0; i <= N; ++i) I += ref(n1 + i*h*(1 - 1e-15L))*(i == 0 || i == N ? 1 : i % 2 ? 4 : 2); I *= h/3;
  double got = s->integrate(n1, n2), back = s->integrate(n2, n1); if (n2 > n1 && (bb || n1 > lo*(1 + 1e-12L))) { c.check(fabsl(got - I) <= 0.05L*fabsl(I) || fabsl(I) < 1e-280L, "simple/integral/" + k, "integral over " + gy::num(n1) + ".." + gy::num(n2) + " = " + gy::num(got) + ", expected " + S(I) + " within 5%"); c.check(got == back, "simple/integral-order/" + k, "integral with swapped limits differs"); }
  // integral with opacity
  SmartPointer<Spectrum::PowerLaw> op = new Spectrum::PowerLaw(0, kap); double got2 = s->integrate(n1, n2, op, ds); LD I2 = -I*expm1l(-tau); if (n2 > n1 && (bb || n1 > lo*(1 + 1e-12L)) && tau > 1e-12L) c.check(fabsl(got2 - I2) <= 0.05L*fabsl(I2) || fabsl(I2) < 1e-280L, "simple/integral-thin/" + k, "integral with opacity = " + gy::num(got2) + ", expected " + S(I2));
  (void)scset;
}
static bool faraday = true;
struct Co { LD j[4], a[4], r[3], jt[4], at[4], rt[3]; }; // value and relative tolerance floor (magnitude) of I Q U V / rho Q U V, CGS
PBT_SUB(bremsstrahlung, 20000, 500000, "thermal bremsstrahlung: temperature x density x frequency; non-trivial: non-zero emission") {
  SmartPointer<Spectrum::ThermalBremsstrahlung> s = new Spectrum::ThermalBremsstrahlung(); double T = 1e4, n = 0; for (int k = g.range(2, 4); k--;) if (g.flip()) s->temperature(T = g.logu(1e4, 1e12)); else s->numberdensityCGS(n = g.logu(1, 1e20)); s->numberdensityCGS(n = g.logu(1, 1e20));
  if (g.chance(1, 4)) s = s->clone(); double nu = (double)(KB*T/HP)*g.logu(1e-4, 50); c.note << "T=" << T << " n=" << n << " nu=" << nu; c.nontrivial = true;
  auto J = [&](LD nu) { LD th = KB*T/(ME*CL*CL), F = (LD)n*n*6.6524e-25L*CL*0.00729927L*ME*CL*CL; F *= th < 1 ? 4*sqrtl(2*th/(PI*PI*PI))*(1 + 1.781L*powl(th, 1.34L)) : 9*th/(2*PI)*(logl(1.123L*th + 0.42L) + 1.5L); LD x = KB*T/(HP*nu), G = x <= 1 ? sqrtl(3/PI*x) : sqrtl(3.L)/PI*logl(4/expl(0.577216L)*x); return HP/(KB*T)*expl(-1/x)*F*G/(4*PI); };
  LD j = J(nu), B = planck(nu, T)/1e-3L, a = j/B; NEAR(s->jnuCGS(nu), j, 1e-7, "brems/j", "emission coefficient"); NEAR(s->alphanuCGS(nu), a, 1e-7, "brems/alpha", "absorption coefficient");
  double nn[3] = {nu, nu*g.uni(0.5, 2), nu*g.uni(0.5, 2)}, jj[3], aa[3]; size_t m = g.range(1, 3); s->radiativeQ(jj, aa, nn, m); for (size_t i = 0; i < m; ++i) { LD q = J(nn[i]); NEAR(jj[i], q*0.1L, 1e-7, "brems/SI/j", "SI emission coefficient"); NEAR(aa[i], q*0.1L/planck(nn[i], T), 1e-7, "brems/SI/alpha", "SI absorption coefficient"); }
  double ds = (double)(1/a)*g.logu(1e-3, 3)/100; NEAR((*s)(nu, 0, ds), j*ds*100*expl(-a*ds*100)*1e-3L, 1e-6, "brems/increment", "intensity increment"); bool thr = false; try { (*s)(nu); } catch (Gyoto::Error const &) { thr = true; } c.check(thr, "brems/thick", "optically thick emission is not refused");
}
static LD sq(LD x) { return x*x; }
// published fits (Pandya et al. 2016, Marszewski et al. 2021), CGS
static Co thermal(LD T, LD n, LD th, LD nuc, LD nu) {
  Co o; memset(&o, 0, sizeof o); LD Th = KB*T/(ME*CL*CL), s = sinl(th), ct = cosl(th), nus = 2/9.L*nuc*Th*Th*s, x = nu/nus, A = n*E*E*nuc/CL, k = expl(-cbrtl(x))*sqrtl(2.L)*PI/27*s, p = powl(2, 11/12.L)*powl(x, 1/6.L);
  o.j[0] = A*k*sq(sqrtl(x) + p); LD q = (7*powl(Th, 0.96L) + 35)/(10*powl(Th, 0.96L) + 75); o.j[1] = A*k*sq(sqrtl(x) + q*p); o.j[3] = A*expl(-cbrtl(x))*ct/Th*(PI/3 + PI/3*cbrtl(x) + 2/300.L*sqrtl(x) + 2*PI/19*powl(x, 2/3.L));
  LD B = planck(nu, T)/1e-3L; for (int i = 0; i < 4; ++i) o.a[i] = o.j[i]/B;
  if (!faraday) return o;
  LD K0 = std::cyl_bessel_k(0.L, 1/Th), K1 = std::cyl_bessel_k(1.L, 1/Th), K2 = std::cyl_bessel_k(2.L, 1/Th);
  LD t1 = 2.011L*expl(-19.78L*powl(x, -0.5175L)), t2 = cosl(39.89L*powl(x, -0.5L))*expl(-70.16L*powl(x, -0.6L)), t3 = 0.011L*expl(-1.69L*powl(x, -0.5L)), t4 = 0.003135L*powl(x, 4/3.L), w = 0.5L*(1 + tanhl(10*logl(0.6648L*powl(x, -0.5L))));
  LD pre = n*E*E*nuc*nuc*s*s/(ME*CL*nu*nu*nu)*(K1/K2 + 6*Th); o.r[0] = pre*(t1 - t2 - t3 + (t3 - t4)*w); o.rt[0] = pre*(fabsl(t1) + fabsl(t2) + fabsl(t3) + (t3 + t4)*w);
  LD dj = 0.4379L*logl(1 + 1.3414L*powl(x, -0.7515L)), pv = 2*n*E*E*nuc/(ME*CL*nu*nu)*ct/K2; o.r[2] = pv*(K0 - dj); o.rt[2] = fabsl(pv)*(K0 + dj); return o;
}
static Co power(LD p, LD g1, LD g2, LD n, LD th, LD nuc, LD nu) {
  Co o; memset(&o, 0, sizeof o); LD s = sinl(th), ct = cosl(th), N = powl(g1, 1 - p) - powl(g2, 1 - p), X = nu/(nuc*s), A = n*E*E*nuc/CL, J = powl(3, p/2)*(p - 1)*s/(2*(p + 1)*N)*tgammal((3*p - 1)/12)*tgammal((3*p + 19)/12)*powl(X, (1 - p)/2);
  o.j[0] = A*J; o.j[1] = A*J*(p + 1)/(p + 7/3.L); o.j[3] = A*J*(171/250.L*powl(p, 0.49L)*ct/s*powl(X/3, -0.5L));
  LD B = n*E*E/(nu*ME*CL), Q = powl(3, (p + 1)/2)*(p - 1)/(4*N)*tgammal((3*p + 2)/12)*tgammal((3*p + 22)/12)*powl(X, -(p + 2)/2); o.a[0] = B*Q; o.a[1] = B*Q*powl(17/500.L*p - 43/1250.L, 43/500.L); o.a[3] = B*Q*powl(71/100.L*p + 22/625.L, 197/500.L)*powl(3.1L*powl(s, -1.92L) - 3.1L, 64/125.L)*powl(X, -0.5L)*(ct > 0 ? 1 : -1);
  LD rp = n*E*E/(ME*CL*nuc*s)*(p - 1)/N; LD u = powl(2*nuc*g1*g1*s/3/nu, p/2 - 1), f = rp*powl(1/X, 3)*powl(g1, 2 - p); o.r[0] = f*(1 - u); o.rt[0] = fabsl(f)*(1 + u); o.r[2] = 2*rp*(p + 2)/(p + 1)*powl(1/X, 2)*powl(g1, -(p + 1))*logl(g1)*ct/s; return o;
}
static Co kappa(LD k, LD w, LD hyp, LD n, LD th, LD nuc, LD nu) {
  Co o; memset(&o, 0, sizeof o); LD s = sinl(th), ct = cosl(th), sg = ct > 0 ? 1 : -1, X = nu/(nuc*sq(w*k)*s), A = n*E*E*nuc/CL, lo = cbrtl(X)*s*4*PI*tgammal(k - 4/3.L)/(powl(3, 7/3.L)*tgammal(k - 2)), hi = powl(X, -(k - 2)/2)*s*powl(3, (k - 1)/2)*(k - 1)*(k - 2)/4*tgammal(k/4 - 1/3.L)*tgammal(k/4 + 4/3.L);
  auto br = [](LD l, LD h, LD x) { return powl(powl(l, -x) + powl(h, -x), -1/x); };
  o.j[0] = A*br(lo, hi, 3*powl(k, -1.5L)); o.j[1] = A*br(0.5L*lo, (16/25.L + k/50)*hi, 3.7L*powl(k, -1.6L)); o.j[3] = A*sg*br(9/16.L*powl(powl(s, -2.4L) - 1, 0.48L)*powl(k, -66/125.L)/w*powl(X, -0.35L)*lo, 49/64.L*powl(powl(s, -2.5L) - 1, 0.44L)*powl(k, -0.44L)/w*powl(X, -0.5L)*hi, 3*powl(k, -1.5L));
  LD B = n*E*E/(nu*ME*CL), al = powl(X, -2/3.L)*powl(3, 1/6.L)*10/41*2*PI/powl(w*k, 10/3.L - k)*(k - 1)*(k - 2)*k/(3*k - 1)*tgammal(5/3.L)*hyp, ah = powl(X, -(1 + k)/2)*powl(PI, 1.5L)/3*(k - 1)*(k - 2)*k/powl(w*k, 3)*(2*tgammal(2 + k/2)/(2 + k) - 1);
  o.a[0] = B*br(al, ah*(powl(3/k, 19/4.L) + 0.6L), powl(-7/4.L + 8/5.L*k, -0.86L)); o.a[1] = B*br(25/48.L*al, ah*(441*powl(k, -144/25.L) + 0.55L), 1.4L*powl(k, -1.15L));
  LD vh = 14.3L*powl(w, -116/125.L)*sqrtl(powl(s, -2.05L) - 1)*(169*powl(k, -8) + 13/2500.L*k - 263/5000.L + 47/200.L/k)*powl(X, -0.5L); o.a[3] = B*sg*br(0.77L/w*powl(powl(s, -114/50.L) - 1, 223/500.L)*powl(k, -0.7L)*powl(X, -0.35L)*al, ah*vh, 61/50.L*powl(k, -142/125.L) + 0.007L);
  if (!faraday) return o;
  int i = k == 3.5L ? 0 : k == 4 ? 1 : k == 4.5L ? 2 : k == 5 ? 3 : -1; if (i < 0) { o.r[0] = o.r[2] = NAN; return o; } static LD const c1[] = {17, 46/3.L, 14, 12.5L}, c2[] = {3, 5/3.L, 13/8.L, 1}, c3[] = {7, 17/3.L, 4.5L, 5}, c4[] = {30, 18, 12, 8}, c5[] = {1/10.L, 1/6.L, 1/4.L, 3/8.L}, c6[] = {1.5L, 1.75L, 2, 2.25L}, c7[] = {0.471L, 0.5L, 0.525L, 0.541L}, d[] = {0.447L, 0.391L, 0.348L, 0.313L};
  LD x = sqrtl(w)*c3[i]*expl(-5*w), y = 1 - expl(-powl(X, 0.84L)/c4[i]) - sinl(X*c5[i])*expl(-c6[i]*powl(X, c7[i])), pre = n*sq(E*nuc*s)/(ME*CL*nu*nu*nu); o.r[0] = pre*(c1[i]*w - c2[i]*sqrtl(w) + x*y); o.rt[0] = pre*(c1[i]*w + c2[i]*sqrtl(w) + 3*x);
  LD q = i == 0 ? (w*w + 2*w + 1)/(25/8.L*w*w + 4*w + 1) : i == 1 ? (w*w + 54*w + 50)/(30/11.L*w*w + 134*w + 50) : i == 2 ? (w*w + 43*w + 38)/(7/3.L*w*w + 92.5L*w + 38) : (w + 13/14.L)/(2*w + 13/14.L);
  o.r[2] = 2*n*E*E*nuc*ct*std::cyl_bessel_k(0.L, 1/w)/(ME*CL*nu*nu*std::cyl_bessel_k(2.L, 1/w))*q*(1 - 0.17L*logl(1 + d[i]*powl(X, -0.5L))); return o;
}
template <class SP, class REF> static void synchro(pbt::Gen &g, pbt::Ctx &c, std::string const &k, SP s, REF ref, double nu, double th, bool far) {
  faraday = true; Co o = ref(th, nu); double jt = 1e-8, rt = 3e-6; char const *nm[] = {"I", "Q", "U", "V"};
  double j[4] = {s->jnuCGS(nu), s->jQnuCGS(nu), s->jUnuCGS(nu), s->jVnuCGS(nu)}, a[4] = {s->alphanuCGS(nu), s->alphaQnuCGS(nu), s->alphaUnuCGS(nu), s->alphaVnuCGS(nu)}; c.nontrivial = j[0] > 0;
  for (int i = 0; i < 4; ++i) { if (i != 3 || fabsl(cosl(th)) > 0.02L) NEAR(j[i], o.j[i], jt, k + "/j" + nm[i], "emission coefficient of Stokes " + std::string(nm[i])); if (!(o.a[i] != o.a[i] || (i == 3 && fabsl(cosl(th)) < 0.02L))) NEAR(a[i], o.a[i], 1e-7, k + "/alpha" + nm[i], "absorption coefficient of Stokes " + std::string(nm[i])); }
  if (k != "power") c.check(fabsl(o.j[1]) <= o.j[0]*1.0000001L, k + "/deg", "reference");
  auto rr = [&](double got, LD want, LD mag, std::string w) { c.check(fabsl(got - want) <= rt*std::max<LD>(fabsl(want), mag), k + "/rho" + w, "Faraday coefficient " + w + " = " + gy::num(got) + ", expected " + S(want)); };
  if (far) { rr(s->rQnuCGS(nu), o.r[0], o.rt[0], "Q"); rr(s->rUnuCGS(nu), 0, 0, "U"); rr(s->rVnuCGS(nu), o.r[2], o.rt[2], "V"); }
  // SI vectors of coefficients, polarised and not, frequencies in any order
  size_t m = g.range(1, 3); double nn[3] = {nu, nu*g.uni(0.7, 1.4), nu*g.uni(0.7, 1.4)}, J[4][3], A[4][3], R[3][3], j1[3], a1[3]; bool avg = g.chance(1, 5); s->angle_averaged(avg); c.note << (avg ? " averaged" : ""); c.label(avg ? "averaged" : "directional");
  s->radiativeQ(j1, a1, nn, m); if (far) s->radiativeQ(J[0], J[1], J[2], J[3], A[0], A[1], A[2], A[3], R[0], R[1], R[2], nn, m);
  for (size_t i = 0; i < m; ++i) {
    if (!avg) { Co q = ref(th, nn[i]); NEAR(j1[i], q.j[0]*0.1L, jt, k + "/SI/j", "SI emission coefficient"); if (q.a[0] == q.a[0]) NEAR(a1[i], q.a[0]*100, 1e-7, k + "/SI/alpha", "SI absorption coefficient");
      if (far) for (int e = 0; e < 4; ++e) { if (e != 3 || fabsl(cosl(th)) > 0.02L) NEAR(J[e][i], q.j[e]*0.1L, jt, k + "/SI/polar/j" + nm[e], "SI emission coefficient of Stokes " + std::string(nm[e])); if (!(q.a[e] != q.a[e] || (e == 3 && fabsl(cosl(th)) < 0.02L))) NEAR(A[e][i], q.a[e]*100, 1e-7, k + "/SI/polar/alpha" + nm[e], "SI absorption coefficient of Stokes " + std::string(nm[e])); if (e && e != 2) rr(R[e - 1][i]/100, q.r[e - 1], q.rt[e - 1], std::string("SI/") + nm[e]); if (e == 2) c.check(R[1][i] == 0, k + "/SI/polar/rhoU", "rho_U is not zero"); }
    } else { faraday = false; LD sj = 0, sa = 0; int N = 300; LD h = (PI - 0.02L)/N; bool ok = true; for (int q = 0; q <= N; ++q) { LD t = 0.01L + q*h; Co r = ref(t, nn[i]); LD wt = (q == 0 || q == N ? 1 : q % 2 ? 4 : 2)*sinl(t)*h/6; sj += wt*r.j[0]; if (r.a[0] != r.a[0]) ok = false; sa += wt*r.a[0]; }
      double tol = k == "power" ? 0.06 : 0.01; c.check(fabsl(j1[i] - sj*0.1L) <= tol*sj*0.1L, k + "/averaged/j", "angle-averaged emission coefficient " + gy::num(j1[i]) + ", expected " + S(sj*0.1L)); if (far) { LD sq = 0, aq = 0; for (int q = 0; q <= N; ++q) { LD t = 0.01L + q*h; Co r = ref(t, nn[i]); LD wt = (q == 0 || q == N ? 1 : q % 2 ? 4 : 2)*sinl(t)*h/6; sq += wt*r.j[1]; aq += wt*r.a[1]; } c.check(fabsl(J[0][i] - sj*0.1L) <= tol*sj*0.1L && (!ok || fabsl(A[0][i] - sa*100) <= tol*sa*100), k + "/averaged/polar/I", "angle-averaged coefficients of Stokes I"); c.check(fabsl(J[1][i] - sq*0.1L) <= tol*sq*0.1L && (aq != aq || fabsl(A[1][i] - aq*100) <= tol*aq*100), k + "/averaged/polar/Q", "angle-averaged coefficients of Stokes Q: " + gy::num(J[1][i]) + " " + gy::num(A[1][i]) + ", expected " + S(sq*0.1L) + " " + S(aq*100)); c.check(fabs(J[3][i]) <= 1e-6*J[0][i] && fabs(A[3][i]) <= 1e-6*A[0][i] && J[2][i] == 0 && A[2][i] == 0, k + "/averaged/polar/UV", "circular polarisation does not average out"); }
      if (ok) c.check(fabsl(a1[i] - sa*100) <= tol*sa*100, k + "/averaged/alpha", "angle-averaged absorption coefficient " + gy::num(a1[i]) + ", expected " + S(sa*100)); faraday = true;
      if (far) { LD rq = 0, rm = 0, rv = 0; int F = 60; LD h = (PI - 0.02L)/F; for (int q = 0; q <= F; ++q) { LD t = 0.01L + q*h; Co r = ref(t, nn[i]); LD wt = (q == 0 || q == F ? 1 : q % 2 ? 4 : 2)*sinl(t)*h/6; rq += wt*r.r[0]; rm += wt*std::max(fabsl(r.r[0]), r.rt[0]); rv += wt*fabsl(r.r[2]); } c.check(fabsl(R[0][i] - rq*100) <= 0.05*rm*100, k + "/averaged/polar/rhoQ", "angle-averaged Faraday conversion " + gy::num(R[0][i]) + ", expected " + S(rq*100)); c.check(fabsl(R[1][i]) == 0 && fabsl(R[2][i]) <= 1e-6L*rv*100, k + "/averaged/polar/rhoV", "angle-averaged Faraday rotation " + gy::num(R[2][i]) + ", expected 0"); } }
  }
  if (!avg && o.a[0] == o.a[0] && o.a[0] > 0) { double ds = (double)(1/o.a[0])*g.logu(1e-3, 3)/100; NEAR((*s)(nu, g.uni(0, 1), ds), o.j[0]*ds*100*expl(-o.a[0]*ds*100)*1e-3L, 1e-6, k + "/increment", "intensity increment"); }
  bool thr = false; try { (*s)(nu); } catch (Gyoto::Error const &) { thr = true; } c.check(thr, k + "/thick", "optically thick emission is not refused");
}
PBT_SUB(thermal_synchrotron, 8000, 300000, "thermal synchrotron: temperature, density, field angle, cyclotron frequency, frequency, setters in any order, clone; non-trivial: non-zero emission") {
  SmartPointer<Spectrum::ThermalSynchrotron> s = new Spectrum::ThermalSynchrotron(); double T, n, th, nuc; int ord = g.below(4); for (int q = 0; q < 4; ++q) switch ((q + ord) % 4) { case 0: s->temperature(T = g.logu(1e9, 1e12)); break; case 1: s->numberdensityCGS(n = g.logu(1, 1e12)); break; case 2: s->angle_B_pem(th = g.uni(0.05, M_PI - 0.05)); break; default: s->cyclotron_freq(nuc = g.logu(1e4, 1e10)); }
  if (g.flip()) s->besselK2(1.); if (g.chance(1, 4)) s = s->clone(); LD Th = KB*T/(ME*CL*CL); double nu = (double)(2/9.L*nuc*Th*Th*sinl(th))*g.logu(1, 1e4); c.note << "T=" << T << " n=" << n << " angle=" << th << " nuc=" << nuc << " nu=" << nu;
  synchro(g, c, "thermal", s, [&](LD t, LD v) { return thermal(T, n, t, nuc, v); }, nu, th, g.flip());
}
PBT_SUB(thermal_cold, 3000, 50000, "thermal synchrotron below the documented minimum temperature (Theta < 0.01) is zero; non-trivial: always") {
  SmartPointer<Spectrum::ThermalSynchrotron> s = new Spectrum::ThermalSynchrotron(); s->temperature(g.logu(1e3, 5.8e7)); s->numberdensityCGS(1e6); s->angle_B_pem(1.); s->cyclotron_freq(g.logu(1e5, 1e9)); double nn[2] = {1e9, 1e10}, j[2] = {1, 1}, a[2] = {1, 1}, P[11][2]; for (auto &p : P) p[0] = p[1] = 1; s->radiativeQ(j, a, nn, 2); s->radiativeQ(P[0], P[1], P[2], P[3], P[4], P[5], P[6], P[7], P[8], P[9], P[10], nn, 2); c.nontrivial = true; c.check(j[0] == 0 && j[1] == 0 && a[0] == 0 && a[1] == 0, "cold/unpolarised", "cold plasma emits"); for (auto &p : P) c.check(p[0] == 0 && p[1] == 0, "cold/polarised", "cold plasma emits");
}
PBT_SUB(powerlaw_synchrotron, 8000, 300000, "power-law electrons: index, Lorentz factor range, density, angle, cyclotron frequency, frequency; non-trivial: non-zero emission") {
  SmartPointer<Spectrum::PowerLawSynchrotron> s = new Spectrum::PowerLawSynchrotron(); double p = g.flip() ? g.range(2, 6) : g.uni(1.6, 6.5), g1 = g.pickd({1, 2, 10, 50, 100}), g2 = g.logu(1e5, 1e8), n = g.logu(1, 1e12), th = g.uni(0.05, M_PI - 0.05), nuc = g.logu(1e4, 1e10); s->PLindex(p); s->gamma_min(g1); if (g.flip()) s->gamma_max(g2); else g2 = s->gamma_max(); s->numberdensityCGS(n); s->angle_B_pem(th); s->cyclotron_freq(nuc); if (g.chance(1, 4)) s = s->clone();
  double nu = nuc*g1*g1*g.logu(1, 1e5); c.note << "p=" << p << " gamma " << g1 << ".." << g2 << " n=" << n << " angle=" << th << " nuc=" << nuc << " nu=" << nu; synchro(g, c, "power", s, [&](LD t, LD v) { return power(p, g1, g2, n, t, nuc, v); }, nu, th, g.flip());
}
PBT_SUB(kappa_synchrotron, 8000, 300000, "kappa electrons: kappa, temperature, density, angle, cyclotron frequency, frequency; non-trivial: non-zero emission") {
  SmartPointer<Spectrum::KappaDistributionSynchrotron> s = new Spectrum::KappaDistributionSynchrotron(); bool far = g.flip(); double k = far ? g.pickd({3.5, 4, 4.5, 5}) : g.uni(2.6, 7.5), w = g.logu(1, 60), hyp = g.logu(1e-3, 10), n = g.logu(1, 1e12), th = g.uni(0.05, M_PI - 0.05), nuc = g.logu(1e4, 1e10); s->kappaindex(k); s->thetae(w); s->hypergeometric(hyp); s->numberdensityCGS(n); s->angle_B_pem(th); s->cyclotron_freq(nuc); if (g.chance(1, 4)) s = s->clone();
  double nu = nuc*w*k*w*k*g.logu(0.2, 1e4); c.note << "kappa=" << k << " w=" << w << " n=" << n << " angle=" << th << " nuc=" << nuc << " nu=" << nu; synchro(g, c, "kappa", s, [&](LD t, LD v) { return kappa(k, w, hyp, n, t, nuc, v); }, nu, th, far);
}
PBT_SUB(bessel, 20000, 300000, "modified Bessel functions of order 0..8 against the C++ library; non-trivial: always") {
  int n = g.range(2, 8); double x = g.logu(1e-3, 200); c.note << "K_" << n << "(" << x << ")"; c.nontrivial = true; NEAR(bessk0(x), std::cyl_bessel_k(0.L, (LD)x), 8e-7, "bessel/k0", "K0"); NEAR(bessk1(x), std::cyl_bessel_k(1.L, (LD)x), 8e-7, "bessel/k1", "K1"); NEAR(bessk(n, x), std::cyl_bessel_k((LD)n, (LD)x), 1e-6, "bessel/kn", "Kn"); double xi = g.logu(1e-3, 300); NEAR(bessi0(xi), std::cyl_bessel_i(0.L, (LD)xi), 8e-7, "bessel/i0", "I0"); NEAR(bessi1(xi), std::cyl_bessel_i(1.L, (LD)xi), 8e-7, "bessel/i1", "I1");
}
GY_MAIN
