// Generated metrics with an independent closed-form reference of the line
// element (long double), written from the published metrics, not from the code.
#ifndef METGEN_H
#define METGEN_H
#include "gy.h"
#include "GyotoKerrBL.h"
#include "GyotoKerrKS.h"
#include "GyotoMinkowski.h"
#include "GyotoShift.h"
#include "GyotoComplexMetric.h"
namespace mg {
using namespace Gyoto;
typedef long double ld;
typedef std::function<void(ld g[4][4], const ld x[4])> ref_t;

struct M {
  std::string kind, desc;
  SmartPointer<Metric::Generic> met;
  ref_t ref;
  bool spherical = true, numeric = false; // numeric: finite-difference derivatives in the library
  double rmin = 2.1;                      // smallest radius to generate (outside horizon)
  bool negr = false;                      // negative radius is part of the chart
  double pos[4];
  double a = 0;                           // spin where relevant
  double rnd = 0;                         // rounding error of the reference line element (cancellations)
};

inline void zero(ld g[4][4]) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) g[i][j] = 0; }

inline ref_t kerrlike(std::function<ld(ld)> m, ld a) {
  return [m, a](ld g[4][4], const ld x[4]) {
    zero(g); ld r = x[1], c = cosl(x[2]), s = sinl(x[2]); ld S = r*r + a*a*c*c, D = r*r - 2*m(r)*r + a*a;
    g[0][0] = -1 + 2*m(r)*r/S; g[1][1] = S/D; g[2][2] = S;
    g[3][3] = (r*r + a*a + 2*m(r)*r*a*a*s*s/S)*s*s; g[0][3] = g[3][0] = -2*a*m(r)*r*s*s/S; };
}
inline ref_t sphsym(std::function<ld(ld)> gtt, std::function<ld(ld)> grr, std::function<ld(ld)> R) {
  return [=](ld g[4][4], const ld x[4]) { zero(g); ld s = sinl(x[2]); g[0][0] = gtt(x[1]); g[1][1] = grr(x[1]);
    g[2][2] = R(x[1])*R(x[1]); g[3][3] = g[2][2]*s*s; };
}
inline ref_t kerrks(ld a) {
  return [a](ld g[4][4], const ld p[4]) {
    ld x = p[1], y = p[2], z = p[3]; ld t = x*x+y*y+z*z-a*a; ld r2 = (t + sqrtl(t*t+4*a*a*z*z))/2, r = sqrtl(r2);
    ld H = 2*r2*r/(r2*r2+a*a*z*z); ld k[4] = {1, (r*x+a*y)/(r2+a*a), (r*y-a*x)/(r2+a*a), z/r};
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) g[i][j] = H*k[i]*k[j] + (i == j ? (i ? 1 : -1) : 0); };
}

inline SmartPointer<Metric::Generic> mk(std::string k) { return gy::metric(k); }
inline void setv(SmartPointer<Metric::Generic> m, std::string n, std::vector<double> v) { m->set(n, Value(v)); }

inline double spin(pbt::Gen &g) {
  switch (g.below(6)) { case 0: return 0.; case 1: return g.uni(0.9, 0.999); case 2: return -g.uni(0., 0.99); case 3: return 0.5; default: return g.uni(-0.998, 0.998); }
}

inline std::vector<std::string> const &kinds() {
  static std::vector<std::string> k = {"KerrBL", "Minkowski", "MinkowskiSph", "KerrKS", "ReissnerNordstrom", "SchwarzschildHarmonic",
    "BalasinGrumiller", "RezzollaZhidenko", "KonoplyaRezzollaZhidenko", "Hayward", "ChernSimons", "Shift", "Complex"};
  return k;
}

inline M make(pbt::Gen &g, std::string kind = "", int depth = 0);

inline void position(pbt::Gen &g, M &m, double rmax = 300.) {
  double r, th, ph;
  double lo = m.rmin * (1 + 0.02);
  if (rmax < 2*lo) rmax = 2*lo;
  switch (g.below(4)) { case 0: r = g.uni(lo, std::min(rmax, lo + 3)); break; case 1: r = g.uni(lo, std::min(rmax, lo*5)); break; default: r = g.logu(lo, rmax); }
  if (m.negr && g.chance(1, 4)) r = -r;
  switch (g.below(5)) { case 0: th = M_PI/2; break; case 1: th = g.uni(0.03, 0.3); break; default: th = g.uni(0.1, M_PI-0.03); }
  ph = g.uni(-M_PI, M_PI);
  m.pos[0] = g.uni(-100, 100);
  if (m.spherical) { m.pos[1] = r; m.pos[2] = th; m.pos[3] = ph; }
  else { m.pos[1] = r*sin(th)*cos(ph); m.pos[2] = r*sin(th)*sin(ph); m.pos[3] = r*cos(th); }
}

inline M make(pbt::Gen &g, std::string kind, int depth) {
  M m; if (kind.empty()) kind = g.pick(kinds());
  m.kind = kind; std::ostringstream d; d << std::setprecision(10) << kind;
  if (kind == "KerrBL" || kind == "ChernSimons") {
    m.met = mk(kind); double a = spin(g); m.a = a;
    if (kind == "ChernSimons") a = m.a = a*0.5;
    m.met->set("Spin", a); d << " a=" << a;
    m.rmin = 1 + sqrt(1 - a*a);
    if (kind == "KerrBL") m.ref = kerrlike([](ld) { return ld(1); }, a);
    else {
      double z = g.uni(0, 0.5); m.met->set("DzetaCS", z); d << " dzeta=" << z; m.numeric = true; m.rmin = 2.5;
      m.ref = [a, z](ld G[4][4], const ld x[4]) {
        zero(G); ld r = x[1], c2 = cosl(x[2])*cosl(x[2]), s2 = sinl(x[2])*sinl(x[2]), A = a, f = 1 - 2/r;
        G[0][0] = -f - 2*A*A*c2/(r*r*r); G[1][1] = 1/f + A*A/(f*r*r)*(c2 - 1/f); G[2][2] = r*r + A*A*c2;
        G[3][3] = r*r*s2 + A*A*s2*(1 + 2*s2/r);
        G[0][3] = G[3][0] = -2*A*s2/r + ld(5)/8*z*A/(r*r*r*r)*(1 + ld(12)/7/r + ld(27)/10/(r*r))*s2; };
    }
  } else if (kind == "KerrKS") {
    m.met = mk(kind); double a = m.a = spin(g); m.met->set("Spin", a); d << " a=" << a; m.spherical = false;
    m.rmin = g.chance(1, 4) ? 1.1 : 1 + sqrt(1 - a*a); m.ref = kerrks(a);
  } else if (kind == "Minkowski" || kind == "MinkowskiSph") {
    m.met = mk("Minkowski"); bool s = kind == "MinkowskiSph"; m.met->set("Spherical", s); m.spherical = s; m.rmin = 0.2;
    if (s) m.ref = sphsym([](ld) { return ld(-1); }, [](ld) { return ld(1); }, [](ld r) { return r; });
    else m.ref = [](ld G[4][4], const ld *) { zero(G); G[0][0] = -1; G[1][1] = G[2][2] = G[3][3] = 1; };
  } else if (kind == "ReissnerNordstrom") {
    m.met = mk(kind); double q = g.uni(-1, 1); m.met->set("Charge", q); d << " q=" << q; m.rmin = 1 + sqrt(1 - q*q);
    ld Q = ld(q)*q; auto f = [Q](ld r) { return 1 - 2/r + Q/(r*r); };
    m.ref = sphsym([f](ld r) { return -f(r); }, [f](ld r) { return 1/f(r); }, [](ld r) { return r; });
  } else if (kind == "SchwarzschildHarmonic") {
    m.met = mk(kind); m.rmin = 1.05;
    m.ref = sphsym([](ld r) { return -(r-1)/(r+1); }, [](ld r) { return (r+1)/(r-1); }, [](ld r) { return r+1; });
  } else if (kind == "BalasinGrumiller") {
    m.met = mk(kind); double R = g.uni(20, 200), r0 = g.flip() ? g.uni(0.5, 10) : R*g.uni(0.2, 0.9), V = g.uni(-0.01, 0.01);
    m.met->set("R", R); m.met->set("r0", r0); m.met->set("V0", V); d << " R=" << R << " r0=" << r0 << " V0=" << V; m.rmin = 0.5; m.rnd = 4e-19*fabs(V)*(R + r0 + 60);
    m.ref = [R, r0, V](ld G[4][4], const ld x[4]) {
      zero(G); ld r = x[1], c = cosl(x[2]), s = sinl(x[2]); auto rt = [&](ld q, int e) { return sqrtl(q*q + r*r + e*2*q*r*c); };
      ld N = (ld(R) - r0)*V + ld(V)/2*(-rt(R, -1) - rt(R, 1) + rt(r0, -1) + rt(r0, 1));
      G[0][0] = -1; G[0][3] = G[3][0] = N; G[1][1] = 1; G[2][2] = r*r; G[3][3] = r*r*s*s - N*N; };
  } else if (kind == "RezzollaZhidenko") {
    m.met = mk(kind); double e = g.chance(1, 4) ? 0 : g.uni(-0.4, 0.6); std::vector<double> A(4), B(4);
    for (auto &v : A) v = g.chance(1, 3) ? 0 : g.uni(0, 0.5);
    for (auto &v : B) v = g.chance(1, 3) ? 0 : g.uni(0, 0.5);
    if (e > 0.1) A[0] += e; // keeps N2>0 outside the horizon
    m.met->set("Epsilon", e); setv(m.met, "AParam", A); setv(m.met, "BParam", B);
    d << " eps=" << e << " a=["; for (auto v : A) d << v << ' '; d << "] b=["; for (auto v : B) d << v << ' '; d << "]";
    ld r0 = 2/(1 + ld(e)); m.rmin = double(r0);
    auto N2 = [=](ld r) { ld u = r0/r, x = 1 - u; ld At = A[1]/(1 + A[2]*x/(1 + A[3]*x)); return x*(1 - e*u + (ld(A[0]) - e)*u*u + At*u*u*u); };
    auto BB = [=](ld r) { ld u = r0/r, x = 1 - u; ld Bt = B[1]/(1 + B[2]*x/(1 + B[3]*x)); return 1 + B[0]*u + Bt*u*u; };
    m.ref = sphsym([=](ld r) { return -N2(r); }, [=](ld r) { return BB(r)*BB(r)/N2(r); }, [](ld r) { return r; });
  } else if (kind == "KonoplyaRezzollaZhidenko") {
    m.met = mk(kind); double a = g.sgn()*g.uni(0.05, 0.95); m.a = a; m.met->set("Spin", a); d << " a=" << a;
    double r0 = 1 + sqrt(1 - a*a); m.rmin = r0; std::vector<double> H(6, 0.), I(4, 0.);
    int w = g.below(3);
    if (w == 1) { int i = g.below(6); double v = g.uni(0., 0.4); if (i == 5) v = -v*0.25; if ((i == 1 || i == 2) && a < 0) v = -v; H[i] = v; }
    else if (w == 2) { I[g.below(4)] = g.uni(0., 0.2); }
    setv(m.met, "DeltasHorizon", H); setv(m.met, "DeltasAsymptotics", I);
    d << " H=["; for (auto v : H) d << v << ' '; d << "] I=["; for (auto v : I) d << v << ' '; d << "]";
    if (w == 2 || (w == 1)) m.rmin = r0*1.15;
    m.ref = [=](ld G[4][4], const ld x[4]) {
      zero(G); ld A = a, R0 = 1 + sqrtl(1 - A*A), r = x[1], u = R0/r, X = 1 - u, c2 = cosl(x[2])*cosl(x[2]), s2 = sinl(x[2])*sinl(x[2]), q = A*A/(R0*R0);
      ld e0 = 2/R0 - 1 + I[0], k00 = q, w00 = (1 + q)*A/R0 + I[1], a20 = (1 + q)*q, a00 = I[2], b00 = I[3];
      ld a01 = H[0], a21 = -q*q + H[5], k21 = -q - H[5], k22 = -q, k23 = q, w01 = H[1], w21 = H[2], b01 = H[3], b21 = H[4];
      ld kt = k21/(1 + k22*X/(1 + k23*X));
      ld N2 = X*(1 - e0*u + (a00 - e0 + k00)*u*u + a01*u*u*u) + ((kt + a20)*u*u*u + a21*u*u*u*u)*c2;
      ld B = 1 + b00*u + b01*u*u + b21*u*u*c2, S = 1 + A*A*c2/(r*r);
      ld W = (w00*u*u + w01*u*u*u + w21*u*u*u*c2)/S;
      ld K2 = 1 + A*W/r + (k00*u*u + kt*u*u*u*c2)/S;
      G[0][0] = -(N2 - W*W*s2)/K2; G[1][1] = S*B*B/N2; G[2][2] = S*r*r; G[3][3] = K2*r*r*s2; G[0][3] = G[3][0] = -W*r*s2; };
  } else if (kind == "Hayward") {
    m.met = mk(kind); double a = m.a = g.chance(1, 4) ? 0 : g.uni(-0.95, 0.95), b = g.chance(1, 5) ? 0 : g.uni(0., 2.);
    m.met->set("Spin", a); m.met->set("Charge", b); d << " a=" << a << " b=" << b;
    auto mm = [b](ld r) { ld r3 = fabsl(r)*r*r; return r3/(r3 + 2*ld(b)*b); };
    // smallest radius such that Delta>0 from there outwards
    double rr = 60, last = 60; for (; rr > 0.02; rr *= 0.985) { if (rr*rr - 2*double(mm(rr))*rr + a*a <= 0.02*rr*rr) break; last = rr; }
    m.rmin = last < 0.05 ? 0.05 : last;
    if (last < 0.05) m.negr = b > 0.3;
    m.ref = kerrlike(mm, a);
  } else if (kind == "Shift") {
    M s = make(g, g.flip() ? "KerrKS" : "Minkowski", depth + 1); SmartPointer<Metric::Generic> sh = mk("Shift");
    m = s; m.kind = "Shift"; m.met = sh; sh->set("SubMetric", s.met);
    std::vector<double> off = {g.uni(-5, 5), g.uni(-20, 20), g.uni(-20, 20), g.uni(-20, 20)}; setv(sh, "Offset", off);
    ref_t sr = s.ref; m.ref = [sr, off](ld G[4][4], const ld x[4]) { ld y[4]; for (int i = 0; i < 4; ++i) y[i] = x[i] - off[i]; sr(G, y); };
    m.numeric = true; d.str(""); d << "Shift(" << s.desc << ") offset=" << off[0] << ',' << off[1] << ',' << off[2] << ',' << off[3];
    position(g, m, 100); for (int i = 0; i < 4; ++i) m.pos[i] += off[i];
    m.desc = d.str(); return m;
  } else if (kind == "Complex") {
    Metric::Complex *cm = new Metric::Complex(); SmartPointer<Metric::Generic> sp = cm; m.met = sp; m.numeric = true;
    bool sph = g.flip(); m.spherical = sph; int n = g.range(1, 3); std::vector<ref_t> rs; m.rmin = 0.2; d << "(";
    for (int i = 0; i < n; ++i) {
      M s = sph ? make(g, g.pick<std::string>({"KerrBL", "MinkowskiSph", "ReissnerNordstrom"}), depth + 1)
                : make(g, g.pick<std::string>({"KerrKS", "Minkowski"}), depth + 1);
      cm->append(s.met); rs.push_back(s.ref); m.rmin = std::max(m.rmin, s.rmin); d << s.desc << " + ";
    }
    d << ")"; m.rmin *= 1.3;
    m.ref = [rs](ld G[4][4], const ld x[4]) { zero(G); ld t[4][4]; for (auto &r : rs) { r(t, x); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) G[i][j] += t[i][j]; } };
  } else { fprintf(stderr, "bad kind %s\n", kind.c_str()); abort(); }
  m.desc = d.str();
  position(g, m, m.numeric ? 100 : 300);
  if (kind == "BalasinGrumiller") { m.pos[1] = std::min(m.pos[1], 60.); }
  return m;
}

inline std::string at(M const &m) { std::ostringstream s; s << std::setprecision(12) << m.desc << " at (" << m.pos[0] << ", " << m.pos[1] << ", " << m.pos[2] << ", " << m.pos[3] << ")"; return s.str(); }

inline bool invert(const ld A[4][4], ld R[4][4]) {
  ld a[4][8]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { a[i][j] = A[i][j]; a[i][4+j] = i == j; }
  for (int c = 0; c < 4; ++c) {
    int p = c; for (int i = c; i < 4; ++i) if (fabsl(a[i][c]) > fabsl(a[p][c])) p = i;
    if (a[p][c] == 0) return false; for (int j = 0; j < 8; ++j) std::swap(a[p][j], a[c][j]);
    ld d = a[c][c]; for (int j = 0; j < 8; ++j) a[c][j] /= d;
    for (int i = 0; i < 4; ++i) if (i != c) { ld f = a[i][c]; for (int j = 0; j < 8; ++j) a[i][j] -= f*a[c][j]; }
  }
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) R[i][j] = a[i][4+j]; return true;
}

struct Ref { ld h[4] = {0, 0, 0, 0}, g[4][4], gup[4][4], d[4][4][4], dd[4][4][4], G[4][4][4], S[4][4][4]; };
// reference metric, inverse, first and second derivatives, Christoffel symbols
// and the scale S of each symbol (sum of the absolute values of its terms)
inline Ref reference(M const &m, const double pos[4]) {
  Ref R; ld x[4]; for (int i = 0; i < 4; ++i) x[i] = pos[i];
  m.ref(R.g, x); invert(R.g, R.gup);
  for (int a = 0; a < 4; ++a) {
    ld h = 2e-4L; if (!m.spherical || a == 1) h *= std::min<ld>(1, fabsl(m.spherical ? x[1] : sqrtl(x[1]*x[1]+x[2]*x[2]+x[3]*x[3])));
    if (m.spherical && a == 1 && fabsl(x[1]) > m.rmin) h *= std::min<ld>(1, 10*(fabsl(x[1]) - m.rmin)/m.rmin);
    if (m.spherical && a == 2) h *= std::min<ld>(1, fabsl(sinl(x[2])));
    R.h[a] = h; ld t[5][4][4]; for (int k = -2; k <= 2; ++k) { ld y[4] = {x[0], x[1], x[2], x[3]}; y[a] += k*h; m.ref(t[k+2], y); }
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
      R.d[a][i][j] = (t[0][i][j] - 8*t[1][i][j] + 8*t[3][i][j] - t[4][i][j])/(12*h);
      R.dd[a][i][j] = (t[1][i][j] - 2*t[2][i][j] + t[3][i][j])/(h*h);
    }
  }
  for (int a = 0; a < 4; ++a) for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
    ld v = 0, s = 0; for (int b = 0; b < 4; ++b) { v += R.gup[a][b]*(R.d[i][b][j] + R.d[j][b][i] - R.d[b][i][j])/2;
      s += fabsl(R.gup[a][b])*(fabsl(R.d[i][b][j]) + fabsl(R.d[j][b][i]) + fabsl(R.d[b][i][j]))/2; }
    R.G[a][i][j] = v; R.S[a][i][j] = s; }
  return R;
}
// error allowed on a numerical derivative (forward difference, step 1e-7)
inline ld jtol(M const &m, Ref const &R, int a, int i, int j, bool numeric) {
  ld t = 1e-9L*fabsl(R.d[a][i][j]) + 1e-12L*fabsl(R.g[i][j]) + 2*m.rnd/R.h[a] + 1e-14L;
  if (numeric) t += 1e-8L*fabsl(R.g[i][j]) + 4e-7L*fabsl(R.dd[a][i][j]) + (R.g[i][j] != 0 ? 1e-8L : 0);
  return t;
}
}
#endif
