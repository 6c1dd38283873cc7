// Independent geodesic integrator (adaptive Dormand-Prince 5(4) on the
// Christoffel symbols of the metric under test, which M01 checks against the
// published line element) used as the oracle for orbits.
#ifndef ORBIT_H
#define ORBIT_H
#include "metgen.h"
#include "GyotoStar.h"
#include "GyotoWorldline.h"
namespace orb {
using namespace Gyoto;
typedef std::vector<double> V; typedef long double ld;
// y = (x^a, u^a, optional transported vectors..., lambda)
struct Ref {
  SmartPointer<Metric::Generic> met; V y; double tol = 1e-11; long maxsteps = 20000; double h = 1e-2;
  bool ok = true; size_t nvec; double minsin = 1, rmin = 1e99, rmax = 0; bool spherical; double off[4] = {0, 0, 0, 0};
  Ref(SmartPointer<Metric::Generic> m, double const c[8], size_t nv = 1, double const *vecs = nullptr) : met(m), y(4 + 4*nv + 1), nvec(nv) {
    for (int i = 0; i < 8; ++i) y[i] = c[i]; for (size_t i = 0; i + 1 < nv; ++i) for (int j = 0; j < 4; ++j) y[8 + 4*i + j] = vecs[4*i + j];
    if (m->kind() == "Shift") { std::vector<double> v = m->get("Offset"); for (int i = 0; i < 4; ++i) off[i] = v[i]; }
    y.back() = 0; spherical = m->coordKind() == GYOTO_COORDKIND_SPHERICAL; track(); }
  void track() { double r; if (spherical) { r = fabs(y[1]); minsin = std::min(minsin, fabs(sin(y[2]))); } else r = sqrt(pow(y[1]-off[1], 2) + pow(y[2]-off[2], 2) + pow(y[3]-off[3], 2)); rmin = std::min(rmin, r); rmax = std::max(rmax, r); }
  bool f(V const &a, V &d) {
    double C[4][4][4]; try { if (met->christoffel(C, &a[0])) return false; } catch (Gyoto::Error const &) { return false; /* outside the chart */ }
    for (int i = 0; i < 4; ++i) d[i] = a[4+i];
    for (size_t v = 0; v < nvec; ++v) for (int k = 0; k < 4; ++k) { double s = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) s -= C[k][i][j]*a[4+i]*a[4+4*v+j]; d[4+4*v+k] = s; }
    d.back() = 1; for (double x : d) if (!std::isfinite(x)) return false; return true;
  }
  // one DP5 step; err scaled
  bool step(V const &a, double hh, V &out, double &err) {
    size_t n = a.size(); V k1(n), k2(n), k3(n), k4(n), k5(n), k6(n), k7(n), t(n);
    if (!f(a, k1)) return false;
    for (size_t i = 0; i < n; ++i) t[i] = a[i] + hh*k1[i]/5; if (!f(t, k2)) return false;
    for (size_t i = 0; i < n; ++i) t[i] = a[i] + hh*(3*k1[i]/40 + 9*k2[i]/40); if (!f(t, k3)) return false;
    for (size_t i = 0; i < n; ++i) t[i] = a[i] + hh*(44*k1[i]/45 - 56*k2[i]/15 + 32*k3[i]/9); if (!f(t, k4)) return false;
    for (size_t i = 0; i < n; ++i) t[i] = a[i] + hh*(19372*k1[i]/6561 - 25360*k2[i]/2187 + 64448*k3[i]/6561 - 212*k4[i]/729); if (!f(t, k5)) return false;
    for (size_t i = 0; i < n; ++i) t[i] = a[i] + hh*(9017*k1[i]/3168 - 355*k2[i]/33 + 46732*k3[i]/5247 + 49*k4[i]/176 - 5103*k5[i]/18656); if (!f(t, k6)) return false;
    out.resize(n);
    for (size_t i = 0; i < n; ++i) out[i] = a[i] + hh*(35*k1[i]/384 + 500*k3[i]/1113 + 125*k4[i]/192 - 2187*k5[i]/6784 + 11*k6[i]/84); if (!f(out, k7)) return false;
    err = 0;
    for (size_t i = 0; i < n; ++i) { double e = hh*(71*k1[i]/57600 - 71*k3[i]/16695 + 71*k4[i]/1920 - 17253*k5[i]/339200 + 22*k6[i]/525 - k7[i]/40); err = std::max(err, fabs(e)/(tol*(1 + fabs(a[i])))); }
    return true;
  }
  // advance until component `idx` (0: coordinate time, y.size()-1: parameter) equals target
  bool to(double target, size_t idx) {
    if (!ok) return false; V o; double e;
    for (long n = 0; n < maxsteps; ++n) {
      double dist = target - y[idx]; if (fabs(dist) < 1e-13*(1 + fabs(target))) return true;
      V d(y.size()); if (!f(y, d)) return ok = false;
      double rate = d[idx]; if (rate == 0) return ok = false; double hl = dist/rate; // linear guess
      double hh = std::min(fabs(h), fabs(hl))*(hl > 0 ? 1 : -1); bool last = fabs(hl) <= fabs(h);
      if (!step(y, hh, o, e)) return ok = false;
      if (e > 1) { h = fabs(hh)*std::max(0.2, 0.9*pow(e, -0.2)); if (h < 1e-9) return ok = false; continue; }
      y = o; track(); if (!last) h = fabs(hh)*std::min(4., 0.9*pow(e + 1e-10, -0.2));
    }
    return ok = false;
  }
};

struct Orbit { mg::M m; double c[8]; bool massive; };
// a geodesic with random initial condition
inline Orbit orbit(pbt::Gen &g, std::string kind = "", int massive = -1, double vmax = 0.6) {
  mg::M m0 = mg::make(g, kind); Orbit o; o.m = m0; mg::M &m = o.m; o.massive = massive < 0 ? g.flip() : massive;
  double off[4] = {0, 0, 0, 0}; if (m.kind == "Shift") { std::vector<double> v = m.met->get("Offset"); for (int i = 0; i < 4; ++i) off[i] = v[i]; }
  double r = g.logu(std::max(4., 2.5*m.rmin), 60), th = g.chance(1, 4) ? M_PI/2 : g.uni(0.5, M_PI - 0.5), ph = g.uni(-3, 3);
  if (m.kind == "BalasinGrumiller") r = g.logu(2, 30);
  m.pos[0] = g.chance(1, 3) ? 0 : g.uni(-1000, 1000);
  if (m.spherical) { m.pos[1] = r; m.pos[2] = th; m.pos[3] = ph; } else { m.pos[1] = r*sin(th)*cos(ph); m.pos[2] = r*sin(th)*sin(ph); m.pos[3] = r*cos(th); }
  for (int i = 0; i < 4; ++i) m.pos[i] += off[i];
  mg::Ref R = mg::reference(m, m.pos);
  ld N = 1/sqrtl(-R.gup[0][0]), n[4]; for (int i = 0; i < 4; ++i) n[i] = -N*R.gup[0][i];
  ld w[4] = {0, 0, 0, 0}, w2 = 0; for (int i = 1; i < 4; ++i) w[i] = ld(g.uni(-1, 1))/sqrtl(fabsl(R.g[i][i]));
  if (g.chance(1, 6)) w[2] = 0; if (g.chance(1, 8)) w[1] = 0;
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) w2 += R.g[i][j]*w[i]*w[j];
  if (!(w2 > 1e-4)) throw pbt::Discard();
  ld v = o.massive ? ld(g.uni(0, vmax)) : 1, G = o.massive ? 1/sqrtl(1 - v*v) : ld(g.logu(0.5, 2));
  for (int i = 0; i < 4; ++i) { o.c[i] = m.pos[i]; o.c[4+i] = double(G*(n[i] + v*w[i]/sqrtl(w2))); }
  return o;
}
inline std::string show(Orbit const &o) { std::ostringstream s; s << std::setprecision(12) << (o.massive ? "massive " : "photon ") << mg::at(o.m) << " u=(" << o.c[4] << ", " << o.c[5] << ", " << o.c[6] << ", " << o.c[7] << ")"; return s.str(); }
inline double dist(bool sph, const double *a, const double *b) { // coordinate distance between two positions (t ignored)
  if (!sph) return sqrt(pow(a[1]-b[1], 2) + pow(a[2]-b[2], 2) + pow(a[3]-b[3], 2));
  auto X = [](const double *p, double o[3]) { o[0] = p[1]*sin(p[2])*cos(p[3]); o[1] = p[1]*sin(p[2])*sin(p[3]); o[2] = p[1]*cos(p[2]); };
  double x[3], y[3]; X(a, x); X(b, y); return sqrt(pow(x[0]-y[0], 2) + pow(x[1]-y[1], 2) + pow(x[2]-y[2], 2)); }
inline std::vector<std::string> const &integrators() { static std::vector<std::string> v = {"runge_kutta_fehlberg78", "Legacy", "runge_kutta_cash_karp54", "runge_kutta_dopri5", "runge_kutta_cash_karp54_classic"}; return v; }
}
#endif
