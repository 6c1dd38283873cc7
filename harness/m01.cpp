// M01: every metric is self-consistent and equal to its published line element.
#include "metgen.h"
using namespace mg;
static std::string ij(const char *w, int i, int j, int k = -1) { std::ostringstream s; s << w << '[' << i << "][" << j << ']'; if (k >= 0) s << '[' << k << ']'; return s.str(); }

PBT_SUB(tensor, 130000, 1500000, "random metric kind, parameters and point; non-trivial: curved or non-Cartesian metric (not plain Cartesian Minkowski)") {
  M m = make(g); c.note << at(m); c.label(m.kind); c.nontrivial = m.kind != "Minkowski";
  std::string K = m.kind; Ref R = reference(m, m.pos);
  double G[4][4], U[4][4]; m.met->gmunu(G, m.pos);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
    // conditioning: components are compared in the scale sqrt(|g_ii g_jj|)
    double sc = sqrt(fabs(double(R.g[i][i]*R.g[j][j])));
    double tol = 1e-10*sc + 1e-9*fabs(double(R.g[i][j]));
    c.check(std::isfinite(G[i][j]), "tensor/finite/" + K, ij("g", i, j) + " is not finite");
    c.close(G[i][j], double(R.g[i][j]), 0, tol, "tensor/reference/" + K, ij("covariant metric g", i, j) + " differs from the published line element");
    c.close(G[i][j], G[j][i], 1e-11, 1e-12*sc, "tensor/symmetry/" + K, ij("g", i, j) + " not symmetric");
    c.close(m.met->gmunu(m.pos, i, j), G[i][j], 1e-9, 1e-10*sc, "tensor/coef-vs-matrix/" + K, ij("single coefficient g", i, j));
  }
  m.met->gmunu_up(U, m.pos);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
    double s = 0, t = 0, t2 = 0; for (int k = 0; k < 4; ++k) { s += U[i][k]*double(R.g[k][j]); t += fabs(U[i][k]*double(R.g[k][j])); t2 += fabs(double(R.gup[i][k]*R.g[k][j])); }
    c.close(s, i == j, 0, 1e-8*(t + t2 + 1), "tensor/inverse/" + K, ij("(g^-1 g)", i, j));
    double sc = sqrt(fabs(double(R.gup[i][i]*R.gup[j][j])));
    c.close(U[i][j], double(R.gup[i][j]), 1e-7, 1e-8*sc, "tensor/up-reference/" + K, ij("contravariant g", i, j));
    c.close(m.met->gmunu_up(m.pos, i, j), U[i][j], 1e-8, 1e-9*sc, "tensor/up-coef-vs-matrix/" + K, ij("single coefficient gup", i, j));
  }
  // scalar products and dual forms
  double u[4], v[4], w[4];
  for (int i = 0; i < 4; ++i) { u[i] = g.uni(-2, 2); v[i] = g.uni(-2, 2); }
  double s = 0, t = 0, n = 0, nt = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { double x = double(R.g[i][j]); s += x*u[i]*v[j]; t += fabs(x*u[i]*v[j]); n += x*u[i]*u[j]; nt += fabs(x*u[i]*u[j]); }
  c.close(m.met->ScalarProd(m.pos, u, v), s, 0, 1e-9*t, "tensor/scalarprod/" + K, "scalar product");
  c.close(m.met->ScalarProd(m.pos, v, u), s, 0, 1e-9*t, "tensor/scalarprod-sym/" + K, "scalar product, arguments swapped");
  double nn = m.met->norm(m.pos, u);
  c.close(nn*fabs(nn), n, 0, 1e-8*nt, "tensor/norm/" + K, "signed square of the norm");
  m.met->dualOneForm(m.pos, u, w);
  for (int i = 0; i < 4; ++i) { double e = 0, f = 0; for (int j = 0; j < 4; ++j) { e += double(R.g[i][j])*u[j]; f += fabs(double(R.g[i][j])*u[j]); } c.close(w[i], e, 0, 1e-9*f, "tensor/dual/" + K, "dual one-form component"); }
}

PBT_SUB(connection, 130000, 1200000, "random metric kind, parameters and point; non-trivial: metric with a non-zero connection at the point") {
  M m = make(g); c.note << at(m); c.label(m.kind); std::string K = m.kind;
  Ref R = reference(m, m.pos); double J[4][4][4], J2[4][4][4], U2[4][4], C[4][4][4];
  bool numj = m.kind != "KerrKS"; // metrics without an analytic jacobian
  int order = g.below(3);         // the result may not depend on which entry point is called first
  if (order == 0) m.met->christoffel(C, m.pos);
  if (order == 1) m.met->gmunu_up_and_jacobian(U2, J2, m.pos);
  m.met->jacobian(J, m.pos); m.met->gmunu_up_and_jacobian(U2, J2, m.pos);
  if (m.met->christoffel(C, m.pos)) c.fail("connection/status/" + K, "christoffel reported an error at a regular point");
  bool nz = false;
  for (int a = 0; a < 4; ++a) for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
    c.close(J[a][i][j], double(R.d[a][i][j]), 0, double(4*jtol(m, R, a, i, j, numj)), "connection/jacobian/" + K, ij("derivative of the metric d", a, i, j));
    c.close(J2[a][i][j], double(R.d[a][i][j]), 0, double(4*jtol(m, R, a, i, j, numj)), "connection/jacobian2/" + K, ij("derivative of the metric (combined call) d", a, i, j));
    ld tol = 1e-8L*R.S[a][i][j];
    if (m.numeric) for (int b = 0; b < 4; ++b) tol += fabsl(R.gup[a][b])*2*(jtol(m, R, i, b, j, 1) + jtol(m, R, j, b, i, 1) + jtol(m, R, b, i, j, 1));
    for (int b = 0; b < 4; ++b) tol += 3e-13L*fabsl(R.gup[a][b])*(fabsl(R.g[b][j]) + fabsl(R.g[b][i]) + fabsl(R.g[i][j])) + 2*fabsl(R.gup[a][b])*m.rnd*(1/R.h[1] + 1/R.h[2]); // rounding of the reference derivatives
    tol += 1e-14L;
    c.close(C[a][i][j], double(R.G[a][i][j]), 0, double(tol), "connection/christoffel/" + K, ij("Christoffel symbol G", a, i, j));
    c.close(C[a][i][j], C[a][j][i], 1e-10, 1e-12*double(R.S[a][i][j]) + (m.numeric ? double(tol) : 1e-14), "connection/symmetry/" + K, ij("Christoffel symbol not symmetric in its lower indices", a, i, j));
    c.close(m.met->christoffel(m.pos, a, i, j), C[a][i][j], 1e-10, 1e-10*double(R.S[a][i][j]) + 1e-14, "connection/coef/" + K, ij("single Christoffel symbol", a, i, j));
    if (C[a][i][j] != 0) nz = true;
  }
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) c.close(U2[i][j], double(R.gup[i][j]), 1e-7, 1e-8*sqrt(fabs(double(R.gup[i][i]*R.gup[j][j]))), "connection/up/" + K, ij("contravariant metric (combined call)", i, j));
  c.nontrivial = nz;
  // right-hand side of the geodesic equation, with two parallel-transported vectors
  size_t nv = g.flip() ? 16 : 8; state_t x(nv), dx(nv);
  for (int i = 0; i < 4; ++i) x[i] = m.pos[i];
  for (size_t i = 4; i < nv; ++i) x[i] = g.uni(-1, 1);
  x[4] = g.uni(0.5, 3);
  if (K == "KerrBL" || K == "ChernSimons") { Metric::KerrBL const *k = static_cast<Metric::KerrBL const *>((Metric::Generic *)m.met); (void)k; }
  double mass = g.flip();
  if (m.met->diff(x, dx, mass)) c.fail("connection/diff-status/" + K, "geodesic right-hand side reported an error at a regular point");
  for (int i = 0; i < 4; ++i) c.check(dx[i] == x[4+i], "connection/diff-velocity/" + K, "dx/dlambda is not the tangent vector");
  for (size_t v = 4; v < nv; v += 4) for (int a = 0; a < 4; ++a) {
    double e = 0, s = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { e -= C[a][i][j]*x[4+i]*x[v+j]; s += fabs(C[a][i][j]*x[4+i]*x[v+j]); }
    c.close(dx[v+a], e, 0, 1e-10*s, "connection/diff/" + K, v == 4 ? "geodesic acceleration" : "parallel-transport right-hand side"); }
}

// 3+1 decomposition (Kerr in Boyer-Lindquist coordinates)
PBT_SUB(threeplusone, 30000, 300000, "random Kerr spin, point outside the ergoregion, time-like or null direction; non-trivial: non-zero spin") {
  M m = make(g, "KerrBL"); if (m.pos[1] < m.rmin*1.1) m.pos[1] = m.rmin*1.1 + 0.1;
  c.note << at(m); c.nontrivial = m.a != 0; Ref R = reference(m, m.pos);
  double N, b[3]; m.met->computeNBeta(m.pos, N, b);
  c.check(N > 0, "threeplusone/lapse-sign", "lapse is not positive");
  c.close(N*N, double(-1/R.gup[0][0]), 1e-8, 0, "threeplusone/lapse", "square of the lapse vs -1/g^tt");
  for (int i = 0; i < 3; ++i) c.close(b[i], double(-R.gup[0][i+1]/R.gup[0][0]), 1e-8, 1e-12, "threeplusone/shift", "shift vector");
  // right-hand sides in both formulations must describe the same geodesic
  double k[8]; for (int i = 0; i < 4; ++i) k[i] = m.pos[i];
  double w[3] = {g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1)}; double nrm = sqrt(w[0]*w[0]+w[1]*w[1]+w[2]*w[2]) + 1e-3;
  double speed = g.flip() ? 1 : g.uni(0, 0.95); // velocity measured by the Eulerian observer
  double V[3]; for (int i = 0; i < 3; ++i) V[i] = speed*w[i]/nrm/sqrt(double(R.g[i+1][i+1]));
  double E = g.uni(0.5, 2);
  // u = E (n + V), n = (1/N, -beta/N)
  k[4] = E/N; for (int i = 0; i < 3; ++i) k[5+i] = E*(V[i] - b[i]/N);
  state_t x(8), dx(8), y(7), dy(7); for (int i = 0; i < 8; ++i) x[i] = k[i];
  y[0] = E; for (int i = 0; i < 3; ++i) { y[1+i] = m.pos[1+i]; y[4+i] = V[i]; }
  m.met->diff(x, dx, 0.); m.met->diff31(y, dy, 0.);
  for (int i = 0; i < 3; ++i) c.close(dy[1+i]*k[4], k[5+i], 1e-9, 1e-10*fabs(k[4]), "threeplusone/position", "coordinate velocity");
  // numerical derivative of (E,V) along the 4D geodesic
  auto EV = [&](double h, double o[4]) { double p[4], u[4]; for (int i = 0; i < 4; ++i) { p[i] = k[i] + h*k[4+i] + 0.5*h*h*dx[4+i]; u[i] = k[4+i] + h*dx[4+i]; }
    double n2, b2[3]; m.met->computeNBeta(p, n2, b2); o[0] = u[0]*n2; for (int i = 0; i < 3; ++i) o[1+i] = (u[1+i]/u[0] + b2[i])/n2; };
  double h = 1e-4/(fabs(k[4]) + 1), p1[4], m1[4], p2[4], m2[4]; EV(h, p1); EV(-h, m1); EV(2*h, p2); EV(-2*h, m2);
  for (int i = 0; i < 4; ++i) {
    double d = (m2[i] - 8*m1[i] + 8*p1[i] - p2[i])/(12*h); double got = dy[i == 0 ? 0 : 3+i]*k[4];
    double sc = (i == 0 ? E : 1/sqrt(fabs(double(R.g[i][i]))))*fabs(k[4]);
    c.close(got, d, 1e-5, 2e-6*sc, "threeplusone/rhs", "derivative of component " + std::to_string(i) + " (E, Vr, Vth, Vph) in the 3+1 formulation vs the 4D geodesic equation");
  }
}
GY_MAIN
