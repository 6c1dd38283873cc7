// P01: polarisation: transport of the polarisation basis along the ray, magnetic field
// geometries, and the polarisation angle of the emission in the transported basis.
#include "orbit.h"
#include "scn.h"
#include "GyotoFixedStar.h"
#include <Eigen/Dense>
#include <array>
using namespace orb; using mg::M; typedef std::array<ld, 4> V4;
struct Mock : Astrobj::Generic {
  Mock() : Generic("Mock") {} Mock(Mock const &o) = default; Mock *clone() const override { return new Mock(*this); }
  int Impact(Photon *, size_t, Astrobj::Properties *) override { return 0; }
};
static ld dot(ld const g[4][4], V4 const &a, V4 const &b) { ld s = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) s += g[i][j]*a[i]*b[j]; return s; }
static V4 add(V4 a, V4 const &b, ld f) { for (int i = 0; i < 4; ++i) a[i] += f*b[i]; return a; }
static V4 scl(V4 a, ld f) { for (auto &x : a) x *= f; return a; }
static V4 v4(const double *p) { return V4{p[0], p[1], p[2], p[3]}; }
// an orthonormal frame at a place: e0 = u (given, unit timelike), e1..e3 random
struct Frame { V4 e[4]; };
static V4 rndvec(pbt::Gen &g, ld const G[4][4]) { V4 w{}; for (int i = 1; i < 4; ++i) w[i] = ld(g.uni(-1, 1))/sqrtl(fabsl(G[i][i])); return w; }
static Frame frame(pbt::Gen &g, ld const G[4][4], V4 u) {
  Frame f; f.e[0] = u;
  for (int i = 1; i < 4; ++i) for (int n = 0;; ++n) {
    if (n == 20) throw pbt::Discard(); V4 w = rndvec(g, G); w = add(w, u, dot(G, w, u)); for (int j = 1; j < i; ++j) w = add(w, f.e[j], -dot(G, w, f.e[j]));
    ld n2 = dot(G, w, w); if (n2 > 0.02L) { w = scl(w, 1/sqrtl(n2)); w = add(w, u, dot(G, w, u)); for (int j = 1; j < i; ++j) w = add(w, f.e[j], -dot(G, w, f.e[j])); f.e[i] = scl(w, 1/sqrtl(dot(G, w, w))); break; } }
  return f;
}
static V4 normalobs(mg::Ref const &R) { ld N = 1/sqrtl(-R.gup[0][0]); V4 n; for (int i = 0; i < 4; ++i) n[i] = -N*R.gup[0][i]; return n; }
static V4 movingobs(pbt::Gen &g, mg::Ref const &R, double vmax) {
  V4 n = normalobs(R); if (vmax == 0) return n; for (int k = 0; k < 20; ++k) { V4 w = rndvec(g, R.g); if (g.chance(1, 3)) w[2] = 0; if (g.chance(1, 3)) w[1] = 0; ld w2 = dot(R.g, w, w); if (w2 < 1e-3L) continue; ld v = g.uni(0, vmax), G = 1/sqrtl(1 - v*v); return add(scl(n, G), w, G*v/sqrtl(w2)); } throw pbt::Discard();
}
static std::string s4(V4 const &a) { std::ostringstream s; s << std::setprecision(9) << "(" << double(a[0]) << ", " << double(a[1]) << ", " << double(a[2]) << ", " << double(a[3]) << ")"; return s.str(); }
static double angmod(double a, double b) { double d = fmod(a - b, M_PI); if (d > M_PI/2) d -= M_PI; if (d < -M_PI/2) d += M_PI; return fabs(d); }

// ---- transport ------------------------------------------------------------------------
PBT_SUB(transport, 3000, 60000, "random metric, null geodesic, polarisation basis (any gauge), integrator, tolerance, span; non-trivial: at least 5 integration steps in a curved metric or across the axis") {
  Orbit o = orbit(g, "", 0); M &m = o.m; std::string integ = g.pick(integrators()); if (integ == "Legacy") integ = "runge_kutta_fehlberg78";
  double tol = g.pick(std::vector<double>{1e-6, 1e-7, 1e-9}), dmr = g.pick(std::vector<double>{0.1, 0.3, 1.}); double dt = g.logu(5, 300)*g.sgn(); bool chk = !g.chance(1, 4), viadate = g.flip();
  mg::Ref R0 = mg::reference(m, m.pos); V4 n = normalobs(R0), k = v4(o.c + 4); ld E = -dot(R0.g, n, k); V4 kd = add(scl(k, 1/E), n, -1); Frame f;
  { f.e[0] = n; f.e[3] = kd; for (int i = 1; i < 3; ++i) for (int q = 0;; ++q) { if (q == 20) throw pbt::Discard(); V4 w = rndvec(g, R0.g); w = add(w, n, dot(R0.g, w, n)); w = add(w, kd, -dot(R0.g, w, kd)); if (i == 2) w = add(w, f.e[1], -dot(R0.g, w, f.e[1])); ld n2 = dot(R0.g, w, w); if (n2 > 0.02L) { f.e[i] = scl(w, 1/sqrtl(n2)); break; } } }
  if (g.chance(1, 3)) { f.e[1] = add(f.e[1], k, g.uni(-1, 1)); f.e[2] = add(f.e[2], k, g.uni(-1, 1)); }
  double ep[4], et[4]; for (int i = 0; i < 4; ++i) { ep[i] = double(f.e[1][i]); et[i] = double(f.e[2][i]); }
  c.note << show(o) << " integrator=" << integ << " tol=" << tol << " dmax/r=" << dmr << " dt=" << dt << " basis " << s4(f.e[1]) << " " << s4(f.e[2]) << (chk ? "" : " unchecked"); c.label(m.kind); c.label(integ);
  double vecs[8]; memcpy(vecs, ep, 32); memcpy(vecs + 4, et, 32); Ref r(m.met, o.c, 3, vecs); r.tol = 1e-10; if (!r.to(o.c[0] + dt, 0)) throw pbt::Discard();
  if (r.minsin < 0.05 || r.rmin < std::max(1.7*m.rmin, 3.)) throw pbt::Discard();
  SmartPointer<Photon> ph = new Photon(); ph->metric(m.met); ph->parallelTransport(true); ph->integrator(integ); ph->absTol(tol); ph->relTol(tol); ph->deltaMaxOverR(dmr); ph->checkBasis(chk);
  ph->setInitCoord(o.c, 0, ep, et); try { ph->xFill(o.c[0] + dt); } catch (Gyoto::Error const &e) { if (std::string((const char *)e).find("r<0") != std::string::npos) throw pbt::Discard(); throw; } size_t i0 = ph->getImin(), i1 = ph->getImax(); c.nontrivial = m.kind.find("Minkowski") == std::string::npos && i1 - i0 >= 5;
  double T = std::max(tol, 1e-9); bool fwd = dt > 0; std::vector<state_t> pts; size_t nn = i1 - i0 + 1; Ref q(m.met, o.c, 3, vecs); q.tol = 1e-10;
  for (size_t s = 0; s < nn; ++s) { size_t i = fwd ? i0 + s : i1 - s; state_t x(16); ph->getCoord(i, x); pts.push_back(x); }
  if (viadate) for (int s = 0; s < 6; ++s) { double d = o.c[0] + dt*(s + g.uni(0, 1))/6.5; state_t x(16); ph->getCoord(d, x); x[0] = d; pts.push_back(x); }
  if (!fwd) std::sort(pts.begin(), pts.end(), [](state_t const &a, state_t const &b) { return a[0] > b[0]; }); else std::sort(pts.begin(), pts.end(), [](state_t const &a, state_t const &b) { return a[0] < b[0]; });
  
  for (auto &x : pts) {
    if (fwd ? x[0] > o.c[0] + dt : x[0] < o.c[0] + dt) break; if (!q.to(x[0], 0)) break;
    mg::Ref R = mg::reference(m, &x[0]); V4 K = v4(&x[4]), P = v4(&x[8]), Q = v4(&x[12]); V4 nn_ = normalobs(R); ld e = -dot(R.g, nn_, K);
    double steps = 1 + pts.size(), tl = 1e-6 + 300*T*steps; (void)e;
    double dpos = dist(m.spherical, &x[0], &q.y[0])/(1 + q.rmax); if (dpos > 1e-3) throw pbt::Discard(); // sensitive orbit
    double viol[5] = {double(dot(R.g, P, P) - 1), double(dot(R.g, Q, Q) - 1), double(dot(R.g, P, Q)), double(dot(R.g, P, K)/e), double(dot(R.g, Q, K)/e)}; const char *nm[] = {"norm of Ephi", "norm of Etheta", "Ephi.Etheta", "Ephi.k", "Etheta.k"};
    for (int j = 0; j < 5; ++j) {  c.close(viol[j], 0, 0, std::min(tl, 2e-3), "transport/orthonormal", std::string(nm[j]) + " at t=" + gy::num(x[0])); }
    // gauge invariant comparison with the reference transport: components of the difference orthogonal to k
    V4 Pr = v4(&q.y[8]), Qr = v4(&q.y[12]); V4 Kr = v4(&q.y[4]); ld e2 = -dot(R.g, nn_, Kr); V4 kh = add(scl(Kr, 1/e2), nn_, -1); auto tr = [&](V4 a) { a = add(a, Kr, dot(R.g, a, nn_)/e2); return add(a, kh, -dot(R.g, a, kh)); };
    V4 a = tr(P), b = tr(Q), ar = tr(Pr), br = tr(Qr); ld cc = dot(R.g, a, ar), ss = dot(R.g, a, br), c2 = dot(R.g, b, br), s2 = dot(R.g, b, ar); double tt = std::min(5e-2, 1e-4 + 3000*T*steps + 30*dpos);
    c.close(double(ss), 0, 0, tt, "transport/rotation", "first vector rotated at t=" + gy::num(x[0])); c.close(double(cc), 1, 0, tt, "transport/rotation", "first vector, cosine, at t=" + gy::num(x[0])); c.close(double(s2), 0, 0, tt, "transport/rotation", "second vector rotated at t=" + gy::num(x[0])); c.close(double(c2), 1, 0, tt, "transport/rotation", "second vector, cosine, at t=" + gy::num(x[0]));
  }
}

PBT_SUB(axis, 600, 20000, "ray in a meridional plane of a spherically symmetric metric crossing the coordinate axis: the basis keeps its angle with the plane; non-trivial: the ray crosses the axis") {
  std::string kind = g.pick(std::vector<std::string>{"MinkowskiSph", "KerrBL", "ReissnerNordstrom", "RezzollaZhidenko"}); M m = mg::make(g, kind); if (kind == "KerrBL") { m.met->set("Spin", Value(0.)); m.ref = mg::kerrlike([](ld) { return 1.L; }, 0); m.a = 0; m.desc = "KerrBL a=0"; }
  bool south = g.flip(); double r = g.logu(10, 60), th = g.uni(0.15, 1.2), ps = g.uni(0.1, 1.2), E = g.logu(0.5, 2), ang = g.uni(-M_PI, M_PI); m.pos[0] = 0; m.pos[1] = r; m.pos[2] = south ? M_PI - th : th; m.pos[3] = g.uni(-3, 3); mg::Ref R0 = mg::reference(m, m.pos); bool back = g.flip(); double sg = back ? -1 : 1; // backwards in time the spatial motion is reversed
  ld kr = -cosl(ps), kt = sinl(ps)*(south ? 1 : -1); double co[8] = {m.pos[0], m.pos[1], m.pos[2], m.pos[3], double(E/sqrtl(-R0.g[0][0])), double(sg*E*kr/sqrtl(R0.g[1][1])), double(sg*E*kt/sqrtl(R0.g[2][2])), 0};
  auto basis = [&](ld g_[4][4], ld a, ld b, V4 &A, V4 &F) { ld n = sqrtl(a*a + b*b); A = V4{0, -b/n/sqrtl(g_[1][1]), a/n/sqrtl(g_[2][2]), 0}; F = V4{0, 0, 0, 1/sqrtl(g_[3][3])}; };
  V4 A, F; basis(R0.g, sg*kr, sg*kt, A, F); double ep[4], et[4]; for (int i = 0; i < 4; ++i) { ep[i] = double(cosl(ang)*A[i] + sinl(ang)*F[i]); et[i] = double(-sinl(ang)*A[i] + cosl(ang)*F[i]); }
  std::string integ = g.pick(integrators()); if (integ == "Legacy") integ = "runge_kutta_fehlberg78"; double dt = g.logu(10, 150)*sg; c.note << std::setprecision(12) << m.desc << " r=" << r << " theta=" << m.pos[2] << " heading " << ps << " basis angle " << ang << " integrator " << integ << " dt=" << dt; c.label(m.kind); c.label(integ);
  SmartPointer<Photon> ph = new Photon(); ph->metric(m.met); ph->parallelTransport(true); ph->integrator(integ); ph->setInitCoord(co, 0, ep, et); ph->xFill(dt); size_t i0 = ph->getImin(), i1 = ph->getImax(); int flips = 0; double minr = 1e99; state_t px;
  for (size_t s = 0; s + i0 <= i1; ++s) { size_t i = dt > 0 ? i0 + s : i1 - s; state_t x(16); ph->getCoord(i, x); minr = std::min(minr, x[1]); if (minr < std::max(2*m.rmin, 4.)) break; bool here = cos(x[3] - m.pos[3]) > 0; flips = !here; if (fabs(sin(x[2])) < 0.03) continue;
    c.close(fabs(cos(x[3] - m.pos[3])), 1, 0, 1e-6, "axis/plane", "the ray leaves its plane"); mg::Ref R = mg::reference(m, &x[0]); V4 K = v4(&x[4]), n = normalobs(R); ld e = -dot(R.g, n, K); V4 A2, F2; basis(R.g, x[5]*sqrtl(R.g[1][1]), x[6]*sqrtl(R.g[2][2]), A2, F2); if (flips) { A2 = scl(A2, -1); F2 = scl(F2, -1); }
    for (int b = 0; b < 2; ++b) { V4 P = v4(&x[8 + 4*b]); P = add(P, K, dot(R.g, P, n)/e); double pa = double(dot(R.g, P, A2)), pf = double(dot(R.g, P, F2)), wa = b ? -sin(ang) : cos(ang), wf = b ? cos(ang) : sin(ang); c.close(pa, wa, 0, 0.05, "axis/inplane", std::string(flips ? "after crossing the axis, " : "") + "component in the plane of the ray, vector " + std::to_string(b)); c.close(pf, wf, 0, 0.05, "axis/normal", std::string(flips ? "after crossing the axis, " : "") + "component normal to the plane of the ray, vector " + std::to_string(b)); }
    if (flips) c.nontrivial = true; }
}

// ---- magnetic field geometries -----------------------------------------------------------
PBT_SUB(field, 12000, 400000, "random metric, place, emitter in any motion, field geometry (10 kinds); non-trivial: emitter moving with respect to the field direction") {
  M m = mg::make(g); mg::position(g, m, 100); mg::Ref R = mg::reference(m, m.pos); if (!(R.g[0][0] < -0.02L) || !(R.gup[0][0] < 0)) throw pbt::Discard(); if (m.kind == "Shift" || m.negr) throw pbt::Discard();
  if (m.spherical) { for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) if (!(i == 3 && j == 0) && R.g[i][j] != 0) throw pbt::Discard(); }
  Mock mo; SmartPointer<Astrobj::Generic> o = mo.clone(); o->metric(m.met); std::vector<std::string> kinds = {"Vertical", "Radial", "Toroidal", "Poloidal"}; if (m.spherical) kinds.push_back("Parabolic"); std::string kind = g.pick(kinds); bool neg = g.flip(); double vmax = g.pick(std::vector<double>{0, 0.3, 0.9}), par = g.chance(1, 3) ? 0.75 : g.uni(0, 1.25);
  V4 u = movingobs(g, R, vmax); double co[8]; state_t cp(8); for (int i = 0; i < 4; ++i) { co[i] = cp[i] = m.pos[i]; co[4+i] = double(u[i]); } cp[4] = 1;
  c.note << mg::at(m) << " u=" << s4(u) << " field " << kind << (neg ? "-n" : ""); c.label(kind); double B[4] = {NAN, NAN, NAN, NAN}, B2[4]; o->computeB4vect(B, kind + (neg ? "-n" : ""), co, cp, par); o->computeB4vect(B2, kind + (neg ? "" : "-n"), co, cp, par);
  V4 b = v4(B); double rt = 1e-7; c.close(double(dot(R.g, b, b)), 1, rt, 0, "field/norm", "B.B for " + kind); ld bs = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) bs += fabsl(R.g[i][j]*b[i]*u[j]); c.close(double(dot(R.g, b, u)), 0, 0, double(1e-8L*bs + 1e-9L), "field/rest-frame", "B.u for " + kind);
  for (int i = 0; i < 4; ++i) c.close(B2[i], -B[i], 1e-12, 1e-300, "field/opposite", "reversed field is not the opposite, component " + std::to_string(i));
  // direction: spatial components along the named direction
  ld d[4] = {0, 0, 0, 0}; ld x = m.pos[1], y = m.pos[2], z = m.pos[3], th = m.pos[2];
  if (m.spherical) { ld sr = 1/sqrtl(R.g[1][1]), st = 1/sqrtl(R.g[2][2]); if (kind == "Vertical") { d[1] = cosl(th)*sr; d[2] = -sinl(th)*st; } else if (kind == "Radial") d[1] = sr; else if (kind == "Toroidal") d[3] = 1/sqrtl(R.g[3][3]); else if (kind == "Poloidal") d[2] = st; else { ld w = par, rr = m.pos[1]; d[1] = (cosl(th) < 0 ? -1 : 1)*powl(rr, w - 2); d[2] = -w*powl(rr, w - 3)*(1 - fabsl(cosl(th)))/sinl(th); } }
  else { ld rc = sqrtl(x*x + y*y), rr = sqrtl(rc*rc + z*z); if (kind == "Vertical") d[3] = 1; else if (kind == "Radial") { d[1] = x/rr; d[2] = y/rr; d[3] = z/rr; } else if (kind == "Toroidal") { d[1] = -y/rc; d[2] = x/rc; } else { d[1] = x*z/(rr*rc); d[2] = y*z/(rr*rc); d[3] = -rc/rr; } }
  // B must be the projection-normalised vector with these spatial components: unique
  V4 D{0, d[1], d[2], d[3]}; V4 tvec{1, 0, 0, 0}; ld ut = dot(R.g, u, tvec); D[0] = -dot(R.g, D, u)/ut; ld n2 = dot(R.g, D, D); if (!(n2 > 1e-12L)) throw pbt::Discard(); D = scl(D, (neg ? -1 : 1)/sqrtl(n2));
  ld sc = 0; for (int i = 0; i < 4; ++i) sc = std::max(sc, fabsl(D[i])*sqrtl(fabsl(R.g[i][i]))); for (int i = 0; i < 4; ++i) c.close(B[i], double(D[i]), 1e-6, double(1e-7L*sc/sqrtl(fabsl(R.g[i][i]))), "field/direction", kind + " field, component " + std::to_string(i));
  V4 still = u; ld vs = 0; for (int i = 1; i < 4; ++i) vs += fabsl(still[i]*d[i]); c.nontrivial = vs > 1e-6L;
}
// the other formalism (Kerr in Boyer-Lindquist): orthogonal to the 4-velocity
PBT_SUB(ipole, 4000, 100000, "Kerr spin, place, emitter in any motion; field of the alternative formalism is in the rest frame of the emitter and points as named; non-trivial: emitter moves") {
  M m = mg::make(g, "KerrBL"); mg::position(g, m, 100); mg::Ref R = mg::reference(m, m.pos); if (!(R.g[0][0] < -0.02L)) throw pbt::Discard(); SmartPointer<Astrobj::Generic> o = new Mock(); o->metric(m.met);
  std::string kind = g.pick(std::vector<std::string>{"Vertical", "Radial", "Toroidal"}); V4 u = movingobs(g, R, g.flip() ? 0 : 0.8); double co[8]; state_t cp(8); for (int i = 0; i < 4; ++i) { co[i] = cp[i] = m.pos[i]; co[4+i] = double(u[i]); } cp[4] = 1; c.note << mg::at(m) << " u=" << s4(u) << " ipole field " << kind;
  double B[4]; o->computeB4vect_ipole(B, kind, co, cp, m.a); V4 b = v4(B); ld bs = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) bs += fabsl(R.g[i][j]*b[i]*u[j]); { ld rr = m.pos[1], D = rr*rr - 2*rr + m.a*m.a; V4 t{1, 0, 0, 0}; bs += fabsl(b[1]*2*rr/D*dot(R.g, t, u)) + fabsl(b[1]*m.a/D*dot(R.g, V4{0, 0, 0, 1}, u)); } c.check(dot(R.g, b, b) > 0, "ipole/norm", "field is not spacelike"); c.close(double(dot(R.g, b, u)), 0, 0, double(1e-9L*bs), "ipole/rest-frame", "B.u"); c.nontrivial = u[1] != 0 || u[2] != 0; c.label(kind);
}

// ---- angle ----------------------------------------------------------------------------------
PBT_SUB(angle, 20000, 600000, "random metric, place, emitter in any motion, photon, polarisation basis in any gauge, field direction, magnetic or electric; non-trivial: emitter moving and field oblique") {
  M m = mg::make(g); mg::position(g, m, 100); mg::Ref R = mg::reference(m, m.pos); if (!(R.gup[0][0] < 0)) throw pbt::Discard(); SmartPointer<Astrobj::Generic> o = new Mock(); o->metric(m.met);
  double vmax = g.pick(std::vector<double>{0, 0.3, 0.8}); V4 u = movingobs(g, R, vmax); Frame f = frame(g, R.g, u); ld E = g.logu(0.2, 5); V4 K = f.e[3], k = scl(add(u, K, 1), E); if (g.flip()) { K = scl(K, 1); }
  V4 W = f.e[1], N = f.e[2]; double beta = g.chance(1, 4) ? g.range(-4, 4)*M_PI/4 : g.uni(-M_PI, M_PI), thB = g.chance(1, 8) ? M_PI/2 : g.uni(0.05, M_PI - 0.05); bool elec = g.flip(); double amp = g.chance(1, 2) ? 1 : g.logu(0.1, 10);
  V4 b = add(add(scl(N, cosl(beta)*sinl(thB)), W, sinl(beta)*sinl(thB)), K, cosl(thB)); b = scl(b, amp); double du = g.chance(1, 3) ? g.uni(-0.4, 0.4)*amp : 0; b = add(b, u, du); // a part along u does not matter
  ld gp = 0, gq = 0; if (g.flip()) { gp = g.uni(-1, 1); gq = g.uni(-1, 1); } V4 P = add(W, k, gp), Q = add(N, k, gq); state_t cp(16); double B[4], vel[4]; for (int i = 0; i < 4; ++i) { cp[i] = m.pos[i]; cp[4+i] = double(k[i]); cp[8+i] = double(P[i]); cp[12+i] = double(Q[i]); B[i] = double(b[i]); vel[i] = double(u[i]); }
  c.note << mg::at(m) << " u=" << s4(u) << " k=" << s4(k) << " field at " << beta << " from north towards west, " << thB << " from the ray, " << (elec ? "electric" : "magnetic"); c.label(elec ? "electric" : "magnetic");
  double want = -beta + (elec ? 0 : M_PI/2); double chi = o->getChi(B, cp, vel, elec), s2, c2; double tol = 1e-5;
  c.check(chi >= -M_PI/2 - 1e-12 && chi <= M_PI/2 + 1e-12, "angle/range", "angle outside -90..90 degrees"); c.close(angmod(chi, want), 0, 0, tol, "angle/evpa", "polarisation angle " + gy::num(chi) + ", expected " + gy::num(want));
  o->getSinCos2Chi(B, cp, vel, &s2, &c2, elec); c.close(s2, sin(2*want), 0, 2*tol, "angle/sin", "sin(2 chi)"); c.close(c2, cos(2*want), 0, 2*tol, "angle/cos", "cos(2 chi)");
  c.close(o->get_theta_mag(B, cp, vel), thB, 0, tol, "angle/pitch", "angle between field and ray"); c.nontrivial = vmax > 0 && fabs(thB - M_PI/2) > 0.1;
}

// ---- from the emitter to the sky ------------------------------------------------------------
struct PolStar : Astrobj::FixedStar {
  std::string cfg; double pf = 0.6, pv = 0.1; mutable int calls = 0; mutable double hitx[16], hitB[4];
  PolStar() : FixedStar() {} PolStar(PolStar const &o) = default; PolStar *clone() const override { return new PolStar(*this); }
  using Astrobj::FixedStar::radiativeQ;
  void radiativeQ(double *I, double *Q, double *U, double *W, Eigen::Matrix4d *On, double const *, size_t n, double ds, state_t const &cp, double const *co) const override {
    double B[4]; computeB4vect(B, cfg, co, cp); if (!calls++) { for (size_t i = 0; i < cp.size(); ++i) hitx[i] = cp[i]; memcpy(hitB, B, 32); } double chi = getChi(B, cp, co + 4); double a = flag_radtransf_ ? ds : 1;
    for (size_t i = 0; i < n; ++i) { Eigen::Vector4d j = rotateJs(a, pf*a, 0, pv*a, chi); I[i] = j(0); Q[i] = j(1); U[i] = j(2); W[i] = j(3); On[i] = Eigen::Matrix4d::Identity()*(flag_radtransf_ ? 1. : 0.); } }
};
struct Stokes { double I, Q, U, V; bool hit; };
static Stokes trace(SmartPointer<Metric::Generic> met, SmartPointer<Astrobj::Generic> o, SmartPointer<Screen> scr, double a, double b, double dmr = 0) {
  SmartPointer<Photon> ph = new Photon(); if (dmr) ph->deltaMaxOverR(dmr); ph->metric(met); ph->parallelTransport(true); ph->spectrometer(scr->spectrometer()); ph->freqObs(scr->freqObs()); ph->tMin(-3000); ph->setInitialCondition(met, o, scr, a, b);
  size_t n = scr->spectrometer()->nSamples(); std::vector<double> sI(n), sQ(n), sU(n), sV(n); Astrobj::Properties d; d.spectrum = &sI[0]; d.stokesQ = &sQ[0]; d.stokesU = &sU[0]; d.stokesV = &sV[0]; d.offset = 1; d.init(n); ph->hit(&d); return Stokes{sI[0], sQ[0], sU[0], sV[0], sI[0] != 0};
}
static SmartPointer<Screen> cam(pbt::Gen &g, SmartPointer<Metric::Generic> m, double dist, double inc, double paln, double arg, double nu) {
  SmartPointer<Screen> s = new Screen(); s->metric(m); s->distance(dist, "geometrical"); s->time(dist, "geometrical_time"); s->inclination(inc); s->PALN(paln); s->argument(arg); s->fieldOfView(1); s->freqObs(nu); s->anglekind("SphericalAngles"); SmartPointer<Spectrometer::Generic> sp = gy::spectrometer("freqlog"); sp->set("NSamples", Value(size_t(1))); sp->set("Band", Value(std::vector<double>{log10(nu) - 0.05, log10(nu) + 0.05})); s->spectrometer(sp); return s;
}
static void rotated(pbt::Ctx &c, Stokes const &a, Stokes const &b, double p, double tol) {
  double q = a.Q*cos(2*p) - a.U*sin(2*p), u = a.Q*sin(2*p) + a.U*cos(2*p); c.close(b.I, a.I, tol, 0, "image/paln-I", "intensity in the rotated image"); c.close(b.V, a.V, 0, tol*a.I, "image/paln-V", "circular polarisation in the rotated image"); c.close(b.Q, q, 0, tol*a.I, "image/paln-Q", "Stokes Q in the rotated image"); c.close(b.U, u, 0, tol*a.I, "image/paln-U", "Stokes U in the rotated image");
}
PBT_SUB(image, 1500, 40000, "polarised emitter at rest with any field geometry in flat space (Cartesian or spherical coordinates), any camera: position angle on the sky against the projected cross product of ray and field; any metric: image rotated with the camera; non-trivial: ray hits") {
  static std::vector<std::string> mk = {"Minkowski", "MinkowskiSph", "MinkowskiSph", "Minkowski", "KerrBL", "KerrKS", "ReissnerNordstrom", "SchwarzschildHarmonic"}; std::string kind = g.pick(mk); M m = mg::make(g, kind); bool flat = kind[0] == 'M';
  PolStar *o = new PolStar(); SmartPointer<Astrobj::Generic> own(o); o->metric(m.met); double r = g.uni(flat ? 0.5 : 8, 15), th = g.uni(0.2, M_PI - 0.2), ph = g.uni(-3, 3), R = g.uni(0.5, 2); if (R > 0.8*r*sin(th)) R = 0.8*r*sin(th); double X[3] = {r*sin(th)*cos(ph), r*sin(th)*sin(ph), r*cos(th)}, ps[3] = {r, th, ph}; o->setPos(m.spherical ? ps : X); o->radius(R); o->rMax(60); o->cfg = g.pick(std::vector<std::string>{"Vertical", "Radial", "Toroidal", "Poloidal"}) + (g.chance(1, 4) ? "-n" : ""); o->opticallyThin(g.chance(1, 3));
  double dist = g.pick(std::vector<double>{100, 300, 1000}), inc = g.uni(0.1, 3.), paln = g.uni(0, 2*M_PI), arg = g.uni(-3, 3), p = g.uni(-3, 3); SmartPointer<Screen> s = cam(g, m.met, dist, inc, paln, arg, 1e12), s2 = cam(g, m.met, dist, inc, paln + p, arg, 1e12);
  // aim near the object in the straight line approximation, in the sky coordinates found from the camera itself
  double fx = X[0] + g.uni(-0.7, 0.7)*R, fy = X[1] + g.uni(-0.7, 0.7)*R, fz = X[2] + g.uni(-0.7, 0.7)*R; double xyz[3] = {fx, fy, fz}, sky[3]; 
  { double ip[4] = {0, xyz[0], xyz[1], xyz[2]}; if (m.spherical) { double q[3] = {sqrt(xyz[0]*xyz[0] + xyz[1]*xyz[1] + xyz[2]*xyz[2]), 0, 0}; q[1] = acos(xyz[2]/q[0]); q[2] = atan2(xyz[1], xyz[0]); memcpy(ip + 1, q, 24); } s->coordToSky(ip, sky, true); }
  double ea = sky[0], no = sky[1], rho = atan2(hypot(ea, no), dist + sky[2]), b = atan2(no, ea);
  c.note << std::setprecision(12) << m.desc << " star at r=" << r << " theta=" << th << " phi=" << ph << " radius " << R << " field " << o->cfg << (o->opticallyThin() ? " thin" : " opaque") << " distance " << dist << " inclination " << inc << " PALN " << paln << " argument " << arg << " sky angles " << rho << " " << b << " rotated by " << p; c.label(m.kind); c.label(o->cfg);
  Stokes A = trace(m.met, own, s, rho, b); if (!A.hit) { c.label("missed"); return; } c.nontrivial = true; double hx[16], hB[4]; memcpy(hx, o->hitx, sizeof hx); memcpy(hB, o->hitB, 32); double tol = (flat ? 1e-3 : 2e-3)*(1 + 3/(r*sin(th)));
  c.close(hypot(A.Q, A.U), o->pf*A.I, o->opticallyThin() ? 1 : 1e-6, 0, "image/degree", "degree of linear polarisation"); c.close(A.V, o->pv*A.I, 1e-6, 0, "image/circular", "circular polarisation");
  Stokes B = trace(m.met, own, s2, rho, b + p); c.check(B.hit, "image/paln-hit", "the rotated camera does not see the object where it should"); rotated(c, A, B, -p, o->opticallyThin() ? 0.02 : tol);
  if (flat && (!o->opticallyThin() || o->cfg.substr(0, 4) == "Vert")) { // static basis: compare with the cross product, in Cartesian components
    double co[8], ep[4], et[4]; s->getRayTriad(rho, b, co, true, ep, et); auto cart = [&](const double *at, const double *v, double out[3]) { if (!m.spherical) { for (int i = 0; i < 3; ++i) out[i] = v[1+i]; return; } double r = at[1], t = at[2], f = at[3], vr = v[1], vt = r*v[2], vf = r*sin(t)*v[3]; out[0] = vr*sin(t)*cos(f) + vt*cos(t)*cos(f) - vf*sin(f); out[1] = vr*sin(t)*sin(f) + vt*cos(t)*sin(f) + vf*cos(f); out[2] = vr*cos(t) - vt*sin(t); };
    double W[3], N[3], K[3], Bc[3]; cart(co, ep, W); cart(co, et, N); cart(co, co + 4, K);
    { double x, y, z; if (m.spherical) { x = hx[1]*sin(hx[2])*cos(hx[3]); y = hx[1]*sin(hx[2])*sin(hx[3]); z = hx[1]*cos(hx[2]); } else { x = hx[1]; y = hx[2]; z = hx[3]; } double rc = hypot(x, y), rr = hypot(rc, z); std::string f = o->cfg.substr(0, 4); if (f == "Vert") { Bc[0] = Bc[1] = 0; Bc[2] = 1; } else if (f == "Radi") { Bc[0] = x/rr; Bc[1] = y/rr; Bc[2] = z/rr; } else if (f == "Toro") { Bc[0] = -y/rc; Bc[1] = x/rc; Bc[2] = 0; } else { Bc[0] = x*z/rr/rc; Bc[1] = y*z/rr/rc; Bc[2] = -rc/rr; } }
    double E[3] = {K[1]*Bc[2] - K[2]*Bc[1], K[2]*Bc[0] - K[0]*Bc[2], K[0]*Bc[1] - K[1]*Bc[0]}; double en = 0, ew = 0, kk = 0; for (int i = 0; i < 3; ++i) { en += E[i]*N[i]; ew += E[i]*W[i]; kk += K[i]*K[i]; } if (hypot(en, ew)/sqrt(kk) > 0.05) { double want = atan2(-ew, en), got = 0.5*atan2(A.U, A.Q); c.close(angmod(got, want), 0, 0, 2e-3, "image/evpa", "position angle of the polarisation " + gy::num(got) + ", expected " + gy::num(want)); }
    if (o->cfg.substr(0, 4) == "Vert" && fabs(sin(inc)) > 0.3 && rho < 0.02) c.close(angmod(0.5*atan2(A.U, A.Q), M_PI/2 - paln), 0, 0, 0.1, "image/paln", "vertical field: polarisation along the line of nodes");
  }
}
// objects of the library with polarised synchrotron emission
PBT_SUB(objects, 160, 4000, "polarised synchrotron objects around a Kerr black hole (disk, jet, blob), field geometry, camera: rotated with the camera; degree of polarisation below one; non-trivial: polarised flux received") {
  std::string k = g.pick(std::vector<std::string>{"ThickDisk", "Jet", "Blob"}); scn::S st; st.mkind = "KerrBL"; st.akind = k; st.met = scn::metric(g, st.mkind, st.d); st.obj = scn::astrobj(g, k, st.met, st); { std::string cfg = g.pick(std::vector<std::string>{"Vertical", "Radial", "Toroidal", "Poloidal"}); st.obj->set("MagneticConfiguration", Value(cfg)); st.d << " field " << cfg; } st.met->mass(g.logu(1e6, 1e8)*1.989e30); st.d << " mass " << st.met->mass(); double T = g.logu(3e10, 5e11); st.obj->set(k == "ThickDisk" ? "TemperatureAtInnerRadius" : k == "Jet" ? "BaseTemperature" : "Temperature", Value(T)); st.d << " T=" << T; st.obj->set("DeltaInObj", Value(0.03));
  double dist = 300, inc = g.uni(0.2, 2.9), paln = g.uni(0, 6.28), arg = g.uni(-3, 3), p = g.uni(-3, 3), nu = g.logu(1e11, 1e12); SmartPointer<Screen> s = cam(g, st.met, dist, inc, paln, arg, nu), s2 = cam(g, st.met, dist, inc, paln + p, arg, nu); double rho = g.uni(2, 11)/dist, b = g.uni(-3, 3); c.note << std::setprecision(12) << st.desc() << " inclination " << inc << " PALN " << paln << " argument " << arg << " nu " << nu << " sky " << rho << " " << b << " rotated by " << p; c.label(k);
  Stokes A, B; try { A = trace(st.met, st.obj, s, rho, b, 0.02); B = trace(st.met, st.obj, s2, rho, b + p, 0.02); } catch (Gyoto::Error const &e) { std::string t((const char *)e); if (t.find("Correction of polar basis") != t.npos || t.find("Bad transformation of the polarization basis") != t.npos || t.find("properly parallel") != t.npos || t.find("Unphysical value") != t.npos) throw pbt::Discard(); throw; }
  if (!(A.I > 1e-25)) { c.label("dark"); return; } c.nontrivial = hypot(A.Q, A.U) > 1e-3*A.I; c.check(hypot(hypot(A.Q, A.U), A.V) <= 1.001*A.I, "objects/degree", "more polarised light than light"); rotated(c, A, B, -p, 0.02);
}
GY_MAIN
