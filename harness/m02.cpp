// M02: kinematic quantities derived from a metric (four-velocities, tetrads,
// circular orbits, light-like completion, Doughnut functions).
#include "metgen.h"
using namespace mg;
static double dot(Ref const &R, const double *a, const double *b, double *scale = nullptr) {
  ld s = 0, t = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { ld x = R.g[i][j]*a[i]*b[j]; s += x; t += fabsl(x); }
  if (scale) *scale = double(t); return double(s);
}
// random vector v with g(v,v)=-1, future directed, built from the reference inverse metric (Eulerian observer) 
static bool timelike(pbt::Gen &g, M const &m, Ref const &R, double u[4], double vmax = 0.95) {
  if (!(R.gup[0][0] < 0)) return false;
  ld N = 1/sqrtl(-R.gup[0][0]), n[4]; for (int i = 0; i < 4; ++i) n[i] = -N*R.gup[0][i]; // n^a, future
  // spatial direction: projected random vector
  ld w[4] = {0, 0, 0, 0}, w2 = 0; for (int i = 1; i < 4; ++i) w[i] = ld(g.uni(-1, 1))/sqrtl(fabsl(R.g[i][i]) + 1e-30L);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) w2 += R.g[i][j]*w[i]*w[j];
  ld v = g.chance(1, 4) ? 0 : ld(g.uni(0, vmax)); if (!(w2 > 1e-8)) v = 0;
  ld G = 1/sqrtl(1 - v*v); for (int i = 0; i < 4; ++i) u[i] = double(G*(n[i] + (v > 0 ? v*w[i]/sqrtl(w2) : 0)));
  return true;
}

PBT_SUB(fourvel, 60000, 800000, "random metric, point and sub-luminal velocity; non-trivial: moving particle (some spatial component non-zero)") {
  M m = make(g); std::string K = m.kind; Ref R = reference(m, m.pos); double u[4]; if (!timelike(g, m, R, u)) throw pbt::Discard();
  if (fabs(u[0]) < 1e-3) throw pbt::Discard();
  c.note << at(m) << " u=(" << u[0] << ',' << u[1] << ',' << u[2] << ',' << u[3] << ')'; c.label(K);
  c.nontrivial = u[1] || u[2] || u[3]; bool fut = u[0] > 0;
  if (!fut) throw pbt::Discard();
  double sc; dot(R, u, u, &sc); double tol = 1e-9*sc + 1e-9;
  double v[3] = {u[1]/u[0], u[2]/u[0], u[3]/u[0]};
  c.close(m.met->SysPrimeToTdot(m.pos, v), u[0], tol, 0, "fourvel/tdot/" + K, "dt/dtau from the coordinate 3-velocity");
  double f = g.logu(0.05, 20)*g.sgn(), w[8]; for (int i = 0; i < 4; ++i) { w[i] = m.pos[i]; w[4+i] = u[i]*f; }
  bool whole = g.flip();
  if (whole) m.met->normalizeFourVel(w); else m.met->normalizeFourVel(m.pos, w + 4);
  for (int i = 0; i < 4; ++i) { c.close(w[4+i], u[i], tol, 1e-14, "fourvel/normalize/" + K, "component " + std::to_string(i) + " of the normalised four-velocity"); c.check(w[i] == m.pos[i], "fourvel/position/" + K, "normalisation changed the position"); }
  // super-luminal coordinate velocities have no proper time
  double fast[3]; for (int i = 0; i < 3; ++i) fast[i] = (i == 0 ? 3.0 : 0.5)*(1 + sqrt(fabs(double(R.g[0][0]))))/sqrt(fabs(double(R.g[i+1][i+1]))) * g.sgn();
  double x[4] = {1, fast[0], fast[1], fast[2]}; if (dot(R, x, x) > 0.01) c.check(m.met->SysPrimeToTdot(m.pos, fast) == 0., "fourvel/superluminal/" + K, "a super-luminal velocity was given a finite dt/dtau");
  // Cartesian velocity
  double cv[3], e[3]; m.met->cartesianVelocity(w, cv);
  if (m.spherical) { double r = m.pos[1], st = sin(m.pos[2]), ct = cos(m.pos[2]), sp = sin(m.pos[3]), cp = cos(m.pos[3]);
    e[0] = v[0]*st*cp + r*v[1]*ct*cp - r*v[2]*st*sp; e[1] = v[0]*st*sp + r*v[1]*ct*sp + r*v[2]*st*cp; e[2] = v[0]*ct - r*v[1]*st;
  } else for (int i = 0; i < 3; ++i) e[i] = v[i];
  double es = fabs(e[0]) + fabs(e[1]) + fabs(e[2]);
  for (int i = 0; i < 3; ++i) c.close(cv[i], e[i], 0, (1e-8 + 10*tol)*es + 1e-13, "fourvel/cartesian/" + K, "Cartesian velocity");
  // step bound of the legacy integrator
  double dm = m.met->deltaMax(m.pos, 1e300), r = fabs(m.pos[1]); if (!m.spherical) r = std::max(r, std::max(fabs(m.pos[2]), fabs(m.pos[3])));
  double lim = std::max(m.met->deltaMin(), std::min(m.met->deltaMax(), r*m.met->deltaMaxOverR()));
  if (K != "Shift") c.close(dm, lim, 1e-12, 0, "fourvel/stepbound/" + K, "maximum integration step at the position");
}

PBT_SUB(nullvec, 60000, 800000, "random metric, point with g_tt<0 and spatial direction; non-trivial: metric with non-trivial lapse or shift") {
  M m = make(g); std::string K = m.kind; Ref R = reference(m, m.pos); if (!(R.g[0][0] < -1e-3)) throw pbt::Discard();
  double k[8]; for (int i = 0; i < 4; ++i) k[i] = m.pos[i];
  k[4] = g.uni(-5, 5); for (int i = 1; i < 4; ++i) k[4+i] = g.chance(1, 8) ? 0 : g.uni(-1, 1)/sqrt(fabs(double(R.g[i][i])) + 1e-12);
  c.note << at(m) << " k=(?," << k[5] << ',' << k[6] << ',' << k[7] << ')'; c.label(K); c.nontrivial = K.substr(0, 9) != "Minkowski";
  ld a = R.g[0][0], b = 0, q = 0; for (int i = 1; i < 4; ++i) { b += R.g[0][i]*k[4+i]; for (int j = 1; j < 4; ++j) q += R.g[i][j]*k[4+i]*k[4+j]; }
  ld D = b*b - a*q; if (!(D > 1e-12)) throw pbt::Discard();
  ld r1 = (-b - sqrtl(D))/a, r2 = (-b + sqrtl(D))/a; // a<0: r1 is the largest
  double t2 = 12345, in[8]; memcpy(in, k, sizeof in);
  double one[8]; memcpy(one, k, sizeof one);
  m.met->nullifyCoord(k, t2); m.met->nullifyCoord(one);
  double tol = 1e-8*double(sqrtl(D)/fabsl(a) + fabsl(b/a)) + 1e-12;
  c.close(k[4], double(r1), 0, tol, "nullvec/future/" + K, "future light-like root");
  c.close(t2, double(r2), 0, tol, "nullvec/past/" + K, "second light-like root");
  c.close(one[4], double(r1), 0, tol, "nullvec/short/" + K, "future light-like root (one-argument form)");
  for (int i = 0; i < 8; ++i) if (i != 4) c.check(k[i] == in[i] && one[i] == in[i], "nullvec/untouched/" + K, "light-like completion changed another component");
}

PBT_SUB(zamo, 40000, 500000, "random metric and point; non-trivial: rotating metric (g_tphi != 0 or non-static slicing)") {
  M m = make(g); std::string K = m.kind; Ref R = reference(m, m.pos); double ep[4] = {0, 0, 0, 1};
  if (!m.spherical) { double rr = hypot(m.pos[1], m.pos[2]); if (rr < 1e-6) throw pbt::Discard(); ep[1] = -m.pos[2]/rr; ep[2] = m.pos[1]/rr; ep[3] = 0; }
  double et[4] = {1, 0, 0, 0}; double gpp = dot(R, ep, ep), gtp = dot(R, et, ep), gtt = double(R.g[0][0]);
  if (!(gpp > 1e-9)) throw pbt::Discard(); double n2 = gtt - gtp*gtp/gpp; if (n2 > -1e-3) throw pbt::Discard();
  c.note << at(m); c.label(K); c.nontrivial = gtp != 0;
  double u[4]; m.met->zamoVelocity(m.pos, u);
  double f = 1/sqrt(-n2); double amp = 1e-9*(1 + (fabs(gtt) + gtp*gtp/gpp)/(-n2));
  for (int i = 0; i < 4; ++i) c.close(u[i], f*(et[i] - gtp/gpp*ep[i]), amp, amp*f*1e-2, "zamo/velocity/" + K, "component " + std::to_string(i) + " of the zero-angular-momentum observer velocity");
  double s; c.close(dot(R, u, u, &s), -1, 0, amp*10 + 1e-9*s, "zamo/norm/" + K, "norm of the ZAMO velocity");
  c.close(dot(R, u, ep, &s), 0, 0, 1e-9*s, "zamo/angmom/" + K, "angular momentum of the ZAMO");
}

// reference angular velocity of the equatorial circular geodesics at radius r
static bool omega(M const &m, ld r, ld &om, int dir) {
  ld x[4] = {0, r, M_PIl/2, 0}, h = 1e-4L*r, t[5][4][4]; for (int k = -2; k <= 2; ++k) { ld y[4] = {0, r + k*h, x[2], 0}; m.ref(t[k+2], y); }
  auto d = [&](int i, int j) { return (t[0][i][j] - 8*t[1][i][j] + 8*t[3][i][j] - t[4][i][j])/(12*h); };
  ld A = d(3, 3), B = d(0, 3), C = d(0, 0); ld D = B*B - A*C; if (!(D > 0) || !(A > 0)) return false;
  om = (-B + dir*sqrtl(D))/A; return true;
}
static ld quad(const ld g[4][4], ld om) { return g[0][0] + 2*om*g[0][3] + om*om*g[3][3]; }
static std::vector<std::string> const circ = {"KerrBL", "KerrKS", "ReissnerNordstrom", "SchwarzschildHarmonic", "RezzollaZhidenko", "KonoplyaRezzollaZhidenko", "Hayward", "ChernSimons"};

PBT_SUB(circular, 60000, 800000, "random metric implementing circular orbits, radius outside the photon orbit, direction, on or off the equatorial plane, with and without the Keplerian option; non-trivial: relativistic orbit (r<100)") {
  M m = make(g, g.pick(circ)); std::string K = m.kind; int dir = g.flip() ? -1 : 1; bool kep = g.chance(1, 4); bool eq = g.chance(2, 3);
  double r = g.logu(1.02*m.rmin, 200), th = eq ? M_PI/2 : g.uni(0.3, M_PI - 0.3), ph = g.uni(-3, 3);
  if (K == "ChernSimons") r += 3;
  double rp = r*sin(th);
  if (K == "SchwarzschildHarmonic" && !eq) { eq = true; th = M_PI/2; rp = r; } // projection is convention-dependent there
  if (m.spherical) { m.pos[1] = r; m.pos[2] = th; m.pos[3] = ph; }
  else { double rho = sqrt(r*r + m.a*m.a); m.pos[1] = rho*cos(ph); m.pos[2] = rho*sin(ph); m.pos[3] = eq ? 0 : r/tan(th); rp = r; if (rp < m.rmin) throw pbt::Discard(); }
  if (rp < m.rmin*1.01) throw pbt::Discard();
  m.met->keplerian(kep);
  c.note << at(m) << " dir=" << dir << (kep ? " keplerian" : ""); c.label(K); if (!eq) c.label("offplane"); if (kep) c.label("keplerian");
  ld om;
  if (kep) om = dir*powl(m.spherical ? rp : hypot(m.pos[1], m.pos[2]), -1.5L);
  else if (m.spherical) { if (!omega(m, rp, om, dir)) throw pbt::Discard(); }
  else { M bl; bl.ref = kerrlike([](ld) { return ld(1); }, m.a); if (!omega(bl, rp, om, dir)) throw pbt::Discard(); }
  Ref R = reference(m, m.pos);
  double w[4] = {1, 0, 0, double(om)}; if (!m.spherical) { w[1] = -m.pos[2]*double(om); w[2] = m.pos[1]*double(om); w[3] = 0; }
  double sc, q = dot(R, w, w, &sc); if (q > -0.02) throw pbt::Discard(); // too close to light-like
  c.nontrivial = r < 100;
  double f = 1/sqrt(-q), u[4]; m.met->circularVelocity(m.pos, u, dir);
  double tol = 1e-7*sc/(-q);
  for (int i = 0; i < 4; ++i) c.close(u[i], f*w[i], tol, 1e-10*f, std::string("circular/") + (kep ? "keplerian/" : eq ? "geodesic/" : "offplane/") + K,
    "component " + std::to_string(i) + (kep ? " of the Keplerian (r^-3/2) four-velocity" : " of the circular-orbit four-velocity"));
  c.close(dot(R, u, u), -1, 0, tol, "circular/norm/" + K, "norm of the circular-orbit velocity at the requested position");
  if (eq && !kep) { // independent restatement: no radial or vertical acceleration
    for (int a = 1; a < 4; ++a) { ld s = 0, t = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { ld x = R.G[a][i][j]*u[i]*u[j]; s += x; t += fabsl(x); }
      if (m.spherical) c.close(double(s), 0, 0, 1e-6*double(t) + 1e-12, "circular/acceleration/" + K, "acceleration component " + std::to_string(a) + " on the circular orbit"); } }
}

PBT_SUB(doughnut, 30000, 400000, "random stationary metric with torus functions, radius; non-trivial: every case that has a circular time-like geodesic") {
  M m = make(g, g.pick<std::string>({"KerrBL", "ReissnerNordstrom", "RezzollaZhidenko", "Hayward"})); std::string K = m.kind;
  double r = g.logu(1.05*m.rmin, 100); ld om; if (!omega(m, r, om, 1)) throw pbt::Discard();
  ld x[4] = {0, r, M_PIl/2, 0}, G[4][4]; m.ref(G, x); ld q = quad(G, om); if (q > -0.02) throw pbt::Discard();
  c.note << m.desc << " r=" << r; c.label(K); c.nontrivial = true;
  ld ut = G[0][0] + om*G[0][3], up = G[0][3] + om*G[3][3]; ld l = -up/ut; // u_phi/u_t ratio, independent of u^t
  if (fabsl(ut) < 0.02) throw pbt::Discard();
  c.close(m.met->getSpecificAngularMomentum(r), double(l), 1e-6, 0, "doughnut/angmom/" + K, "specific angular momentum -u_phi/u_t of the circular orbit");
  // potential at an arbitrary position for an arbitrary constant angular momentum
  double lc = g.uni(-4, 6); double pos[4] = {0, g.logu(1.05*m.rmin, 100), g.uni(0.4, M_PI - 0.4), 0};
  ld y[4] = {0, pos[1], pos[2], 0}; m.ref(G, y); ld det = G[0][3]*G[0][3] - G[0][0]*G[3][3], den = G[3][3] + 2*lc*G[0][3] + lc*lc*G[0][0];
  if (!(det > 1e-3) || den < 0.02*G[3][3]) return;
  if (K == "KerrBL" || K == "Hayward") if (!(G[0][0] < -0.01)) return;
  c.close(m.met->getPotential(pos, lc), double(-logl(det/den)/2), 1e-6, 1e-7, "doughnut/potential/" + K, "potential -ln|u_t| for constant angular momentum " + gy::num(lc));
  if (K == "KerrBL" && m.a >= 0) {
    auto E = [&](ld rr) { ld o, X[4] = {0, rr, M_PIl/2, 0}, H[4][4]; omega(m, rr, o, 1); m.ref(H, X); return -(H[0][0] + o*H[0][3])/sqrtl(-quad(H, o)); };
    ld rb = m.met->getRmb(), rs = m.met->getRms();
    c.close(double(E(rb)), 1, 0, 1e-6/(1 - m.a), "doughnut/rmb/KerrBL", "energy at the marginally bound radius");
    ld h = 1e-3*(rs - 1); ld d1 = (E(rs + h) - E(rs - h))/(2*h), d2 = (E(rs + h) - 2*E(rs) + E(rs - h))/(h*h);
    c.close(double(d1/d2), 0, 0, 5e-3*(double(rs) - 1), "doughnut/rms/KerrBL", "distance between the marginally stable radius and the minimum of the energy");
  }
}

PBT_SUB(tetrad, 60000, 800000, "random metric, point, observer kind (ZAMO, circular, specified velocity); non-trivial: observer moving relative to the coordinates or rotating metric") {
  M m = make(g); std::string K = m.kind; Ref R = reference(m, m.pos); std::string kind; double u[4], s1[4] = {0}, s2[4] = {0}, s3[4] = {0}, u0[4];
  if (!m.spherical && (fabs(m.pos[1]) + fabs(m.pos[2]) < 1e-3)) throw pbt::Discard();
  int k = g.below(4); if (K == "Minkowski" && k < 3) k = 3; // named observers exist in spherical coordinates only
  if (K == "Shift" && m.desc.find("Minkowski") != std::string::npos) k = 3;
  c.note << at(m); c.label(K);
  if (!timelike(g, m, R, u0, 0.9) || u0[0] < 1e-3) throw pbt::Discard(); memcpy(u, u0, sizeof u);
  if (k == 0) { kind = "zamo"; double ep[4] = {0, 0, 0, 1}, et[4] = {1, 0, 0, 0};
    if (!m.spherical) { double rr = hypot(m.pos[1], m.pos[2]); ep[1] = -m.pos[2]/rr; ep[2] = m.pos[1]/rr; ep[3] = 0; }
    double gpp = dot(R, ep, ep), gtp = dot(R, et, ep); if (!(gpp > 1e-9) || double(R.g[0][0]) - gtp*gtp/gpp > -0.02) throw pbt::Discard();
    m.met->observerTetrad(GYOTO_OBSKIND_ZAMO, m.pos, u, s1, s2, s3); double z[4]; m.met->zamoVelocity(m.pos, z);
    for (int i = 0; i < 4; ++i) c.close(u[i], z[i], 1e-8, 1e-10, "tetrad/zamo/" + K, "time vector of the ZAMO tetrad"); }
  else if (k == 1) { kind = "circular"; double z[4]; if (m.spherical ? m.pos[1] < 8 : hypot(m.pos[1], m.pos[2]) < 8) throw pbt::Discard();
    if (std::find(circ.begin(), circ.end(), K) == circ.end()) throw pbt::Discard();
    if (m.spherical && m.pos[1]*sin(m.pos[2]) < 8) throw pbt::Discard();
    m.met->observerTetrad(GYOTO_OBSKIND_KEPLERIAN, m.pos, u, s1, s2, s3); m.met->circularVelocity(m.pos, z);
    for (int i = 0; i < 4; ++i) c.close(u[i], z[i], 1e-8, 1e-10, "tetrad/circular/" + K, "time vector of the circular-orbit tetrad"); }
  else { kind = "specified"; double f = g.logu(0.2, 5); for (double &x : u) x *= f;
    if (k == 2) m.met->observerTetrad(GYOTO_OBSKIND_VELOCITYSPECIFIED, m.pos, u, s1, s2, s3); else { for (double &x : u) x /= f; m.met->observerTetrad(m.pos, u, s1, s2, s3); }
    for (int i = 0; i < 4; ++i) c.close(u[i], u0[i], 1e-7, 1e-9*fabs(u0[0]), "tetrad/specified/" + K, "time vector of the tetrad of an observer with given velocity"); }
  c.label(kind); c.nontrivial = kind != "zamo" || K.substr(0, 9) != "Minkowski";
  double *v[4] = {u, s1, s2, s3}; const char *nm[4] = {"u", "screen1", "screen2", "screen3"};
  for (int a = 0; a < 4; ++a) for (int b = a; b < 4; ++b) { double s, d = dot(R, v[a], v[b], &s);
    c.close(d, a == b ? (a ? 1 : -1) : 0, 0, 2e-7*(s + 1), "tetrad/orthonormal/" + K, std::string("scalar product of ") + nm[a] + " and " + nm[b]); }
  c.check(u[0] > 0, "tetrad/future/" + K, "observer velocity not future directed");
  // orientation: screen1, screen2, screen3 point towards decreasing phi, theta, r
  double er[4] = {0, 1, 0, 0}, eth[4] = {0, 0, 1, 0}, ep[4] = {0, 0, 0, 1};
  if (!m.spherical) { double x = m.pos[1], y = m.pos[2], z = m.pos[3], rho = hypot(x, y), r = hypot(rho, z);
    er[1] = x/r; er[2] = y/r; er[3] = z/r; ep[1] = -y/rho; ep[2] = x/rho; ep[3] = 0; eth[1] = z*x/r/rho; eth[2] = z*y/r/rho; eth[3] = -rho/r; }
  // screen2 lies along the projection of -e_theta orthogonal to u
  double tu = dot(R, eth, u), p[4]; for (int i = 0; i < 4; ++i) p[i] = -(eth[i] + tu*u[i]); double ps, pn = dot(R, p, p, &ps);
  if (pn > 1e-6*ps) c.close(dot(R, s2, p), sqrt(pn), 1e-5, 1e-9, "tetrad/screen2/" + K, "screen2 is not the direction of decreasing theta seen by the observer");
  c.check(dot(R, s1, ep) < 0, "tetrad/screen1/" + K, "screen1 does not point towards decreasing azimuth");
  c.check(dot(R, s3, er) < 0, "tetrad/screen3/" + K, "screen3 does not point towards decreasing radius");
}

PBT_SUB(gramschmidt, 40000, 500000, "random metric, point, time-like vector and three random vectors; non-trivial: every kept case") {
  M m = make(g); std::string K = m.kind; Ref R = reference(m, m.pos); double u[4][4], o[4][4];
  if (!timelike(g, m, R, u[0], 0.8)) throw pbt::Discard();
  for (int a = 1; a < 4; ++a) for (int i = 0; i < 4; ++i) u[a][i] = g.uni(-1, 1)/sqrt(fabs(double(R.g[i][i])) + 1e-9);
  // reference Gram-Schmidt in long double; skip ill-conditioned bases
  ld e[4][4]; auto d = [&](const ld *a, const ld *b) { ld s = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) s += R.g[i][j]*a[i]*b[j]; return s; };
  double sc0 = 0;
  for (int a = 0; a < 4; ++a) { for (int i = 0; i < 4; ++i) e[a][i] = u[a][i]; ld before = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) before += fabsl(R.g[i][j]*e[a][i]*e[a][j]);
    for (int b = 0; b < a; ++b) { ld s = d(e[b], e[a])*(b ? 1 : -1); for (int i = 0; i < 4; ++i) e[a][i] -= s*e[b][i]; }
    ld n = d(e[a], e[a]); if (fabsl(n) < 1e-2*before) throw pbt::Discard(); sc0 = std::max(sc0, double(before/fabsl(n))); for (int i = 0; i < 4; ++i) e[a][i] /= sqrtl(fabsl(n)); }
  c.note << at(m); c.label(K); c.nontrivial = true; memcpy(o, u, sizeof o);
  m.met->GramSchmidt(m.pos, u[0], u[1], u[2], u[3]);
  for (int a = 0; a < 4; ++a) for (int i = 0; i < 4; ++i) { double s = 0; for (int j = 0; j < 4; ++j) s = std::max(s, fabs(double(e[a][j]))*sqrt(fabs(double(R.g[j][j])/double(R.g[i][i])))); c.close(u[a][i], double(e[a][i]), 0, 1e-6*s, "gramschmidt/basis/" + K, "component of orthonormalised vector " + std::to_string(a)); }
  double p[4]; memcpy(p, o[1], sizeof p); m.met->projectFourVect(m.pos, p, o[2]); double n2 = dot(R, o[2], o[2]), s; 
  dot(R, o[2], o[2], &s); if (fabs(n2) > 1e-3*s) { double pr = dot(R, o[1], o[2])/n2; for (int i = 0; i < 4; ++i) c.close(p[i], o[1][i] - pr*o[2][i], 0, 1e-7*(fabs(o[1][i]) + fabs(pr*o[2][i])) * (s/fabs(n2)), "gramschmidt/project/" + K, "component of the orthogonal projection"); }
}

PBT_SUB(horizon, 20000, 200000, "random black-hole metric, radius below or above the horizon; non-trivial: radius within a factor 3 of the horizon") {
  M m = make(g, g.pick<std::string>({"KerrBL", "KerrKS", "ReissnerNordstrom", "SchwarzschildHarmonic", "RezzollaZhidenko", "KonoplyaRezzollaZhidenko"}));
  double rh; std::string K = m.kind; double a = m.a;
  if (K == "KerrBL" || K == "KerrKS" || K == "KonoplyaRezzollaZhidenko") rh = 1 + sqrt(1 - a*a); else if (K == "SchwarzschildHarmonic") rh = 1; else rh = m.rmin;
  bool in = g.flip(); double r = in ? rh*(1 - g.uni(0.0005, 0.3)) : rh*1.02 + g.logu(0.01, 50);
  double th = g.uni(0.1, 3), ph = g.uni(-3, 3), x[8] = {0, r, th, ph, 1, 0, 0, 0};
  if (!m.spherical) { double rho = sqrt(r*r + a*a)*sin(th); x[1] = rho*cos(ph); x[2] = rho*sin(ph); x[3] = r*cos(th); }
  c.note << m.desc << " r=" << r << " horizon=" << rh; c.label(K); c.nontrivial = r < 3*rh;
  c.check((m.met->isStopCondition(x) != 0) == in, std::string("horizon/") + (in ? "inside/" : "outside/") + K, in ? "integration is not stopped inside the horizon" : "integration is stopped outside the horizon");
}
GY_MAIN
