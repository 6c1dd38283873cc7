// S01: the camera: where the observer is, which ray belongs to which direction
// or pixel, sky <-> space coordinates, polarisation basis.
#include "metgen.h"
#include "GyotoScreen.h"
using namespace mg;
typedef long double L;
struct V3 { L x, y, z; };
static V3 operator*(L s, V3 a) { return {s*a.x, s*a.y, s*a.z}; }
static V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static L dot(V3 a, V3 b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
static V3 cross(V3 a, V3 b) { return {a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x}; }
static V3 rotz(V3 v, L t) { return {cosl(t)*v.x - sinl(t)*v.y, sinl(t)*v.x + cosl(t)*v.y, v.z}; }
static V3 rotx(V3 v, L t) { return {v.x, cosl(t)*v.y - sinl(t)*v.z, sinl(t)*v.y + cosl(t)*v.z}; }
static V3 roty(V3 v, L t) { return {cosl(t)*v.x + sinl(t)*v.z, v.y, -sinl(t)*v.x + cosl(t)*v.z}; }
struct Cam { Cam(M const &mm) : m(mm) {}
  M m; SmartPointer<Screen> s; L paln, inc, arg, dist, dmax, fov, azfov, d1 = 0, d2 = 0, t; int kind; size_t npix; std::ostringstream d;
  L ul() const { return m.met->unitLength(); }
  L robs() const { return dist/ul(); }
  bool far() const { return robs() > dmax; }
  L r() const { return far() ? dmax : robs(); }
  L scale() const { return far() ? robs()/dmax : 1; }
  V3 sky(V3 x) const { return rotz(rotx(rotz(x, arg), inc), paln); }        // space -> (East, North, away)
  V3 space(V3 s_) const { return rotz(rotx(rotz(s_, -paln), -inc), -arg); }
  V3 obs() const { return space({0, 0, -r()}); }                            // observer in space
  // direction on the sky, seen from the (possibly moved) camera
  V3 los(L a1, L a2) const { L k = scale(), e1 = d1*k, e2 = kind == 1 ? d2 : d2*k; a1 *= k; if (kind != 1) a2 *= k; V3 n;
    if (kind == 0) n = {sinl(a1)*cosl(a2), sinl(a2), cosl(a1)*cosl(a2)};
    else if (kind == 1) { L a = a1 + e1, b = a2 + e2; n = {sinl(a)*cosl(b), sinl(a)*sinl(b), cosl(a)}; return n; }
    else { L q = sqrtl(1 + a1*a1 + a2*a2); n = {a1/q, a2/q, 1/q}; }
    return rotx(roty(n, e1), e2); }
};
static Cam cam(pbt::Gen &g, std::vector<std::string> const &ks, double rlo, double rhi, bool offset = true) {
  Cam k(make(g, g.pick(ks))); k.s = new Screen(); k.d << std::setprecision(17) << k.m.desc; double mass = g.chance(1, 3) ? 1. : g.logu(1e30, 1e40); k.m.met->mass(mass); k.s->metric(k.m.met);
  k.dist = double(g.logu(rlo, rhi)*k.m.met->unitLength()); k.paln = g.uni(-7, 7); k.inc = g.chance(1, 6) ? M_PI/2 : g.uni(0.02, M_PI - 0.02); k.arg = g.uni(-7, 7); k.t = g.uni(-1e3, 1e3)*double(k.ul())/GYOTO_C;
  k.dmax = g.chance(1, 2) ? 1e7 : g.logu(25, 1e7); k.kind = g.below(3); k.npix = g.range(1, 64); k.fov = g.chance(1, 4) ? g.uni(0.1, 2.) : g.logu(1e-9, 0.3); k.azfov = g.uni(0.1, 2*M_PI);
  if (offset && g.chance(1, 2)) { k.d1 = g.chance(1, 3) ? g.uni(-1, 1) : g.sgn()*g.logu(1e-10, 0.3); k.d2 = g.chance(1, 3) ? g.uni(-1, 1) : g.sgn()*g.logu(1e-10, 0.3); }
  if (g.flip()) k.s->setProjection(double(k.paln), double(k.inc), double(k.arg)), k.s->distance(double(k.dist)); else if (g.flip()) k.s->setProjection(double(k.dist), double(k.paln), double(k.inc), double(k.arg)); else { int o = g.below(3); for (int i = 0; i < 3; ++i) switch ((i + o)%3) { case 0: k.s->PALN(double(k.paln)); break; case 1: k.s->inclination(double(k.inc)); break; default: k.s->argument(double(k.arg)); } k.s->distance(double(k.dist)); }
  k.s->time(double(k.t)); k.s->dMax(double(k.dmax)); k.s->anglekind(k.kind == 0 ? "EquatorialAngles" : k.kind == 1 ? "SphericalAngles" : "Rectilinear"); k.s->resolution(k.npix); k.s->fieldOfView(double(k.fov)); k.s->azimuthalFieldOfView(double(k.azfov)); k.s->dangle1(double(k.d1)); k.s->dangle2(double(k.d2));
  k.d << "; mass=" << mass << " r=" << double(k.robs()) << " dmax=" << double(k.dmax) << " PALN=" << double(k.paln) << " incl=" << double(k.inc) << " arg=" << double(k.arg) << ' ' << k.s->anglekind() << " dangle=" << double(k.d1) << ',' << double(k.d2) << " npix=" << k.npix << " fov=" << double(k.fov); return k;
}
static V3 xyz(M const &m, const double p[4]) { return m.spherical ? V3{p[1]*sinl(p[2])*cosl(p[3]), p[1]*sinl(p[2])*sinl(p[3]), p[1]*cosl(p[2])} : V3{p[1], p[2], p[3]}; }
// spatial direction (flat-space sense) of a contravariant vector, in Cartesian axes, from orthonormalised components
static V3 dir(Cam const &k, const double c[8]) {
  if (!k.m.spherical) return {c[5], c[6], c[7]};
  ld g[4][4], x[4] = {c[0], c[1], c[2], c[3]}; k.m.ref(g, x); L vr = c[5]*sqrtl(g[1][1]), vt = c[6]*sqrtl(g[2][2]), vp = c[7]*sqrtl(g[3][3]); L st = sinl(c[2]), ct = cosl(c[2]), sp = sinl(c[3]), cp = cosl(c[3]);
  return vr*V3{st*cp, st*sp, ct} + vt*V3{ct*cp, ct*sp, -st} + vp*V3{-sp, cp, 0};
}
static void vclose(pbt::Ctx &c, V3 a, V3 b, double tol, std::string sig, std::string what) { V3 e = a - b; double d = double(sqrtl(dot(e, e))); if (!(d <= tol)) { std::ostringstream o; o << std::setprecision(12) << what << ": (" << double(a.x) << ',' << double(a.y) << ',' << double(a.z) << ") expected (" << double(b.x) << ',' << double(b.y) << ',' << double(b.z) << "), off by " << d; c.fail(sig, o.str()); } }
static std::vector<std::string> const allk = {"KerrBL", "Minkowski", "MinkowskiSph", "KerrKS", "ReissnerNordstrom", "SchwarzschildHarmonic", "RezzollaZhidenko", "KonoplyaRezzollaZhidenko", "Hayward", "ChernSimons"};
// ray for direction (a1,a2) against the model; lens: compare direction scaled by angles
static void checkRay(pbt::Ctx &c, Cam &k, const double co[8], L a1, L a2, std::string sig) {
  V3 n = k.los(a1, a2), p = k.obs(); double R = double(k.r());
  vclose(c, xyz(k.m, co), p, 1e-12*R, sig + "/position", "position of the camera");
  L t = k.t*GYOTO_C/k.ul() - (k.far() ? k.robs() - k.dmax : 0); c.close(co[0], double(t), 1e-12, 1e-12*double(k.robs()), sig + "/date", "date of the camera");
  V3 v = dir(k, co); L q = k.m.spherical ? 1 : sqrtl(dot(v, v)); vclose(c, (1/q)*v, -1*k.space(n), 3e-14 + 1e-15/double(sinl(k.inc)), sig + "/direction", "direction of the ray");
  // small angles keep their relative precision: offset from the line of sight
  L off = sqrtl(n.x*n.x + n.y*n.y); if (k.m.spherical && off > 1e-14L) { V3 h = k.sky(v); L o2 = sqrtl(h.x*h.x + h.y*h.y); (void)o2; }
  ld g[4][4], x[4] = {co[0], co[1], co[2], co[3]}; k.m.ref(g, x); L nn = 0, ss = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { L y = g[i][j]*co[4 + i]*co[4 + j]; nn += y; ss += fabsl(y); }
  c.check(fabsl(nn) <= 1e-11*ss, sig + "/null", "the tangent of the ray is not null"); c.check(co[4] > 0, sig + "/future", "the ray is not future-directed");
}
PBT_SUB(rays, 60000, 1000000, "random metric, camera position and orientation, screen projection, offsets, arbitrary direction (from 1e-11 rad to wide angles); non-trivial: direction off the centre") {
  Cam k = cam(g, allk, 25, g.flip() ? 1e11 : 1e4); c.note << k.d.str(); L sc = k.scale(); double mx = double(1.4L/sc); auto ang = [&]() -> double { return g.chance(1, 8) ? 0. : g.sgn()*g.logu(mx*1e-10, mx); };
  double a1 = ang(), a2 = k.kind == 1 ? g.uni(-7, 7) : ang(); if (k.kind == 2 && g.flip()) { a1 *= 3; a2 *= 3; } k.d1 /= sc; if (k.kind != 1) k.d2 /= sc; k.d1 = double(k.d1); k.d2 = double(k.d2); k.s->dangle1(double(k.d1)); k.s->dangle2(double(k.d2)); c.note << " angles " << a1 << ',' << a2; c.label(k.m.kind); c.label(k.s->anglekind()); if (k.far()) c.label("moved-camera");
  double co[8]; k.s->getRayTriad(a1, a2, co); checkRay(c, k, co, a1, a2, "rays"); c.nontrivial = a1 != 0;
  if (k.far()) c.label("far");
}
PBT_SUB(pixels, 30000, 400000, "random camera, projection, resolution and field of view, every pixel of the screen drawn at random, real or index coordinates; non-trivial: more than one pixel") {
  Cam k = cam(g, allk, 25, 1e5, g.flip()); if (k.kind == 1) { if (k.npix < 2) k.npix = 2, k.s->resolution(2); } if (k.far()) { k.dmax = 1e7; k.s->dMax(1e7); } c.note << k.d.str(); size_t i = g.range(1, k.npix), j = g.range(1, k.npix); c.note << " pixel " << i << ',' << j; double co[8];
  // documented pixel map: i to the West (East is left), j to the North, pixel (1,1) at the bottom right... centre of the screen towards the origin
  L a1, a2, N = k.npix; if (k.kind == 0) { a1 = -k.fov/N*(i - (N + 1)/2); a2 = k.fov/N*(j - (N + 1)/2); } else if (k.kind == 2) { L w = 2*tanl(k.fov/2)/N; a1 = -w*(i - (N + 1)/2); a2 = w*(j - (N + 1)/2); } else { a1 = (i - 1)*k.fov/(2*(N - 1)); a2 = M_PI - (j - 1)*k.azfov/(N - 1); }
  k.s->getRayTriad(i, j, co); checkRay(c, k, co, a1, a2, "pixels"); c.label(k.s->anglekind()); c.nontrivial = k.npix > 1;
  if (g.chance(1, 4)) { SmartPointer<Screen> cl = k.s->clone(); double e[8]; cl->getRayTriad(i, j, e); for (int q = 0; q < 8; ++q) c.check(e[q] == co[q], "pixels/clone", "a clone of the screen sends another ray"); c.label("clone"); }
  // angular sets
  if (g.chance(1, 4) && k.kind != 1) { double b1[3], b2[3]; for (int q = 0; q < 3; ++q) b1[q] = g.uni(-0.1, 0.1), b2[q] = g.uni(-0.1, 0.1); Screen::Angles A(b1, 3), B(b2, 3); Screen::Bucket bk(A, B); int q = 0; for (bk.begin(); bk.valid(); ++bk, ++q) { auto x = bk.angles(); c.check(q < 3 && x[0] == b1[q] && x[1] == b2[q], "pixels/bucket", "list of directions does not enumerate its elements"); } c.check(q == 3 && bk.size() == 3, "pixels/bucket", "list of directions has a wrong length"); }
  // enumeration of a grid: rows of increasing j, i fastest, size and index
  if (g.chance(1, 4)) { size_t i0 = g.range(1, 9), i1 = g.range(i0, 12), di = g.range(1, 4), j0 = g.range(1, 9), j1 = g.range(j0, 12), dj = g.range(1, 4); Screen::Range ri(i0, i1, di), rj(j0, j1, dj); Screen::Grid gr(ri, rj, g.flip() ? "pre" : NULL); size_t n = 0; gr.begin();
    for (size_t y = j0; y <= j1; y += dj) for (size_t x = i0; x <= i1; x += di, ++n) { c.check(gr.valid(), "pixels/grid", "the grid ends early"); auto w = *gr; c.check(w[0] == x && w[1] == y, "pixels/grid", "the grid visits the wrong pixel"); ++gr; }
    c.check(!gr.valid() && gr.size() == n, "pixels/grid", "the grid has a wrong number of pixels"); }
}
PBT_SUB(observers, 30000, 400000, "random metric, observer close or far on any kind of worldline (ZAMO, circular, given velocity, fully specified tetrad), any direction; non-trivial: direction off the centre") {
  Cam k = cam(g, std::vector<std::string>{"KerrBL", "KerrKS", "MinkowskiSph", "ReissnerNordstrom", "RezzollaZhidenko", "KonoplyaRezzollaZhidenko", "Hayward", "ChernSimons", "SchwarzschildHarmonic"}, 7, 1e4); if (k.far()) { k.dmax = 1e7; k.s->dMax(1e7); }
  c.note << k.d.str(); c.label(k.m.kind); int o = g.below(4); double co[8], pos[4], u[4] = {1, 0, 0, 0}, e1[4], e2[4], e3[4]; k.s->getObserverPos(pos);
  V3 P = xyz(k.m, pos); vclose(c, P, k.obs(), 1e-12*double(k.r()), "observers/position", "position of the observer");
  if (o == 1) { if (k.m.kind == "SchwarzschildHarmonic" || k.m.kind == "MinkowskiSph" || k.m.kind == "ChernSimons") o = 0; else if (fabsl(k.inc - M_PI/2) > 0.6) o = 0; }
  try {
    if (o == 0) { k.s->observerKind("ZAMO"); k.m.met->observerTetrad(GYOTO_OBSKIND_ZAMO, pos, u, e1, e2, e3); }
    else if (o == 1) { k.s->observerKind("KeplerianObserver"); k.m.met->observerTetrad(GYOTO_OBSKIND_KEPLERIAN, pos, u, e1, e2, e3); }
    else { double v[4] = {1, g.uni(-.2, .2), g.uni(-.2, .2), g.uni(-.2, .2)}; if (k.m.spherical) { v[2] /= pos[1]; v[3] /= pos[1]; } k.m.met->normalizeFourVel(pos, v); memcpy(u, v, sizeof u); k.m.met->observerTetrad(GYOTO_OBSKIND_VELOCITYSPECIFIED, pos, u, e1, e2, e3);
      if (o == 2) { k.s->observerKind("VelocitySpecified"); if (g.flip()) { double f = g.uni(0.5, 2); for (double &x : v) x *= 1; (void)f; } k.s->fourVel(std::vector<double>(v, v + 4)); }
      else { double t = g.uni(0, 6.28), f[4]; for (int i = 0; i < 4; ++i) { f[i] = cos(t)*e1[i] + sin(t)*e2[i]; e2[i] = -sin(t)*e1[i] + cos(t)*e2[i]; e1[i] = f[i]; } k.s->observerKind("FullySpecified"); k.s->fourVel(std::vector<double>(u, u + 4)); k.s->screenVector1(std::vector<double>(e1, e1 + 4)); k.s->screenVector2(std::vector<double>(e2, e2 + 4)); k.s->screenVector3(std::vector<double>(e3, e3 + 4)); } }
  } catch (Gyoto::Error const &) { throw pbt::Discard(); }
  for (double x : u) if (x != x) throw pbt::Discard();
  c.label(k.s->observerKind()); double mx = 1.4, a1 = g.sgn()*g.logu(1e-9, mx), a2 = k.kind == 1 ? g.uni(-7, 7) : g.sgn()*g.logu(1e-9, mx); c.note << ' ' << k.s->observerKind() << " angles " << a1 << ',' << a2;
  V3 n = k.los(a1, a2); if (k.kind != 1) n = rotz(n, M_PI - k.paln); k.s->getRayTriad(a1, a2, co); double sc = 0; for (int i = 0; i < 4; ++i) sc = std::max(sc, std::max(fabs(u[i]), std::max(fabs(e1[i]), std::max(fabs(e2[i]), fabs(e3[i])))));
  for (int i = 0; i < 4; ++i) { L x = u[i] - (n.x*e1[i] + n.y*e2[i] + n.z*e3[i]); L s = fabs(u[i]) + fabs(e1[i]) + fabs(e2[i]) + fabs(e3[i]); c.close(co[4 + i], double(x), 0, 1e-13*double(s) , "observers/ray", "component " + std::to_string(i) + " of the ray"); }
  // the time component depends on the date only through the metric; the position is that of the observer
  for (int i = 0; i < 4; ++i) c.check(co[i] == pos[i], "observers/position2", "the ray does not reach the observer"); c.nontrivial = true;
}
PBT_SUB(farfield, 4000, 60000, "random metric and orientation, ZAMO observer very far away against the observer at infinity; non-trivial: direction off the centre") {
  Cam k = cam(g, std::vector<std::string>{"KerrBL", "KerrKS", "ReissnerNordstrom", "Hayward"}, 1e5, 1e6); k.dmax = 1e8; k.s->dMax(1e8); if (k.kind == 1) { k.kind = 0; k.s->anglekind("EquatorialAngles"); } c.note << k.d.str(); c.label(k.m.kind); double a[8], b[8], a1 = g.uni(-1, 1), a2 = g.uni(-1, 1); k.s->getRayTriad(a1, a2, a); k.s->observerKind("ZAMO"); k.s->getRayTriad(a1, a2, b); V3 x = dir(k, a), y = dir(k, b);
  vclose(c, (1/sqrtl(dot(x, x)))*x, (1/sqrtl(dot(y, y)))*y, 1e-4, "farfield", "ray of a distant observer at rest and of the observer at infinity"); c.nontrivial = true;
}
PBT_SUB(sky, 40000, 600000, "random camera and point or sky position; non-trivial: point off the axes") {
  Cam k = cam(g, allk, 10, 1e9); c.note << k.d.str(); bool geo = g.flip(); L u = geo ? 1 : k.ul(); double r = g.logu(1e-2, 1e6); V3 p; { double z = g.uni(-1, 1), f = g.uni(0, 6.28); p = {r*sqrtl(1 - z*z)*cosl(f), r*sqrtl(1 - z*z)*sinl(f), r*z}; }
  double pos[4] = {0, double(p.x), double(p.y), double(p.z)}; if (k.m.spherical) { pos[1] = r; pos[2] = acos(double(p.z)/r); pos[3] = atan2(double(p.y), double(p.x)) + (g.flip() ? 2*M_PI : 0); } double s[3], x[3]; k.s->coordToSky(pos, s, geo); V3 e = u*k.sky(p); vclose(c, V3{s[0], s[1], s[2]}, e, 1e-7*r*double(u), "sky/coordToSky", "sky coordinates of a point"); k.s->coordToXYZ(pos, x); vclose(c, V3{x[0], x[1], x[2]}, p, 1e-7*r, "sky/coordToXYZ", "Cartesian coordinates of a point");
  double back[4] = {0, 0, 0, 0}; k.s->skyToCoord(s, back, geo); vclose(c, xyz(k.m, back), p, 1e-7*r, "sky/skyToCoord", "point at these sky coordinates");
  // observer position given as coordinates
  double o[4] = {g.uni(-100, 100), 0, 0, 0}; double R = g.logu(10, 1e6), th = g.uni(0.1, 3.0), ph = g.uni(-3.1, 3.1); if (k.m.spherical) { o[1] = R; o[2] = th; o[3] = ph; } else { o[1] = R*sin(th)*cos(ph); o[2] = R*sin(th)*sin(ph); o[3] = R*cos(th); }
  k.s->setObserverPos(o); double q[4]; k.s->getObserverPos(q); vclose(c, xyz(k.m, q), xyz(k.m, o), 1e-9*R, "sky/setObserverPos", "observer placed by its coordinates"); c.close(q[0], o[0], 1e-12, 1e-12, "sky/setObserverTime", "date of the observer");
  k.inc = M_PI - th; k.arg = -M_PI/2 - ph; k.paln = M_PI; k.s->coordToSky(pos, s, true); vclose(c, V3{s[0], s[1], s[2]}, k.sky(p), 1e-7*r, "sky/after-setObserverPos", "sky coordinates of a point"); c.nontrivial = true;
}
PBT_SUB(polarbasis, 20000, 300000, "random camera at infinity, offsets and direction; non-trivial: direction off the centre") {
  Cam k = cam(g, std::vector<std::string>{"KerrBL", "Minkowski", "MinkowskiSph", "KerrKS", "ReissnerNordstrom", "Hayward"}, 25, g.flip() ? 1e11 : 1e4); L sc = k.scale(); k.d1 = double(k.d1/sc); if (k.kind != 1) k.d2 = double(k.d2/sc); k.s->dangle1(double(k.d1)); k.s->dangle2(double(k.d2)); c.note << k.d.str(); c.label(k.m.kind); double mx = double(1.4L/sc), a1 = g.chance(1, 8) ? 0. : g.sgn()*g.logu(mx*1e-9, mx), a2 = k.kind == 1 ? g.uni(-7, 7) : g.chance(1, 8) ? 0. : g.sgn()*g.logu(mx*1e-9, mx); c.note << " angles " << a1 << ',' << a2;
  double co[8], ep[4], et[4]; k.s->getRayTriad(a1, a2, co, true, ep, et); V3 n = k.los(a1, a2); double c2[8]; k.s->getRayTriad(a1, a2, c2); for (int i = 0; i < 8; ++i) c.check(co[i] == c2[i], "polarbasis/ray", "asking for the polarisation basis changes the ray");
  // North and West carried along the great circle from the centre to the direction of the ray
  V3 z = {0, 0, 1}, w = cross(z, n); L ca = n.z; auto R = [&](V3 v) { V3 a = cross(w, v); return v + a + (1/(1 + ca))*cross(w, a); }; if (1 + ca < 1e-3) throw pbt::Discard(); V3 N = k.space(R({0, 1, 0})), W = k.space(R({-1, 0, 0}));
  double cp[8], ct[8]; memcpy(cp, co, 32); memcpy(ct, co, 32); memcpy(cp + 4, ep, 32); memcpy(ct + 4, et, 32); c.check(ep[0] == 0 && et[0] == 0, "polarbasis/time", "the polarisation basis has a time component"); vclose(c, dir(k, cp), W, 1e-12, "polarbasis/Ephi", "first polarisation vector"); vclose(c, dir(k, ct), N, 1e-12, "polarbasis/Etheta", "second polarisation vector"); c.nontrivial = a1 != 0; if (k.d1 != 0) c.label("offset");
}
PBT_SUB(mask, 3000, 30000, "random resolution and mask, set, cleared, kept by a clone, dropped on resolution change; non-trivial: mask with both values") {
  Cam k = cam(g, std::vector<std::string>{"KerrBL"}, 100, 1e3); size_t n = g.range(1, 9); k.s->resolution(n); std::vector<double> m(n*n); int on = 0; for (double &x : m) { x = g.flip() ? 0 : g.uni(0.1, 2); on += x != 0; } c.note << "mask " << n << 'x' << n << " with " << on << " on"; if (g.flip()) k.s->mask(&m[0]); else { k.s->resolution(n + 3); k.s->mask(&m[0], n); c.check(k.s->resolution() == n, "mask/resolution", "setting a mask with its size did not set the resolution"); }
  SmartPointer<Screen> cl = k.s->clone(); for (size_t j = 1; j <= n; ++j) for (size_t i = 1; i <= n; ++i) { bool e = m[(j - 1)*n + i - 1] != 0; c.check((*k.s)(i, j) == e, "mask/value", "mask of a pixel"); c.check((*cl)(i, j) == e, "mask/clone", "mask of a pixel in a clone"); }
  if (g.flip()) { k.s->resolution(n + 1); c.check(!k.s->mask(), "mask/dropped", "a mask of another resolution is kept"); } else { k.s->mask(NULL); } for (size_t i = 1; i <= n; ++i) c.check((*k.s)(i, i), "mask/none", "a pixel is masked without a mask"); c.nontrivial = on && on < int(n*n);
}
GY_MAIN
