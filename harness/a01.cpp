// A01: shape and motion of the matter models, against the geometry and the laws of
// motion of their documentation evaluated with the reference line elements.
#include "metgen.h"
#include "scn.h"
#include "objgen.h"
#include "GyotoStandardAstrobj.h"
#include "GyotoThinDisk.h"
#include "GyotoPolishDoughnut.h"
#include "GyotoUniformSphere.h"
#include "GyotoStar.h"
#include "GyotoPhoton.h"
#include "GyotoScreen.h"
using namespace Gyoto; using mg::M; using mg::ld; typedef std::vector<double> V;
struct AccS : Astrobj::Standard { static double crit(Astrobj::Standard *s) { return s->*(&AccS::critical_value_); } };
struct AccU : Astrobj::UniformSphere { static void cart(Astrobj::UniformSphere *s, double t, double *X) { (s->*(&AccU::getCartesian))(&t, 1, X, X + 1, X + 2, NULL, NULL, NULL); } };
struct U { ld u[4], d[4]; ld n2; };
static U lower(mg::Ref const &R, const double v[4]) { U r; r.n2 = 0; for (int i = 0; i < 4; ++i) { r.u[i] = v[i]; r.d[i] = 0; for (int j = 0; j < 4; ++j) r.d[i] += R.g[i][j]*v[j]; r.n2 += r.d[i]*v[i]; } return r; }
static Astrobj::Standard *st(SmartPointer<Astrobj::Generic> const &o) { return dynamic_cast<Astrobj::Standard *>((Astrobj::Generic *)o); }
static Astrobj::ThinDisk *td(SmartPointer<Astrobj::Generic> const &o) { return dynamic_cast<Astrobj::ThinDisk *>((Astrobj::Generic *)o); }
static void velocity(SmartPointer<Astrobj::Generic> const &o, const double *p, double *v) { if (auto s = st(o)) s->getVelocity(p, v); else td(o)->getVelocity(p, v); }
static double distance(SmartPointer<Astrobj::Generic> const &o, const double *p) { if (auto s = st(o)) return (*s)(p); return (*td(o))(p); }
// equatorial circular geodesic of the reference metric: Omega and covariant E, L with specific angular momentum xi*l
static bool circ(mg::Ref const &R, ld xi, ld &Om, ld &E, ld &L) {
  ld a = R.d[1][3][3], b = R.d[1][0][3], cc = R.d[1][0][0], dis = b*b - a*cc; if (dis < 0) return false; Om = (-b + sqrtl(dis))/a;
  ld l = -(R.g[0][3] + Om*R.g[3][3])/(R.g[0][0] + Om*R.g[0][3]); l *= xi; ld q = -(R.gup[0][0] - 2*l*R.gup[0][3] + l*l*R.gup[3][3]); if (q <= 0) return false;
  E = 1/sqrtl(q); L = l*E; Om = (R.gup[0][3]*-E + R.gup[3][3]*L)/(R.gup[0][0]*-E + R.gup[0][3]*L); return true;
}
struct Model { std::string kind; M m; SmartPointer<Astrobj::Generic> o; std::ostringstream d; std::map<std::string, double> p; std::string s; bool b = false; };
static std::vector<std::string> const &models() { static std::vector<std::string> k = {"Jet", "ThinDisk", "PolishDoughnut", "DeformedTorus", "OscilTorus", "ThickDisk", "SphericalAccretion", "ThinDiskProfile", "Torus", "FixedStar", "Blob", "FreeStar", "Star"}; return k; }
static void build(pbt::Gen &g, Model &x) {
  if (x.kind.empty()) x.kind = g.pick(models()); std::string k = x.kind; std::vector<std::string> mk = {"KerrBL"};
  if (k == "Jet" || k == "ThickDisk" || k == "SphericalAccretion") mk = {"KerrBL", "KerrBL", "MinkowskiSph", "ReissnerNordstrom", "RezzollaZhidenko", "Hayward", "KonoplyaRezzollaZhidenko"};
  else if (k == "ThinDisk" || k == "Torus") mk = {"KerrBL", "KerrBL", "KerrKS", "MinkowskiSph", "Minkowski", "RezzollaZhidenko", "Hayward", "KonoplyaRezzollaZhidenko", "SchwarzschildHarmonic"};
  else if (k == "ThinDiskProfile") mk = {"KerrBL", "KerrBL", "RezzollaZhidenko", "KonoplyaRezzollaZhidenko"};
  else if (k == "FixedStar" || k == "FreeStar" || k == "Star") mk = {"KerrBL", "KerrKS", "Minkowski", "MinkowskiSph", "ReissnerNordstrom", "SchwarzschildHarmonic"};
  else if (k == "Blob") mk = {"KerrBL", "MinkowskiSph", "ReissnerNordstrom"};
  M mm = mg::make(g, g.pick(mk)); mm.negr = false; mm.pos[1] = mm.spherical ? fabs(mm.pos[1]) : mm.pos[1]; x.m = mm; M &m = x.m; bool kbl = m.kind == "KerrBL";
  if (kbl && (k == "PolishDoughnut" || k == "ThinDiskProfile")) { m.a = fabs(m.a); if (k == "PolishDoughnut" && m.a > 0.9) m.a = 0.9; m.met->set("Spin", m.a); m.ref = mg::kerrlike([](mg::ld) { return mg::ld(1); }, m.a); }
  x.o = gy::astrobj(k); x.o->metric(m.met); x.d << k << " in " << m.desc << (m.kind == k ? "" : "") << " a=" << m.a << ";"; scn::Set s(x.o, x.d); auto P = [&](std::string n, double v) { x.p[n] = v; s(n, v); };
  bool sph = m.spherical; auto place = [&](double r, double th, double ph) { return sph ? V{r, th, ph} : V{r*sin(th)*cos(ph), r*sin(th)*sin(ph), r*cos(th)}; };
  if (k == "Jet") { x.b = g.flip(); s.b("Parabolic", x.b); if (x.b) { double o = g.logu(0.02, 1); P("JetShapeOuterParabolaParam", o); P("JetShapeInnerParabolaParam", o*g.uni(1.1, 5)); } else { double o = g.uni(0.1, 1.4); P("JetOuterOpeningAngle", o); P("JetInnerOpeningAngle", o*g.uni(0.1, 0.95)); }
    P("JetInnerRadius", g.uni(1.5, 6)); P("GammaJet", g.chance(1, 4) ? 1 + g.logu(1e-6, 0.1) : g.uni(1.05, 8)); P("JetVphiOverVr", g.chance(1, 3) ? 0. : g.uni(-2, 2)); bool out = g.flip(); s.b("Outflowing", out); x.p["out"] = out; if (g.flip()) P("JetStagnationRadius", g.uni(2, 30)); else x.p["JetStagnationRadius"] = 0; }
  else if (k == "ThinDisk") { bool co = g.flip(); s.b("CoRotating", co); x.p["dir"] = co ? 1 : -1; x.s = g.pick(std::vector<std::string>{"Keplerian", "Keplerian", "ZAMO"}); s.s("VelocityKind", x.s); }
  else if (k == "PolishDoughnut") { if (g.flip()) P("Lambda", g.uni(0.05, 0.95)); else { double l = g.uni(3.7, 4.3), ri = g.uni(4.2, 7); if (m.a > 0.3) { l = g.uni(3.0, 3.5); } x.p["l"] = l; x.p["ri"] = ri; try { s.v("AngMomRinner", V{l, ri}); } catch (Gyoto::Error const &) { throw pbt::Discard(); } } }
  else if (k == "DeformedTorus") { P("LargeRadius", g.uni(7, 15)); P("Beta", g.uni(0.05, 0.4)); P("BetaSt", g.uni(0.05, 0.2)); P("Eta", g.uni(0.01, 0.6)); x.s = g.pick(std::vector<std::string>{"RadialTranslation", "VerticalTranslation", "Rotation", "Expansion", "RadialShear", "VerticalShear", "PureShear"}); s.s("PerturbKind", x.s); }
  else if (k == "OscilTorus") { if (m.a < -0.3) { m.a = g.uni(0, 0.9); m.met->set("Spin", m.a); m.ref = mg::kerrlike([](mg::ld) { return mg::ld(1); }, m.a); x.d << " (a=" << m.a << ")"; } P("LargeRadius", g.uni(9.5, 16)); P("PolyCst", g.logu(1e-4, 2e-2)); P("PolyIndex", g.uni(1.1, 4)); P("CentralDensity", g.logu(0.01, 10)); x.p["Mode"] = g.below(4); s.l("Mode", x.p["Mode"]); x.s = g.pick(std::vector<std::string>{"Radial", "Vertical", "X", "Plus", "Breathing"}); s.s("PerturbKind", x.s); P("PerturbIntens", g.uni(0, 0.5)); }
  else if (k == "ThickDisk") { x.p["al"] = g.chance(1, 4) ? 1 : g.uni(0, 1); x.p["be"] = g.chance(1, 4) ? 1 : g.uni(0, 1); s.v("VeloParam", V{x.p["al"], x.p["be"]}); P("ThickDiskInnerRadius", g.uni(1.5, 6)); }
  else if (k == "SphericalAccretion") P("SphericalAccretionInnerRadius", g.uni(1.5, 8));
  else if (k == "ThinDiskProfile") { x.s = g.pick(std::vector<std::string>{"Circular", "Radial", "Mixed"}); s.s("MotionKind", x.s); }
  else if (k == "Torus") { P("LargeRadius", g.uni(4, 20)); P("SmallRadius", g.uni(0.3, 3)); }
  else if (k == "FixedStar") { V p = place(g.uni(4, 30), g.uni(0.1, 3), g.uni(0, 6.28)); for (int i = 0; i < 3; ++i) x.p["x" + std::to_string(i + 1)] = p[i]; s.v("Position", p); P("Radius", g.uni(0.3, 5)); x.b = g.flip(); s.b("Rotating", x.b); }
  else if (k == "Blob" || k == "FreeStar") { V p = place(g.uni(8, 30), g.uni(0.3, 2.8), g.uni(0, 6.28)), v; double rr = sph ? p[0] : 1; v = {g.uni(-0.3, 0.3), g.uni(-0.3, 0.3)/rr, g.uni(-0.3, 0.3)/rr}; if (k == "Blob") { x.s = g.pick(std::vector<std::string>{"Equatorial", "HelicalConical", "HelicalCylindrical"}); s.s("BlobMotionType", x.s); if (x.s != "HelicalConical") p[1] = M_PI/2; if (x.s == "Equatorial") v[0] = v[1] = 0; if (x.s == "HelicalConical") { v[1] = 0; if (fabs(v[0]) < 0.01) v[0] = 0.1; } if (x.s == "HelicalCylindrical") v[0] = 0; }
    double t0 = g.uni(-50, 50); p.insert(p.begin(), t0); for (int i = 0; i < 4; ++i) x.p["x" + std::to_string(i)] = p[i]; for (int i = 0; i < 3; ++i) x.p["v" + std::to_string(i + 1)] = v[i]; if (k == "Blob") { s.v("Init4Coord", p); s.v("Init3Velo", v); } else { s.v("InitPosition", p); s.v("InitVelocity", v); } P("Radius", g.uni(0.3, 5)); }
  else if (k == "Star") { V p = place(g.uni(12, 30), g.uni(0.5, 2.6), g.uni(0, 6.28)); p.insert(p.begin(), g.uni(-20, 20)); double v[3] = {g.uni(-0.2, 0.2), g.uni(-0.2, 0.2), g.uni(-0.2, 0.2)}; if (sph) { v[1] /= p[1]; v[2] /= p[1]; } dynamic_cast<Astrobj::Star *>((Astrobj::Generic *)x.o)->setInitCoord(&p[0], v); for (int i = 0; i < 4; ++i) x.p["x" + std::to_string(i)] = p[i]; for (int i = 0; i < 3; ++i) x.p["v" + std::to_string(i + 1)] = v[i]; x.d << " init"; for (double q : p) x.d << ' ' << q; for (double q : v) x.d << ' ' << q; P("Radius", g.uni(0.3, 5)); }
}
static void cart(M const &m, const double *p, double c[3]) { if (m.spherical) { c[0] = p[1]*sin(p[2])*cos(p[3]); c[1] = p[1]*sin(p[2])*sin(p[3]); c[2] = p[1]*cos(p[2]); } else { c[0] = p[1]; c[1] = p[2]; c[2] = p[3]; } }
static bool inside_horizon(M const &m, const double *p) { if (m.kind != "KerrKS") return false; double a2 = m.a*m.a, t = p[1]*p[1] + p[2]*p[2] + p[3]*p[3] - a2, r = sqrt((t + sqrt(t*t + 4*a2*p[3]*p[3]))/2); return r < 1.03*(1 + sqrt(1 - a2)); }
static double radius(M const &m, const double *p) { double c[3]; cart(m, p, c); return sqrt(c[0]*c[0] + c[1]*c[1] + c[2]*c[2]); }
// centre of the spheres at date t, in the coordinate system of the metric, and coordinate velocity
static bool centre(Model &x, double t, double p[4], double v[3]) {
  M &m = x.m; auto q = [&](const char *n) { return x.p[n]; }; double dt = t - x.p["x0"]; p[0] = t;
  if (x.kind == "FixedStar") { for (int i = 1; i < 4; ++i) p[i] = x.p["x" + std::to_string(i)]; v[0] = v[1] = v[2] = 0; return true; }
  if (x.kind == "FreeStar" || x.s == "Equatorial") { for (int i = 1; i < 4; ++i) { v[i-1] = x.p["v" + std::to_string(i)]; p[i] = x.p["x" + std::to_string(i)] + v[i-1]*dt; } return !m.spherical || p[1] > 0.5; }
  if (x.s == "HelicalConical") { v[0] = q("v1"); p[1] = q("x1") + v[0]*dt; if (p[1] < 1) return false; p[2] = q("x2"); v[1] = 0; v[2] = q("v3")*q("x1")*q("x1")/(p[1]*p[1]); p[3] = q("x3") + q("v3")*q("x1")*dt/p[1]; return true; }
  if (x.s == "HelicalCylindrical") { double rho0 = q("x1"), w = q("v2"), y = w*dt; if (fabs(y) > 3) return false; p[1] = rho0*cosh(y); p[2] = 2*atan(exp(y)); p[3] = q("x3") + q("v3")*dt; v[0] = rho0*w*sinh(y); v[1] = w/cosh(y); v[2] = q("v3"); return true; }
  return false;
}

PBT_SUB(motion, 60000, 1500000, "random matter model, metric, settings, place and date; non-trivial: a curved metric or a moving model, at a place where the model defines a velocity") {
  Model x; build(g, x); M &m = x.m; std::string k = x.kind; c.label(k); double *p = m.pos; mg::position(g, m, 60);
  if (k == "ThinDisk" || k == "ThinDiskProfile") { if (m.spherical) p[2] = M_PI/2; else { double r = radius(m, p), ph = g.uni(0, 6.28); p[1] = r*cos(ph); p[2] = r*sin(ph); p[3] = 0; } }
  if (k == "DeformedTorus" || k == "OscilTorus") { double c0 = x.p["LargeRadius"]; p[1] = c0*g.uni(0.75, 1.4); p[2] = M_PI/2 + g.uni(-0.3, 0.3); }
  double pc[4], vc[3]; bool sphere = k == "FixedStar" || k == "FreeStar" || k == "Blob";
  if (sphere) { if (!centre(x, x.p["x0"] + g.uni(-20, 20), pc, vc)) throw pbt::Discard(); std::copy(pc, pc + 4, p); if (k == "FreeStar") for (int i = 1; i < 4; ++i) p[i] = x.p["x" + std::to_string(i)], p[0] = x.p["x0"]; }
  c.note << x.d.str() << " at"; for (int i = 0; i < 4; ++i) c.note << ' ' << std::setprecision(10) << p[i];
  if (k == "Star") { // the centre follows the geodesic: its velocity is the one given at the initial date, unit everywhere
    for (int i = 0; i < 4; ++i) p[i] = x.p["x" + std::to_string(i)]; }
  double r = radius(m, p); if (!sphere && k != "Star" && (r < m.rmin*1.03 || inside_horizon(m, p))) throw pbt::Discard();
  mg::Ref R = mg::reference(m, p); double v[4]; std::string what = k + (x.s.size() ? "/" + x.s : "");
  if (k == "Blob") { ld w[4] = {1, vc[0], vc[1], vc[2]}, q = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) q += R.g[i][j]*w[i]*w[j]; if (q > -1e-6) { c.label("superluminal"); throw pbt::Discard(); } }
  try { velocity(x.o, p, v); }
  catch (Gyoto::Error const &e) { std::string t = (const char *)e;
    if (t.find("non physical") != t.npos || t.find("is negative") != t.npos || t.find("impossible") != t.npos || t.find("no circular") != t.npos || t.find("should be used") != t.npos || t.find("too small") != t.npos || t.find("Velocity over C") != t.npos || t.find("elocity") != t.npos && sphere) { c.label("undefined"); 
      // the law itself must be undefined there
      if (k == "PolishDoughnut" ) { ld l = dynamic_cast<Astrobj::PolishDoughnut *>((Astrobj::Generic *)x.o)->getL0(); ld q = R.gup[0][0] - 2*l*R.gup[0][3] + l*l*R.gup[3][3]; c.check(q > -1e-6, "motion/refused", "refused where the motion is defined: " + t); }
      throw pbt::Discard(); }
    if (k == "ThinDisk" || k == "Torus" || k == "ThinDiskProfile" || k == "FixedStar" || k == "FreeStar" || k == "Blob") { c.label("refused"); throw pbt::Discard(); } throw; }
  for (int i = 0; i < 4; ++i) if (v[i] != v[i]) { if (k == "ThinDisk" || k == "Torus" || k == "ThinDiskProfile" || k == "Blob" || k == "FreeStar" || k == "FixedStar") throw pbt::Discard(); c.fail("motion/nan", "velocity is not a number"); }
  c.nontrivial = true; U u = lower(R, v); ld sc = 0; for (int i = 0; i < 4; ++i) sc += fabsl(u.d[i]*u.u[i]); double T = 1e-10*double(1 + sc)*(m.numeric ? 1e3 : 1)*(1 + 1/std::max(1e-3, (r - m.rmin)/m.rmin));
  auto eq = [&](ld a, ld b, double tol, std::string w) { c.close(double(a), double(b), tol, tol, "motion/" + k, what + " " + w); };
  if (k == "ThinDisk" && x.s == "ZAMO") { double w[4]; m.met->zamoVelocity(p, w); for (int i = 0; i < 4; ++i) eq(v[i], w[i], 1e-13, "component " + std::to_string(i) + " of the ZAMO velocity"); if (!m.spherical) return; }
  if (k == "FixedStar" && x.b) { double w[4]; m.met->circularVelocity(p, w); for (int i = 0; i < 4; ++i) eq(v[i], w[i], 1e-13, "component " + std::to_string(i) + " of the circular velocity"); return; }
  if (k == "Torus" || (k == "ThinDisk" && x.s == "Keplerian")) { double q[4] = {p[0], p[1], p[2], p[3]}, w[4]; if (k == "Torus") { if (m.spherical) { q[1] = p[1]*sin(p[2]); q[2] = M_PI/2; } else q[3] = 0; } m.met->circularVelocity(q, w, k == "Torus" ? 1 : x.p["dir"]); for (int i = 0; i < 4; ++i) eq(v[i], w[i], 1e-13, "component " + std::to_string(i) + " of the circular velocity"); return; }
  if (k != "FixedStar" || 1) eq(u.n2, -1, T, "norm");
  if (k == "ThinDisk") { for (int i = 1; i < 4; ++i) eq(u.d[i]/sqrtl(fabsl(R.g[i][i])), 0, T, "ZAMO spatial covariant component"); }
  else if (k == "PolishDoughnut") { ld l = dynamic_cast<Astrobj::PolishDoughnut *>((Astrobj::Generic *)x.o)->getL0(); eq(u.u[1], 0, 0, "u^r"); eq(u.u[2], 0, 0, "u^theta"); eq(-u.d[3]/u.d[0], l, 1e-9, "angular momentum"); if (x.p.count("l")) eq(l, x.p["l"], 1e-14, "given angular momentum"); c.check(v[0] > 0, "motion/" + k, "past directed"); }
  else if (k == "DeformedTorus" || k == "OscilTorus") { double ctr[4] = {0, x.p["LargeRadius"], M_PI/2, 0}; mg::Ref C = mg::reference(m, ctr); ld Om = 1/(powl(ctr[1], 1.5L) + m.a), l = -(Om*C.g[3][3] + C.g[0][3])/(Om*C.g[0][3] + C.g[0][0]); eq(-u.d[3]/u.d[0], l, 1e-9, "specific angular momentum"); c.check(v[0] > 0, "motion/" + k, "past directed");
    std::string s = x.s; if (s == "Radial" || s == "RadialTranslation" || s == "RadialShear") eq(u.u[2], 0, 0, "u^theta of a radial mode"); if (s == "Vertical" || s == "VerticalTranslation" || s == "VerticalShear") eq(u.u[1], 0, 0, "u^r of a vertical mode"); }
  else if (k == "Jet") {
    ld N = 1/sqrtl(-R.gup[0][0]), G = N*u.u[0]; double gam = x.p["GammaJet"]; eq(G, gam, T + 1e-12, "Lorentz factor measured by the ZAMO"); bool out = x.p["out"] && p[1] > x.p["JetStagnationRadius"]; if (fabs(p[1] - x.p["JetStagnationRadius"]) < 1e-9) return; int sg = out ? 1 : -1;
    ld om = R.gup[0][3]/R.gup[0][0]; ld V1 = u.u[1]*sqrtl(R.g[1][1])/G, V2 = u.u[2]*sqrtl(R.g[2][2])/G, V3 = (u.u[3] - om*u.u[0])*sqrtl(R.g[3][3])/G; ld beta = sqrtl(1 - 1/(ld(gam)*gam)); double tv = T/std::max(1e-4, double(beta)) + 1e-9/std::max(1e-3, double(beta)); double ratio = x.p["JetVphiOverVr"]; ld e1, e2, e3;
    if (!x.b) { e1 = 1; e2 = 0; e3 = ratio; }
    else { ld s = sinl(p[2]), co = cosl(p[2]), sz = co < 0 ? -1 : 1, rho = p[1]*s, ai = x.p["JetShapeInnerParabolaParam"], tz = 2*sz*ai*rho, nn = sqrtl(1 + tz*tz); e1 = (s + tz*co)/nn; e2 = (co - tz*s)/nn; e3 = ratio*e1; }
    ld nn = sqrtl(e1*e1 + e2*e2 + e3*e3); eq(V1, sg*beta*e1/nn, tv, "radial velocity measured by the ZAMO"); eq(V2, sg*beta*e2/nn, tv, "polar velocity measured by the ZAMO"); eq(V3, beta*e3/nn, tv, "azimuthal velocity measured by the ZAMO"); }
  else if (k == "SphericalAccretion") { eq(u.d[0], -1, T, "u_t"); eq(u.d[3]/sqrtl(R.g[3][3]), 0, T, "u_phi"); eq(u.u[2], 0, 0, "u^theta"); c.check(v[1] <= 0, "motion/" + k, "does not fall in"); }
  else if (k == "ThickDisk") { double rho = p[1]*sin(p[2]); ld l = powl(rho, 1.5L)/(rho + 1), q = -(R.gup[0][0] - 2*l*R.gup[0][3] + l*l*R.gup[3][3]); if (q <= 1e-3) throw pbt::Discard(); ld Oc = (-R.gup[0][3] + R.gup[3][3]*l)/(-R.gup[0][0] + R.gup[0][3]*l), Or = R.gup[0][3]/R.gup[0][0], ur = -sqrtl(std::max<ld>(0, (-1 - R.gup[0][0])*R.gup[1][1])); eq(u.u[1], (1 - ld(x.p["al"]))*ur, 1e-8, "u^r"); eq(u.u[2], 0, 0, "u^theta"); eq(u.u[3]/u.u[0], x.p["be"]*Oc + (1 - ld(x.p["be"]))*Or, 1e-9, "angular velocity"); c.check(v[0] > 0, "motion/" + k, "past directed"); }
  else if (k == "ThinDiskProfile") {
    double ri = m.met->getRms(); if (fabs(p[1]/ri - 1) < 1e-4) throw pbt::Discard(); bool rz = m.kind != "KerrBL"; ld xi = x.s == "Mixed" && rz ? 0.7L : 1, Oc, E, L, urc = 0; 
    if (p[1] > ri) { if (!circ(R, xi, Oc, E, L)) throw pbt::Discard(); }
    else { double q[4] = {0, ri, M_PI/2, 0}; mg::Ref C = mg::reference(m, q); if (!circ(C, xi, Oc, E, L)) throw pbt::Discard(); ld ut = -E*R.gup[0][0] + L*R.gup[0][3], up = -E*R.gup[0][3] + L*R.gup[3][3]; Oc = up/ut; ld q2 = -(1 + R.gup[0][0]*E*E - 2*R.gup[0][3]*E*L + R.gup[3][3]*L*L)*R.gup[1][1]; if (q2 < 1e-9) throw pbt::Discard(); urc = -sqrtl(q2); c.label("below-isco"); }
    ld Or = R.gup[0][3]/R.gup[0][0], urr = -sqrtl(std::max<ld>(0, (-1 - R.gup[0][0])/R.g[1][1])), w = x.s == "Circular" ? 1 : x.s == "Radial" ? 0 : 0.8L;
    eq(u.u[1], w*urc + (1 - w)*urr, 1e-6, "u^r"); eq(u.u[2], 0, 0, "u^theta"); eq(u.u[3]/u.u[0], w*Oc + (1 - w)*Or, 1e-7, "angular velocity"); c.label(x.s); }
  else if (k == "FixedStar") { if (!x.b) for (int i = 1; i < 4; ++i) eq(u.u[i], 0, 1e-14, "spatial velocity of a fixed star"); }
  else if (sphere || k == "Star") { if (k == "FreeStar" || k == "Star") for (int i = 1; i < 4; ++i) eq(u.u[i]/u.u[0], x.p["v" + std::to_string(i)], 1e-10, "coordinate velocity " + std::to_string(i)); else for (int i = 1; i < 4; ++i) eq(u.u[i]/u.u[0], vc[i-1], 1e-9, "coordinate velocity of the centre, component " + std::to_string(i)); }
}

PBT_SUB(shape, 60000, 1500000, "random matter model, metric, settings, place and date; non-trivial: the place is within a factor two of the surface of the model") {
  Model x; build(g, x); M &m = x.m; std::string k = x.kind; if (k == "ThinDiskProfile") throw pbt::Discard(); c.label(k); double *p = m.pos; mg::position(g, m, 60);
  if (k == "DeformedTorus" || k == "OscilTorus") { double c0 = x.p["LargeRadius"]; p[1] = c0*g.uni(0.5, 1.8); p[2] = M_PI/2 + g.uni(-0.5, 0.5); }
  if (k == "PolishDoughnut") { auto d = dynamic_cast<Astrobj::PolishDoughnut *>((Astrobj::Generic *)x.o); double rc = d->getRcentre(); p[1] = rc*g.logu(0.2, 6); if (p[1] < 1.05*m.rmin) throw pbt::Discard(); if (g.flip()) p[2] = M_PI/2 + g.uni(-0.4, 0.4); }
  double pc[4], vc[3]; bool sphere = k == "FixedStar" || k == "FreeStar" || k == "Blob" || k == "Star";
  if (k == "Star") for (int i = 0; i < 4; ++i) pc[i] = x.p["x" + std::to_string(i)]; else if (sphere && !centre(x, x.p["x0"] + g.uni(-20, 20), pc, vc)) throw pbt::Discard();
  if (sphere) { p[0] = pc[0]; double rad = x.p["Radius"]*g.uni(0.2, 2.5), cs[3], n[3]; do { for (auto &q : n) q = g.uni(-1, 1); } while (n[0]*n[0] + n[1]*n[1] + n[2]*n[2] < 0.01 && 0); double nn = sqrt(n[0]*n[0] + n[1]*n[1] + n[2]*n[2]); if (nn < 0.05) throw pbt::Discard(); cart(m, pc, cs); for (int i = 0; i < 3; ++i) cs[i] += rad*n[i]/nn; double rr = sqrt(cs[0]*cs[0] + cs[1]*cs[1] + cs[2]*cs[2]); if (rr < 0.5) throw pbt::Discard(); if (m.spherical) { p[1] = rr; p[2] = acos(cs[2]/rr); p[3] = atan2(cs[1], cs[0]) + 2*M_PI*g.range(-1, 1); } else std::copy(cs, cs + 3, p + 1); }
  c.note << x.d.str() << " at"; for (int i = 0; i < 4; ++i) c.note << ' ' << std::setprecision(10) << p[i];
  double cs[3]; cart(m, p, cs); double rho = sqrt(cs[0]*cs[0] + cs[1]*cs[1]), z = cs[2], r = sqrt(rho*rho + z*z); auto eq = [&](double a, double b, double tol, std::string w) { c.close(a, b, tol, tol, "shape/" + k, k + (x.s.size() ? "/" + x.s : "") + " " + w); };
  double f = distance(x.o, p); Astrobj::Standard *S = st(x.o); double crit = 0; if (S) { crit = AccS::crit(S); } bool inside = f < crit;
  auto io = [&](bool want, double margin) { if (margin < 1e-9) return; c.check(inside == want, "shape/" + k, k + (want ? ": a place inside is taken as outside" : ": a place outside is taken as inside")); c.label(want ? "in" : "out"); };
  if (k == "ThinDisk") { Astrobj::ThinDisk *d = td(x.o); double th = m.spherical ? p[2] - M_PI/2 : 0; eq(f, m.spherical ? th : z, 1e-12, "height function"); eq(d->projectedRadius(p), m.spherical ? p[1] : rho, 1e-13, "projected radius"); double ph = d->sphericalPhi(p); eq(remainder(ph - atan2(cs[1], cs[0]), 2*M_PI), 0, 1e-12, "azimuth"); c.nontrivial = true; }
  else if (k == "Torus") { double C = x.p["LargeRadius"], s2 = (rho - C)*(rho - C) + z*z, sr = x.p["SmallRadius"]; eq(f, s2, 1e-11*(1 + C*C), "squared distance"); io(s2 < sr*sr, fabs(s2 - sr*sr)); c.nontrivial = s2 < 4*sr*sr; }
  else if (sphere) { double cc[3]; cart(m, pc, cc); if (m.kind == "SchwarzschildHarmonic") { double rr = sqrt(cc[0]*cc[0] + cc[1]*cc[1] + cc[2]*cc[2]); for (auto &q : cc) q *= (rr + 1)/rr; for (auto &q : cs) q *= (r + 1)/r; } double d2 = 0; for (int i = 0; i < 3; ++i) d2 += (cs[i] - cc[i])*(cs[i] - cc[i]); double R2 = x.p["Radius"]*x.p["Radius"], far = 1 + cs[0]*cs[0] + cs[1]*cs[1] + cs[2]*cs[2]; eq(f, d2, (k == "Star" ? 1e-8 : 1e-12)*far, "squared distance to the centre"); io(d2 < R2, fabs(d2 - R2) - 1e-8*far); c.nontrivial = d2 < 4*R2; 
    if (k != "Star") { double X[6], t = pc[0]; auto us = dynamic_cast<Astrobj::UniformSphere *>((Astrobj::Generic *)x.o); AccU::cart(us, t, X); cart(m, pc, cc); for (int i = 0; i < 3; ++i) eq(X[i], cc[i], 1e-11*far, "Cartesian position of the centre");  } }
  else if (k == "Jet") { double in, out; if (x.b) { in = sqrt(fabs(z)/x.p["JetShapeInnerParabolaParam"]); out = sqrt(fabs(z)/x.p["JetShapeOuterParabolaParam"]); } else { in = fabs(z)*tan(x.p["JetInnerOpeningAngle"]); out = fabs(z)*tan(x.p["JetOuterOpeningAngle"]); } double ri = x.p["JetInnerRadius"]; bool want = r > ri && rho > in && rho < out; io(want, std::min(fabs(r - ri), std::min(fabs(rho - in), fabs(rho - out)))); c.nontrivial = rho > in/2 && rho < 2*out; }
  else if (k == "SphericalAccretion") { double ri = x.p["SphericalAccretionInnerRadius"]; io(r > ri, fabs(r - ri)); c.nontrivial = r < 2*ri; }
  else if (k == "ThickDisk") { io(true, 1); c.nontrivial = true; }
  else if (k == "PolishDoughnut") { auto d = dynamic_cast<Astrobj::PolishDoughnut *>((Astrobj::Generic *)x.o); ld l = d->getL0(); mg::Ref R = mg::reference(m, p); auto W = [&](mg::Ref const &A, bool &ok) { ld q = -(A.gup[0][0] - 2*l*A.gup[0][3] + l*l*A.gup[3][3]); ok = q > 0; return ok ? logl(q)/2 : 0; };
    double rin; bool ok, ok2; if (x.p.count("Lambda")) { // cusp: potential extremum between the marginally bound and stable radii
      rin = d->getRcusp(); auto dl = [&](double rr) { double q[4] = {0, rr, M_PI/2, 0}; mg::Ref C = mg::reference(m, q); ld Om, E, L; return circ(C, 1, Om, E, L) ? double(L/E) : NAN; }; double rms = m.met->getRms(), rmb = m.met->getRmb(); eq(double(l), dl(rms) + x.p["Lambda"]*(dl(rmb) - dl(rms)), 1e-7, "angular momentum from Lambda"); eq(dl(rin), double(l), 1e-6, "Keplerian angular momentum at the cusp"); eq(dl(d->getRcentre()), double(l), 1e-6, "Keplerian angular momentum at the centre"); c.check(rin <= rms*(1 + 1e-6) && d->getRcentre() >= rms*(1 - 1e-6), "shape/" + k, "cusp and centre on the same side of the marginally stable radius"); }
    else { rin = x.p["ri"]; eq(double(l), x.p["l"], 1e-14, "angular momentum"); }
    double qi[4] = {0, rin, M_PI/2, 0}; ld ws = W(mg::reference(m, qi), ok), w = W(R, ok2); if (!ok) throw pbt::Discard(); bool want = ok2 && p[1] > rin && rho > rin && w > ws; io(want, std::min(std::min(fabs(p[1] - rin) - 1e-6, fabs(rho - rin) - 1e-6), ok2 ? double(fabsl(w - ws)) - 1e-7 : 1.)); c.nontrivial = ok2; }
  else if (k == "DeformedTorus" || k == "OscilTorus") { double C = x.p["LargeRadius"], ctr[4] = {0, C, M_PI/2, 0}, a = m.a; mg::Ref R = mg::reference(m, ctr); double Om = 1/(pow(C, 1.5) + a), wr = 1 - 6/C + 8*a*pow(C, -1.5) - 3*a*a/(C*C), wt = 1 - 4*a*pow(C, -1.5) + 3*a*a/(C*C); double X = double(sqrtl(R.g[1][1]))*(p[1] - C)/C, Y = double(sqrtl(R.g[2][2]))*(M_PI/2 - p[2])/C, want;
    if (k == "DeformedTorus") { double b = x.p["Beta"], e = x.p["Eta"], s = sin(Om*p[0]), co = cos(Om*p[0]); X /= b; Y /= b; double x1 = X, y1 = Y; if (x.s == "RadialTranslation") x1 += e*s; else if (x.s == "VerticalTranslation") y1 += e*s; else if (x.s == "Rotation") { x1 = co*X + s*Y; y1 = -s*X + co*Y; } else if (x.s == "Expansion") { x1 *= 1 + e*s; y1 *= 1 + e*s; } else if (x.s == "RadialShear") x1 += e*s*Y; else if (x.s == "VerticalShear") y1 += e*s*X; else { x1 *= 1 + e*s; y1 /= 1 + e*s; } want = wr*x1*x1 + wt*y1*y1 - 1; }
    else { double n = x.p["PolyIndex"], g1 = (n + 1)/n, pc_ = x.p["PolyCst"]*pow(x.p["CentralDensity"], g1), cs2 = g1*pc_/x.p["CentralDensity"], ut2 = -1/double(R.g[0][0] + 2*Om*R.g[0][3] + Om*Om*R.g[3][3]), b = sqrt(2*n*cs2/(C*C*ut2*Om*Om)); X /= b; Y /= b; double A0 = sqrt(n*sqrt(wr*wt)/M_PI), sg, al, uu; std::string q = x.s;
      if (q == "Radial") { sg = sqrt(wr); al = A0*sqrt(2*(n + 1)*wr); uu = X; } else if (q == "Vertical") { sg = sqrt(wt); al = A0*sqrt(2*(n + 1)*wt); uu = Y; } else if (q == "X") { sg = sqrt(wr + wt); al = A0*sqrt(4*(n + 1)*(n + 2)*wr*wt); uu = X*Y; }
      else { // plus and breathing: quadratic eigenmodes 1 + w1 X^2 + w2 Y^2 of the slender torus
        double S_ = wr + wt, D = sqrt(4*n*(n + 1)*(wr - wt)*(wr - wt) + S_*S_), s2 = ((2*n + 1)*S_ + (q == "Plus" ? -D : D))/(2*n); sg = sqrt(s2); if (fabs(wr - wt) < 1e-3) throw pbt::Discard(); double w1 = -s2*wr/(s2 - 2*wr), w2 = -s2*wt/(s2 - 2*wt); al = A0*sqrt((n + 2)*(s2 - S_)/(2*n*s2 - (2*n + 1)*S_)); uu = 1 + w1*X*X + w2*Y*Y; }
      double mode = x.p["Mode"]; want = wr*X*X + wt*Y*Y - 1 + x.p["PerturbIntens"]*sg*al*uu*cos(mode*p[3] - Om*(sg + mode)*p[0]); }
    eq(f, want, 1e-7*(1 + X*X + Y*Y)*(1 + fabs(want)), "surface function"); io(want < 0, fabs(want) - 1e-6); c.nontrivial = want < 3; }
}


PBT_SUB(history, 10000, 200000, "two random models of the same kind; the second is used, then given the settings and the space-time of the first one in random order (or is a clone of it used on its own); non-trivial: at least one of them changed") {
  Model x, y; build(g, x); y.kind = x.kind; std::ostringstream d; std::string k = x.kind; M &m = x.m; c.label(k);
  { Model q; q.kind = k; build(g, q); y.o = q.o; y.m.met = SmartPointer<Metric::Generic>(q.m.met); y.m.kind = q.m.kind; y.m.spherical = q.m.spherical; std::copy(q.m.pos, q.m.pos + 4, y.m.pos); d << q.d.str(); }
  double v[4]; if (!g.chance(1, 4)) try { distance(y.o, y.m.pos); velocity(y.o, y.m.pos, v); d << " used,"; } catch (Gyoto::Error const &) {}
  bool same = y.m.kind == m.kind && !g.chance(1, 4); std::vector<Property const *> ps = og::props(&*(x.o)); std::vector<int> order; for (size_t i = 0; i < ps.size(); ++i) order.push_back(i); order.push_back(-1); if (g.flip()) order.push_back(-2); for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[g.below(i)]);
  bool star = k == "Star" || k == "FreeStar" || k == "Blob"; if (star) std::stable_sort(order.begin(), order.end(), [](int a, int b) { return (a == -1) > (b == -1); }); // initial velocities are completed with the metric
  for (int i : order) {
    if (i == -1) { if (same) { for (auto p : og::props(&*(m.met))) { try { Value val = m.met->get(*p); y.m.met->set(*p, val); } catch (Gyoto::Error const &) {} } d << " metric changed,"; } else { try { y.o->metric(m.met); } catch (Gyoto::Error const &) { throw pbt::Discard(); } d << " metric given,"; } continue; }
    if (i == -2) { y.o = SmartPointer<Astrobj::Generic>(y.o->clone()); y.m.met = SmartPointer<Metric::Generic>(y.o->metric()); d << " cloned,"; continue; }
    Property const *p = ps[i]; std::string n = p->name; if (k == "PolishDoughnut" && n == (x.p.count("Lambda") ? "AngMomRinner" : "Lambda")) continue; if (p->type == Property::metric_t || p->type == Property::filename_t || n == "InitVelocity" || n == "InitPosition" || n == "NumericalIntegrationParameters") continue; if (k == "PolishDoughnut" && (n == "ADAFParameters" || n == "ADAF")) continue;
    try { Value val = x.o->get(*p); y.o->set(*p, val); d << ' ' << n; } catch (Gyoto::Error const &e) { }
  }
  c.note << x.d.str() << " reached from " << d.str(); c.nontrivial = true; if (k == "FreeStar") { y.o->set("InitPosition", x.o->get("InitPosition")); y.o->set("InitVelocity", x.o->get("InitVelocity")); }
  static std::set<std::string> const skip = {"OpticallyThin", "Lambda", "AngMomRinner", "ADAFParameters"}; std::string diff = og::diff(&*(x.o), &*(y.o), 1e-9, 0, &skip); if (diff.size()) { c.label("diff:" + k + ":" + diff.substr(0, diff.find(' '))); throw pbt::Discard(); }
  SmartPointer<Astrobj::Generic> cl; if (g.flip()) cl = x.o->clone();
  for (int n = 0; n < 4; ++n) {
    double *p = m.pos; mg::position(g, m, 40); if (k == "DeformedTorus" || k == "OscilTorus") { p[1] = x.p["LargeRadius"]*g.uni(0.75, 1.4); p[2] = M_PI/2 + g.uni(-0.3, 0.3); } if (k == "ThinDisk" || k == "ThinDiskProfile") { if (m.spherical) p[2] = M_PI/2; else p[3] = 0; } if (k == "Star") p[0] = x.p["x0"];
    auto val = [&](SmartPointer<Astrobj::Generic> const &o) { V r; try { r.push_back(distance(o, p)); } catch (Gyoto::Error const &) { r.push_back(-99); } double u[4]; try { velocity(o, p, u); r.insert(r.end(), u, u + 4); } catch (Gyoto::Error const &) { r.insert(r.end(), 4, -99.); } if (auto s = st(o)) r.push_back(AccS::crit(s)); return r; };
    V a = val(x.o), b = val(y.o); for (size_t i = 0; i < a.size(); ++i) if (a[i] == a[i] || b[i] == b[i]) c.close(b[i], a[i], 1e-7, 1e-9, "history/" + k, (i == 0 ? "surface function" : i < 5 ? "velocity" : "critical value") + std::string(" of the changed model against that of the model built directly"));
    if (cl) { V q = val(cl); for (size_t i = 0; i < a.size(); ++i) if (a[i] == a[i] || q[i] == q[i]) c.close(q[i], a[i], 1e-12, 1e-12, "history/clone/" + k, (i == 0 ? "surface function" : i < 5 ? "velocity" : "critical value") + std::string(" of the clone")); }
  }
}

PBT_SUB(rays, 1200, 30000, "random model, metric, camera and line of sight; the hit found by the ray tracer against dense sampling of the shape along a ray traced without the object; non-trivial: the ray hits the object") {
  Model x; x.kind = g.pick(std::vector<std::string>{"ThinDisk", "Torus", "FixedStar", "Star", "Jet", "PolishDoughnut", "DeformedTorus", "OscilTorus", "Blob", "FreeStar"}); build(g, x); M &m = x.m; std::string k = x.kind; c.label(k); scn::Set s(x.o, x.d);
  double rin = 0, rout = 0, big = 20; if (k == "ThinDisk") { rin = g.uni(2, 10); rout = rin + g.uni(1, 15); s("InnerRadius", rin)("OuterRadius", rout); big = rout; } if (k == "Jet") big = 15; if (k == "PolishDoughnut") { big = 15; } if (k == "Torus" || k == "DeformedTorus" || k == "OscilTorus") big = 1.3*x.p["LargeRadius"];
  double rmax = 80; s("RMax", rmax); if (k != "ThinDisk") { s("DeltaMaxInsideRMax", 0.25); } bool thin = k == "Jet" || k == "PolishDoughnut" || k == "Blob"; if (!thin) s.b("OpticallyThin", false);
  if (k == "OscilTorus" && g.flip()) s("SafetyValue", 50.);
  SmartPointer<Screen> scr = new Screen(); scr->metric(m.met); scn::Set q(scr, x.d); double dist = 100, t0 = g.uni(60, 140); q("Distance", dist, "geometrical"); q("Time", t0, "geometrical_time"); q("Inclination", g.uni(0.1, 3.0)); q("PALN", g.uni(0, 6.28)); q("Argument", g.uni(-3, 3)); q("FieldOfView", 0.5); q.z("Resolution", 8); q("FreqObs", 1e17);
  double al = g.uni(-1, 1)*0.9*big/dist, de = g.uni(-1, 1)*0.9*big/dist; 
  if ((k == "FixedStar" || k == "Star" || k == "FreeStar" || k == "Blob") && !g.chance(1, 6)) { // aim close to the place of the sphere at about the emission date
    double pc[4], vc[3]; bool ok = true; if (k == "Star") for (int i = 0; i < 4; ++i) pc[i] = x.p["x" + std::to_string(i)]; else ok = centre(x, t0 - dist, pc, vc); if (ok) { pc[0] = t0; double sk[3]; scr->coordToSky(pc, sk, true); double R = 1.3*x.p["Radius"]; al = (sk[0] + g.uni(-R, R))/(dist - sk[2]); de = (sk[1] + g.uni(-R, R))/(dist - sk[2]); c.label("aimed"); } }
  c.note << x.d.str() << " ray " << al << ' ' << de; double tmin = t0 - 220;
  double imp[16]; Astrobj::Properties data; for (double &v : imp) v = DBL_MAX; data.impactcoords = imp; data.offset = 1;
  std::vector<double> dates, x1, x2, x3; V f; bool hit; double crit = 0; size_t n;
  auto undefined = [&](std::string t) { return t.find("negative") != t.npos || t.find("ircular") != t.npos || t.find("impossible") != t.npos || t.find("elocity") != t.npos || t.find("NaN") != t.npos || t.find("nan") != t.npos || t.find("Undefined") != t.npos || (k == "Star" && t.find("get coordinates") != t.npos); };
  try { { Photon ph(m.met, x.o, scr, al, de); ph.tMin(tmin); ph.hit(&data); hit = imp[0] != DBL_MAX; if (auto S = st(x.o)) crit = AccS::crit(S); }
    Photon fr(m.met, x.o, scr, al, de); fr.xFill(tmin); double xx[8]; { state_t cc(8); fr.getCoord(fr.getImin(), cc); xx[0] = cc[0]; } double lo = std::max(xx[0], tmin), hi = t0; const double dt = 0.08; n = size_t((hi - lo)/dt); if (n < 10) throw pbt::Discard(); dates.resize(n); for (size_t i = 0; i < n; ++i) dates[i] = hi - (i + 0.5)*dt; x1.resize(n); x2.resize(n); x3.resize(n); fr.getCoord(&dates[0], n, &x1[0], &x2[0], &x3[0]); f.resize(n);
    double prev = 0; double tin = NAN, dur = 0, best = 0, tbest = NAN, low = DBL_MAX, tfirst = NAN, rfirst = 0; bool near = false, amb = false;
    for (size_t i = 0; i < n; ++i) { double p[4] = {dates[i], x1[i], x2[i], x3[i]}; if (m.spherical) { double th = remainder(p[2], 2*M_PI); if (th < 0) { th = -th; p[3] += M_PI; } p[2] = th; } double r = radius(m, p); if (r != r || r < 1.15*m.rmin || inside_horizon(m, p)) { n = i; near = true; break; } if (r > rmax - 2) { f[i] = 1e30; prev = 0; dur = 0; if (k != "ThinDisk" && k != "Jet" && r < rmax + 5) { if (distance(x.o, p) < crit + 1) amb = true; } continue; }
      f[i] = distance(x.o, p); if (f[i] != f[i]) throw pbt::Discard();
      if (k == "ThinDisk") { if (i && prev != 0 && (prev > 0) != (f[i] > 0)) { double w = prev/(prev - f[i]), ra = td(x.o)->projectedRadius(p), pp[4] = {dates[i-1], x1[i-1], x2[i-1], x3[i-1]}, rb = td(x.o)->projectedRadius(pp), rc = rb + w*(ra - rb), mg = 0.05 + 0.02*rc; double in = std::min(rc - rin, rout - rc); if (fabs(in) < mg) { amb = true; if (tfirst != tfirst) { tfirst = -1e9; } } else if (in > 0 && tfirst != tfirst) { tfirst = dates[i-1] - w*dt; rfirst = r; best = 1; } } prev = f[i]; continue; }
      low = std::min(low, f[i]); if (f[i] < crit) { if (tfirst != tfirst) { tfirst = dates[i]; rfirst = r; } dur += dt; if (dur > best) { best = dur; tbest = dates[i]; } } else dur = 0; (void)tin; (void)tbest; }
    if (amb) { c.label("ambiguous"); throw pbt::Discard(); }
    std::string w = k + (x.s.size() ? "/" + x.s : ""); std::ostringstream ti; ti << " (first contact " << tfirst << ", reported " << imp[0] << ", inside for " << best << ")";
    if (hit) { c.label("hit"); c.nontrivial = true; double p[4] = {imp[0], imp[1], imp[2], imp[3]}; double r = radius(m, p); if (r > rmax - 2 || rfirst > rmax - 3 || (k == "OscilTorus" && (r > 2*x.p["LargeRadius"] || rfirst > 2*x.p["LargeRadius"]))) { c.label("far"); throw pbt::Discard(); } bool nearhit = r < 1.2*m.rmin || inside_horizon(m, p); if (nearhit && near) throw pbt::Discard(); if (best == 0) { double far = 1e-2*(1 + fabs(crit)) + 0.05*(low < 1e29 ? fabs(low - crit) : 0); if (k != "ThinDisk" && low < crit + 0.5 + far) { c.label("grazing"); throw pbt::Discard(); } c.fail("rays/" + k + "/spurious", w + ": a hit is reported on a line of sight that does not meet the object" + ti.str()); }
      if (best < 0.3) { c.label("grazing"); throw pbt::Discard(); } if (rfirst < 1.3*m.rmin) throw pbt::Discard(); if (k == "ThinDisk" && tfirst == -1e9) throw pbt::Discard();
      double tol = 0.1 + 0.05*(k == "Blob" || k == "Jet" || k == "PolishDoughnut" || k == "OscilTorus" ? 6 : 1); if (dur == best || true) c.check(fabs(imp[0] - tfirst) < tol, "rays/" + k + "/date", w + ": the impact is not the first contact with the object" + ti.str());
      if (k != "ThinDisk") { double fv = distance(x.o, p); c.check(fv < crit + 1e-3*(1 + fabs(crit)), "rays/" + k + "/place", w + ": the impact is not in the object" + ti.str()); } }
    else { if (best < 0.6 && k != "ThinDisk") { c.label(best ? "grazing" : "miss"); return; } if (best == 0) { c.label("miss"); return; } if (rfirst < 1.3*m.rmin || tfirst == -1e9) throw pbt::Discard(); c.fail("rays/" + k + "/missed", w + ": the ray goes through the object without a hit" + ti.str()); } }
  catch (Gyoto::Error const &e) { if (undefined((const char *)e)) { c.label("undefined:" + k); throw pbt::Discard(); } throw; }
}
GY_MAIN
