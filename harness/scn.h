// Generated sceneries: metric x emitting object x camera x spectrometer, with
// parameters for which rays actually hit the object.
#ifndef SCN_H
#define SCN_H
#include "gy.h"
#include <memory>
#include "GyotoStar.h"
#include "GyotoComplexAstrobj.h"
#include "GyotoPatternDisk.h"
#include "GyotoDisk3D.h"
namespace scn {
using namespace Gyoto;
typedef std::vector<double> V;
struct S {
  SmartPointer<Scenery> sc; SmartPointer<Metric::Generic> met; SmartPointer<Astrobj::Generic> obj; SmartPointer<Screen> scr;
  std::string mkind, akind; std::ostringstream d; bool thin = false; double rsize = 15; size_t nnu = 0; double fobs = 0; bool bolo = false;
  std::string desc() const { return d.str(); }
};
struct Set {  // sets properties and describes them
  SmartPointer<Metric::Generic> m; Object *o; std::ostringstream &d;
  Set(Object *oo, std::ostringstream &dd) : o(oo), d(dd) { d << std::setprecision(17); }
  Set &operator()(std::string n, double v) { d << ' ' << n << '=' << v; o->set(n, Value(v)); return *this; }
  Set &operator()(std::string n, double v, std::string u) { d << ' ' << n << '=' << v << u; o->set(n, Value(v), u); return *this; }
  Set &b(std::string n, bool v) { d << ' ' << n << '=' << v; o->set(n, Value(v)); return *this; }
  Set &s(std::string n, std::string v) { d << ' ' << n << '=' << v; o->set(n, Value(v)); return *this; }
  Set &z(std::string n, size_t v) { d << ' ' << n << '=' << v; o->set(n, Value(v)); return *this; }
  Set &l(std::string n, unsigned long v) { d << ' ' << n << '=' << v; o->set(n, Value(v)); return *this; }
  Set &v(std::string n, V const &x) { d << ' ' << n << "=("; for (double y : x) d << y << ' '; d << ')'; o->set(n, Value(x)); return *this; }
};
inline SmartPointer<Spectrum::Generic> spectrum(pbt::Gen &g, std::ostringstream &d, bool opacity = false) {
  if (!opacity && g.flip()) { SmartPointer<Spectrum::Generic> s = gy::spectrum("BlackBody"); d << " spectrum{BlackBody"; Set q(s, d); q("Temperature", g.logu(1e3, 1e6)); if (g.chance(1, 3)) q("ColorCorrection", g.uni(1, 2)); d << "}"; return s; }
  SmartPointer<Spectrum::Generic> s = gy::spectrum("PowerLaw"); d << (opacity ? " opacity{" : " spectrum{") << "PowerLaw"; Set q(s, d); q("Exponent", g.uni(-2, 2)); double e = s->get("Exponent"); double ref = pow(1e17, e); q("Constant", (opacity ? g.logu(0.01, 3)*1e-17 : g.logu(1e-3, 1e3))/ref); d << "}"; return s;
}
inline std::vector<std::string> const &akinds() {
  static std::vector<std::string> k = {"FixedStar", "Star", "Torus", "PageThorneDisk", "ThinDiskPL", "ThinDisk", "PolishDoughnut", "EquatorialHotSpot", "Complex", "DeformedTorus", "OscilTorus",
    "ThickDisk", "SphericalAccretion", "Jet", "Blob", "ThinDiskProfile", "ThinDiskIronLine", "PatternDisk", "PatternDiskBB", "Disk3D", "InflateStar", "StarTrace", "StochasticThinDisk", "FreeStar"};
  return k;
}
inline SmartPointer<Metric::Generic> metric(pbt::Gen &g, std::string &kind, std::ostringstream &d) {
  std::string k = kind; bool sph = false; if (k == "MinkowskiSph") { k = "Minkowski"; sph = true; }
  SmartPointer<Metric::Generic> m = gy::metric(k); d << "metric " << kind; Set s(m, d);
  if (k == "KerrBL" || k == "KerrKS" || k == "KonoplyaRezzollaZhidenko" || k == "Hayward") s("Spin", k == "KonoplyaRezzollaZhidenko" ? g.uni(0.05, 0.8) : g.chance(1, 4) ? 0. : g.uni(0, 0.95));
  if (k == "ReissnerNordstrom" || k == "Hayward") s("Charge", g.uni(0, 0.8));
  if (k == "RezzollaZhidenko") { s("Epsilon", g.uni(-0.3, 0.2)); V a(4, 0.); a[0] = g.uni(0, 0.2); s.v("AParam", a); }
  if (k == "Minkowski") { s.b("Spherical", sph); s.b("Keplerian", true); }
  s("Mass", g.logu(1, 1e9), "sunmass");
  return m;
}
// circular orbit of radius r in the equatorial plane, 8 coordinates
inline V circ(SmartPointer<Metric::Generic> m, double r, double phi, double t0, double dir = 1) {
  double p[4] = {t0, r, M_PI/2, phi}, v[4]; if (m->coordKind() == GYOTO_COORDKIND_CARTESIAN) { p[1] = r*cos(phi); p[2] = r*sin(phi); p[3] = 0; }
  m->circularVelocity(p, v, dir); V c(p, p + 4); c.insert(c.end(), v, v + 4); return c;
}
inline SmartPointer<Astrobj::Generic> astrobj(pbt::Gen &g, std::string k, SmartPointer<Metric::Generic> m, S &S_, int depth = 0) {
  std::ostringstream &d = S_.d; bool sph = m->coordKind() == GYOTO_COORDKIND_SPHERICAL; SmartPointer<Astrobj::Generic> o = gy::astrobj(k); d << "; " << k; Set s(o, d); o->metric(m);
  bool thin = g.flip();
  auto thinness = [&]() { s.b("OpticallyThin", thin); };
  auto uniform = [&](bool op = true) { o->set("Spectrum", Value(spectrum(g, d))); if (op) o->set("Opacity", Value(spectrum(g, d, true))); thinness(); };
  if (k == "FixedStar") { double r = g.uni(5, 14), th = g.uni(0.5, 2.6), ph = g.uni(0, 6.28); V p = {r, th, ph}; if (!sph) p = {r*sin(th)*cos(ph), r*sin(th)*sin(ph), r*cos(th)};
    s.v("Position", p)("Radius", g.uni(0.2*r, 0.5*r)); if (g.flip()) s.b("Rotating", true); uniform(); s("RMax", 40); }
  else if (k == "Star" || k == "InflateStar" || k == "StarTrace") { double r = g.uni(10, 14); V c = circ(m, r, g.uni(0, 6.28), 0, g.sgn()); double tilt = g.uni(-0.02, 0.02);
    V vel = {g.uni(-0.02, 0.02), c[6]/c[4] + tilt/(sph ? r : 1), c[7]/c[4]}; if (!sph) vel = {c[5]/c[4], c[6]/c[4], tilt};
    Astrobj::Star *st = dynamic_cast<Astrobj::Star *>((Astrobj::Generic *)o); d << " init r=" << r << " phi=" << c[3] << " v=" << vel[0] << ',' << vel[1] << ',' << vel[2]; st->setInitCoord(&c[0], &vel[0]);
    s("Radius", g.uni(1.5, 4)); uniform(); s("RMax", 40); if (g.chance(1, 3)) s("DeltaMaxOverDistance", g.uni(0.05, 0.3));
    if (k == "InflateStar") { s("TimeInflateInit", -20, "geometrical_time")("TimeInflateStop", 20, "geometrical_time"); s("RadiusStop", g.uni(1, 4)); }
    if (k == "StarTrace") { s("TMin", g.uni(-60, -5)); s("TMax", g.uni(0, 40)); } }
  else if (k == "FreeStar") { double r = g.uni(8, 14); s.v("InitPosition", V{0, r, M_PI/2, g.uni(0, 6.28)}); s.v("InitVelocity", V{g.uni(-0.05, 0.05), 0, g.uni(-0.3, 0.3)/r}); s("Radius", g.uni(1.5, 4)); uniform(); s("RMax", 40); }
  else if (k == "Torus") { s("LargeRadius", g.uni(6, 11))("SmallRadius", g.uni(0.8, 3)); o->set("Spectrum", Value(spectrum(g, d))); o->set("Opacity", Value(spectrum(g, d, true))); thinness(); s("RMax", 40); }
  else if (k == "DeformedTorus") { s("LargeRadius", g.uni(8, 12))("Beta", g.uni(0.1, 0.3))("BetaSt", g.uni(0.05, 0.2))("Eta", g.uni(0.01, 0.2)); s.l("Mode", g.below(3)); s.s("PerturbKind", g.pick(std::vector<std::string>{"RadialTranslation", "VerticalTranslation", "Rotation", "Expansion", "RadialShear", "VerticalShear", "PureShear"})); o->set("Spectrum", Value(spectrum(g, d))); s("RMax", 30); }
  else if (k == "OscilTorus") { s("LargeRadius", g.uni(9, 14))("PolyCst", g.logu(1e-4, 2e-3))("PolyIndex", 1.5)("CentralDensity", 1.); s.l("Mode", g.below(3)); s.s("PerturbKind", g.pick(std::vector<std::string>{"Radial", "Vertical", "X", "Plus", "Breathing"})); s("PerturbIntens", g.uni(0, 0.3)); s("RMax", 40); s("SafetyValue", 30); }
  else if (k == "PolishDoughnut") { double a = 0; try { a = m->get("Spin"); } catch (Gyoto::Error const &) {} if (g.flip() || m->kind() != "KerrBL" || a != 0) s("Lambda", g.uni(0.3, 0.8)); else s.v("AngMomRinner", V{4., 8.});
    s("CentralEnthalpyPerUnitVolume", g.logu(1e-3, 1), "J.m-3")("CentralTemperature", g.logu(1e9, 1e11))("Beta", g.uni(1, 20)); s.b("AngleAveraged", true); if (g.flip()) s.b("Bremsstrahlung", true); if (g.chance(1, 3)) s("MagnetizationParameter", g.logu(1e-3, 1)); thin = true; thinness(); s("RMax", 60); s.z("SpectralOversampling", 2 + g.below(4)); }
  else if (k == "EquatorialHotSpot") { double r = g.uni(9, 13); V c = circ(m, r, g.uni(0, 6.28), 0); V vel = {c[5]/c[4], c[6]/c[4], c[7]/c[4]}; d << " init r=" << r << " phi=" << c[3]; dynamic_cast<Worldline *>((Astrobj::Generic *)o)->setInitCoord(&c[0], &vel[0]); s("SpotRadSize", g.uni(1, 4)); s.s("BeamingKind", g.pick(sph ? std::vector<std::string>{"IsotropicBeaming", "NormalBeaming", "RadialBeaming", "IsotropicConstant"} : std::vector<std::string>{"IsotropicBeaming", "IsotropicConstant"})); s("BeamAngle", g.uni(0.1, 1)); s("InnerRadius", g.uni(3, 5)); s("OuterRadius", 30); thinness(); s("RMax", 30); }
  else if (k == "ThickDisk") { s.b("UseSelfAbsorption", g.flip()); s("ThickDiskInnerRadius", g.uni(2.2, 5))("ThickDiskZGaussianSigma", g.uni(0.1, 0.5)).v("VeloParam", V{g.uni(0.2, 1), g.uni(0.2, 1)})("NumberDensityAtInnerRadius", g.logu(1e5, 1e7), "cm-3")("TemperatureAtInnerRadius", g.logu(1e10, 1e11))("TemperatureSlope", g.uni(0.5, 1.5))("MagnetizationParameter", g.logu(0.01, 1))("RMax", 20)("DeltaInObj", 0.5); thin = true; }
  else if (k == "SphericalAccretion") { s.b("UseSelfAbsorption", g.flip()); s("SphericalAccretionInnerRadius", g.uni(2.2, 4))("DensitySlope", g.uni(1, 2.5))("NumberDensityAtInnerRadius", g.logu(1e5, 1e7), "cm-3")("TemperatureAtInnerRadius", g.logu(1e10, 1e11))("TemperatureSlope", g.uni(0.5, 1.5))("MagnetizationParameter", g.logu(0.01, 1))("RMax", 20)("DeltaInObj", 0.5); thin = true; }
  else if (k == "Jet") { s.b("Parabolic", false); double oa = g.uni(0.3, 0.9); s("JetOuterOpeningAngle", oa)("JetInnerOpeningAngle", oa*g.uni(0.2, 0.9))("JetInnerRadius", g.uni(2, 4))("GammaJet", g.uni(1.05, 1.8))("JetVphiOverVr", g.flip() ? 0. : g.uni(0, 0.3))("BaseNumberDensity", g.logu(1e5, 1e8), "cm-3")("BaseTemperature", g.logu(1e10, 1e11))("TemperatureSlope", g.uni(0.1, 0.5))("MagnetizationParameter", g.logu(0.01, 1)); s("RMax", 25)("DeltaInObj", 0.5); thin = true; }
  else if (k == "Blob") { double r = g.uni(7, 12); V p = {0, r, M_PI/2, g.uni(0, 6.28)}; s.s("BlobMotionType", "Equatorial"); s.v("Init4Coord", p); s.v("Init3Velo", V{0, 0, g.sgn()*pow(r, -1.5)}); s("Radius", g.uni(2, 4))("NumberDensity", g.logu(1e5, 1e8), "cm-3")("Temperature", g.logu(1e10, 1e11))("TimeRef", 0., "geometrical_time")("TimeSigma", g.uni(10, 100), "geometrical_time")("MagnetizationParameter", g.logu(0.01, 1)); s.s("ElectronDistribution", g.flip() ? "Thermal" : "PL"); s("KappaIndex", g.uni(3.2, 5)); if (g.flip()) s.b("TimeGaussianModulated", true); if (g.flip()) s.b("SpaceGaussianModulated", true); s("RMax", 30)("DeltaMaxInsideRMax", 0.5); thin = true; thinness(); }
  else if (k == "ThinDiskProfile") { s.v("Model_param", V{g.uni(-3, 3), g.uni(2, 6), g.uni(0.5, 3)}); s.s("MotionKind", g.pick(std::vector<std::string>{"Circular", "Radial", "Mixed"})); s("InnerRadius", g.uni(2.5, 6))("OuterRadius", g.uni(15, 30)); s("RMax", 40); }
  else if (k == "StochasticThinDisk") { V p(10); for (auto &x : p) x = g.uni(0.5, 2); s.v("Model_param", p); s("InnerRadius", g.uni(6, 8))("OuterRadius", g.uni(15, 30)); s("RMax", 40); }
  else if (k == "ThinDiskIronLine") { s("PowerLawIndex", g.uni(-4, -1))("LineFreq", g.logu(1e16, 1e18), "Hz")("CutRadius", g.uni(2, 8)); S_.fobs = double(o->get("LineFreq", "Hz"))*g.uni(0.75, 1); s("InnerRadius", g.uni(6.1, 7))("OuterRadius", g.uni(15, 30)); s("RMax", 40); }
  else if (k == "PageThorneDisk") { s("Mdot", g.chance(1, 3) ? g.logu(1e-3, 1e3) : g.logu(1e14, 1e27)); // (realistic accretion rates are needed for a visible spectrum)
    s("OuterRadius", g.uni(15, 30)); if (g.chance(1, 3)) s.b("UniFlux", true); s("RMax", 40); }
  else if (k == "ThinDiskPL") { s("Slope", g.uni(-1, 0))("Tinner", g.logu(1e4, 1e8)); s("InnerRadius", g.uni(4, 8))("OuterRadius", g.uni(15, 30)); thinness(); s("RMax", 40); }
  else if (k == "ThinDisk") { s("InnerRadius", g.uni(4, 8))("OuterRadius", g.uni(15, 30))("Thickness", g.uni(0.1, 2)); s.b("CoRotating", g.flip()); s.s("VelocityKind", g.flip() ? "Keplerian" : "ZAMO"); thinness(); s("RMax", 40); }
  else if (k == "PatternDisk" || k == "PatternDiskBB" || k == "DirectionalDisk") {
    s("InnerRadius", g.uni(4, 8))("OuterRadius", g.uni(15, 30)); s("RMax", 40);
    size_t nnu = 1, nphi = 1 + g.below(5), nr = 2 + g.below(5); 
    { Astrobj::PatternDisk *p = dynamic_cast<Astrobj::PatternDisk *>((Astrobj::Generic *)o); size_t n[3] = {nnu, nphi, nr}; V em(nnu*nphi*nr); for (auto &x : em) x = g.logu(k == "PatternDiskBB" ? 1e4 : 0.1, k == "PatternDiskBB" ? 1e6 : 10); p->nu0(g.logu(1e16, 1e18)); p->dnu(g.logu(1e15, 1e16)); if (g.flip()) s("PatternVelocity", g.uni(0, 0.05)); d << " grid " << nnu << 'x' << nphi << 'x' << nr; p->copyIntensity(&em[0], n); if (k == "PatternDisk" && g.flip()) { V op(nnu*nphi*nr); for (auto &x : op) x = g.logu(0.01, 10); p->copyOpacity(&op[0], n); thinness(); } } }
  else if (k == "Disk3D") { Astrobj::Disk3D *p = dynamic_cast<Astrobj::Disk3D *>((Astrobj::Generic *)o); size_t n[4] = {1, 2 + g.below(4), 2 + g.below(3), 2 + g.below(4)}; V em(n[0]*n[1]*n[2]*n[3]); for (auto &x : em) x = g.logu(0.1, 10); p->rin(g.uni(4, 7)); p->rout(g.uni(12, 20)); p->zmin(-g.uni(1, 4)); p->zmax(g.uni(1, 4)); p->nu0(1e17); p->dnu(1e16); p->repeatPhi(1); p->copyEmissquant(&em[0], n); V vel(3*n[1]*n[2]*n[3]); for (size_t i = 0; i < vel.size(); i += 3) { vel[i] = 0.03; vel[i+1] = 0; vel[i+2] = 0; } p->copyVelocity(&vel[0], n + 1); d << " grid " << n[0] << 'x' << n[1] << 'x' << n[2] << 'x' << n[3]; s("RMax", 40); thin = true; thinness(); }
  else if (k == "Complex") { Astrobj::Complex *p = dynamic_cast<Astrobj::Complex *>((Astrobj::Generic *)o); int n = 1 + g.below(3); std::vector<std::string> ks = {"FixedStar", "Torus", "ThinDiskPL", "ThinDisk", "Star"}; for (int i = 0; i < n; ++i) { p->append(astrobj(g, depth < 1 && g.chance(1, 6) ? "Complex" : g.pick(ks), m, S_, depth + 1)); } s("RMax", 40); }
  if (depth == 0) S_.thin = thin;
  return o;
}
inline bool compatible(std::string a, std::string m) {
  if (m == "KerrBL") return true;
  static std::set<std::string> bl = {"DeformedTorus", "OscilTorus", "PolishDoughnut", "ThickDisk", "Jet", "Blob", "ThinDiskProfile", "StochasticThinDisk", "SphericalAccretion", "FreeStar"};
  if (bl.count(a)) return false;
  if (a == "PageThorneDisk") return m == "KerrKS";
  if (a == "Disk3D") return m == "MinkowskiSph" || m == "ReissnerNordstrom";
  return true;
}
inline std::vector<std::string> const &mkinds() { static std::vector<std::string> k = {"KerrBL", "KerrKS", "MinkowskiSph", "Minkowski", "ReissnerNordstrom", "Hayward", "RezzollaZhidenko", "KonoplyaRezzollaZhidenko"}; return k; }
inline void camera(pbt::Gen &g, S &s, size_t npix) {
  s.scr = new Screen(); s.scr->metric(s.met); Set q(s.scr, s.d); s.d << "; screen"; double dist = g.pickd({100, 300, 1000});
  q("Distance", dist, "geometrical"); q("Time", dist + g.uni(-5, 5), "geometrical_time"); q("Inclination", g.uni(0.1, 3.0)); q("PALN", g.uni(0, 6.28)); q("Argument", g.uni(-3, 3)); q("FieldOfView", 2*s.rsize/dist*g.uni(0.7, 1.2)); q.z("Resolution", npix); q("FreqObs", s.fobs ? s.fobs : g.logu(1e16, 1e18));
}
inline void spectro(pbt::Gen &g, S &s, size_t nmax = 4) {
  std::string k = g.pick(std::vector<std::string>{"freq", "wave", "freqlog", "wavelog"}); SmartPointer<Spectrometer::Generic> sp = gy::spectrometer(k); Set q(sp, s.d); s.d << "; spectro " << k; q.s("Kind", k); s.nnu = 1 + g.below(nmax); q.z("NSamples", s.nnu); double lo = 16 + g.uni(0, 1), hi = lo + g.uni(0.1, 1); bool wave = k.substr(0, 4) == "wave", lg = k.find("log") != std::string::npos; // Band: in Hz/m or their log10
  V b = {lo, hi}; if (wave) b = {log10(299792458.) - hi, log10(299792458.) - lo}; if (!lg) b = {pow(10, b[0]), pow(10, b[1])}; q.v("Band", b); s.scr->spectrometer(sp);
}
typedef std::shared_ptr<S> P;
inline P make(pbt::Gen &g, size_t npix = 6, std::string akind = "", std::string mkind = "") {
  P ps(new S); S &s = *ps; s.akind = akind.size() ? akind : g.pick(akinds());
  if (mkind.size()) s.mkind = mkind; else { std::vector<std::string> ok; for (auto &m : mkinds()) if (compatible(s.akind, m)) ok.push_back(m); s.mkind = g.flip() ? ok[0] : g.pick(ok); }
  s.met = metric(g, s.mkind, s.d); s.obj = astrobj(g, s.akind, s.met, s); camera(g, s, npix); spectro(g, s, s.akind == "ThinDiskProfile" || s.akind == "StochasticThinDisk" ? 1 : 4);
  s.sc = new Scenery(); s.sc->metric(s.met); s.sc->screen(s.scr); s.sc->astrobj(s.obj); s.sc->nThreads(0); s.sc->set("MinimumTime", Value(-3e3)); return ps;
}
// an image: all quantities of n cells; mask of quantities (bit per name)
enum { QI = 1, QT = 2, QD = 4, QF = 8, QR = 16, QN = 32, QC = 64, QS = 128, QB = 256, QU = 512, QSQ = 1024, QSU = 2048, QSV = 4096, QALL = QI|QT|QD|QF|QR|QN|QC|QS|QB|QU };
inline char const *qname(int q) { switch (q) { case QI: return "Intensity"; case QT: return "EmissionTime"; case QD: return "MinDistance"; case QF: return "FirstDistMin"; case QR: return "Redshift"; case QN: return "NbCrossEqPlane"; case QC: return "ImpactCoords"; case QS: return "Spectrum"; case QB: return "BinSpectrum"; case QU: return "User4"; case QSQ: return "SpectrumStokesQ"; case QSU: return "SpectrumStokesU"; case QSV: return "SpectrumStokesV"; } return "?"; }
struct Img {
  size_t n, nnu; int q; std::map<int, V> d; Astrobj::Properties p;
  static size_t width(int k, size_t nnu) { return k == QC ? 16 : k == QS || k == QB || k >= QSQ ? nnu : 1; }
  Img(size_t n_, size_t nnu_, int q_, double fill = -77) : n(n_), nnu(nnu_), q(q_) {
    for (int k = 1; k <= QSV; k <<= 1) if (q & k) d[k].assign(std::max<size_t>(1, n*width(k, nnu)), fill);
    auto a = [&](int k) -> double * { return q & k ? &d[k][0] : (double *)NULL; };
    p.intensity = a(QI); p.time = a(QT); p.distance = a(QD); p.first_dmin = a(QF); p.redshift = a(QR); p.nbcrosseqplane = a(QN); p.impactcoords = a(QC); p.user4 = a(QU);
    if (nnu) { p.spectrum = a(QS); p.binspectrum = a(QB); p.stokesQ = a(QSQ); p.stokesU = a(QSU); p.stokesV = a(QSV); } p.offset = int(n);
  }
  Img(Img const &) = delete;
  V cell(int k, size_t i) const { V const &v = d.at(k); size_t w = width(k, nnu); V r(w); for (size_t c = 0; c < w; ++c) r[c] = k == QC ? v[16*i + c] : v[i + c*n]; return r; }
  bool hit(size_t i) const { if ((q & QC) && d.at(QC)[16*i] != DBL_MAX) return true; for (int k : {QI, QS, QU}) if (q & k) for (double x : cell(k, i)) if (x != 0) return true; return false; }
};
}
#endif
