// W02: spectrometers.
#include "gy.h"
#include "GyotoUniformSpectrometer.h"
#include "GyotoComplexSpectrometer.h"
#include "GyotoConverters.h"
#include "GyotoScreen.h"
#include "GyotoFactory.h"
#include "GyotoFactoryMessenger.h"
using namespace Gyoto;
typedef SmartPointer<Spectrometer::Generic> SG;
static double const CS = 299792458., EV = 1.602176634e-19/6.62607015e-34;
struct Mod { bool complex = false; int kind = 2; double b0 = 0, b1 = 0; size_t n = 0; std::vector<std::shared_ptr<Mod>> el; }; // kind: 0 freq 1 freqlog 2 wave 3 wavelog
typedef std::shared_ptr<Mod> MP;
static char const *KN[] = {"freq", "freqlog", "wave", "wavelog"};
struct Ref { std::vector<double> b, m, w; std::vector<size_t> i; };
static void ref(Mod const &m, Ref &r) {
  if (m.complex) { for (auto &e : m.el) ref(*e, r); return; }
  size_t off = r.b.size(); if (!m.n) return; for (size_t i = 0; i <= m.n; ++i) { double x = m.b0 + (m.b1 - m.b0)*i/m.n; if (m.kind & 1) x = pow(10, x); if (m.kind >= 2) x = x ? CS/x : DBL_MAX; r.b.push_back(x); }
  for (size_t i = 0; i < m.n; ++i) { double a = r.b[off + i], b = r.b[off + i + 1]; r.m.push_back(a/2 + b/2); r.w.push_back(fabs(b - a)); r.i.push_back(off + i); r.i.push_back(off + i + 1); }
}
static double from(double nu, std::string const &u) { return u == "Hz" || u == "" ? nu : u == "GHz" ? nu/1e9 : u == "m" ? CS/nu : u == "nm" ? CS/nu*1e9 : u == "eV" ? nu/EV : NAN; }
static bool nr(double a, double b, double t) { return a == b || fabs(a - b) <= t*std::max(fabs(a), fabs(b)); }
static void verify(pbt::Ctx &c, Spectrometer::Generic const &s, Mod const &m, std::string const &k, std::string const &u) {
  Ref r; ref(m, r); size_t n = r.m.size(); std::string t;
  c.check(s.nSamples() == n, k + "/nsamples", "number of channels " + std::to_string(s.nSamples()) + ", expected " + std::to_string(n)); if (!n) return;
  c.check(s.getNBoundaries() == r.b.size(), k + "/nboundaries", "number of boundaries " + std::to_string(s.getNBoundaries()) + ", expected " + std::to_string(r.b.size()));
  auto B = s.channelBoundaries(), M = s.midpoints(), W = s.widths(), BU = s.channelBoundaries(u), MU = s.midpoints(u), WU = s.widths(u); auto I = s.channelIndices(); double ut = u == "eV" ? 1e-5 : 1e-12;
  c.check(B.size() == r.b.size() && M.size() == n && W.size() == n && I.size() == 2*n && BU.size() == B.size() && MU.size() == n && WU.size() == n, k + "/sizes", "sizes of the arrays");
  double wm = 0; for (double x : r.b) if (x < 1e300) wm = std::max(wm, x);
  for (size_t i = 0; i < r.b.size(); ++i) { c.check(nr(B[i], r.b[i], 1e-11), k + "/boundaries", "boundary " + std::to_string(i) + " = " + gy::num(B[i]) + ", expected " + gy::num(r.b[i])); c.check(nr(BU[i], from(r.b[i], u), 1e-11 + ut), k + "/boundaries-unit", "boundary in " + u + " " + gy::num(BU[i]) + ", expected " + gy::num(from(r.b[i], u))); }
  for (size_t i = 0; i < n; ++i) {
    c.check(nr(M[i], r.m[i], 1e-11), k + "/midpoints", "midpoint " + std::to_string(i) + " = " + gy::num(M[i]) + ", expected " + gy::num(r.m[i])); c.check(nr(MU[i], from(r.m[i], u), 1e-11 + ut), k + "/midpoints-unit", "midpoint in " + u);
    double big = std::max(r.b[r.i[2*i]], r.b[r.i[2*i + 1]]); c.check(fabs(W[i] - r.w[i]) <= 1e-11*big, k + "/widths", "width " + std::to_string(i) + " = " + gy::num(W[i]) + ", expected " + gy::num(r.w[i]));
    double x = from(r.b[r.i[2*i]], u), y = from(r.b[r.i[2*i + 1]], u); c.check(fabs(WU[i] - fabs(x - y)) <= (1e-11 + ut)*std::max(fabs(x), fabs(y)), k + "/widths-unit", "width in " + u + " = " + gy::num(WU[i]) + ", expected " + gy::num(fabs(x - y)));
    c.check(I[2*i] == r.i[2*i] && I[2*i + 1] == r.i[2*i + 1], k + "/indices", "boundary indices of channel " + std::to_string(i) + " are " + std::to_string(I[2*i]) + " and " + std::to_string(I[2*i + 1]) + ", expected " + std::to_string(r.i[2*i]) + " and " + std::to_string(r.i[2*i + 1]));
    c.check(s.getMidpoints()[i] == M[i] && s.getWidths()[i] == W[i] && s.getChannelIndices()[i] == I[i], k + "/raw", "pointer and vector accessors differ");
  }
}
static void band(pbt::Gen &g, Mod &m, Spectrometer::Uniform &s, std::ostream &o) {
  int how = g.below(3); double f1 = g.logu(1e8, 1e20), f2 = g.chance(1, 8) ? f1 : f1*g.logu(0.1, 10); bool lg = m.kind & 1, wv = m.kind >= 2; double a = wv ? CS/f1 : f1, b = wv ? CS/f2 : f2; std::string u = how == 0 ? "" : wv ? g.pick(std::vector<std::string>{"m", "nm", "", "mm"}) : g.pick(std::vector<std::string>{"Hz", "GHz", "", "kHz"}); double f = u == "nm" ? 1e-9 : u == "mm" ? 1e-3 : u == "GHz" ? 1e9 : u == "kHz" ? 1e3 : 1;
  double va = a/f, vb = b/f; if (lg) { va = log10(va); vb = log10(vb); } m.b0 = lg ? log10(a) : a; m.b1 = lg ? log10(b) : b; o << " band " << va << ' ' << vb << ' ' << u;
  double v[2] = {va, vb}; if (how == 0) { if (g.flip()) s.band(v); else s.band(std::vector<double>{va, vb}); } else if (how == 1) s.band(std::vector<double>{va, vb}, u); else s.band(v, u, KN[m.kind]);
}
PBT_SUB(histories, 6000, 300000, "history of kind / band (with units) / channels / append / remove / clone / write-and-read / destroy on uniform and composite spectrometers; non-trivial: some channels") {
  struct It { SG s; MP m; }; std::vector<std::shared_ptr<It>> v; auto add = [&](It const &x) { v.push_back(std::make_shared<It>(x)); }; static std::vector<std::string> units = {"Hz", "GHz", "m", "nm", "eV", ""}; int n = g.range(2, 25);
  auto chk = [&](char const *op) { for (auto &xp : v) { It &x = *xp; verify(c, *x.s, *x.m, op, g.pick(units)); if (!x.m->complex && x.m->n) { auto const *u = dynamic_cast<Spectrometer::Uniform const *>(&*x.s); auto b = u->band(); c.check(nr(b[0], x.m->b0, 1e-11) && nr(b[1], x.m->b1, 1e-11) && u->getBand()[0] == b[0] && u->getBand()[1] == b[1], std::string(op) + "/band", "band"); c.check(u->kind() == KN[x.m->kind] && std::string(u->kindid()) == KN[x.m->kind], std::string(op) + "/kind", "kind " + u->kind()); } } };
  while (n--) {
    int op = v.empty() ? 0 : g.below(11);
    if (op <= 1) { It x; x.m.reset(new Mod); Spectrometer::Uniform *u; int how = g.below(3); x.m->kind = g.below(4);
      if (how == 0) { double f1 = g.logu(1e8, 1e20), f2 = f1*g.logu(0.1, 10); if (x.m->kind >= 2) { f1 = CS/f1; f2 = CS/f2; } if (x.m->kind & 1) { f1 = log10(f1); f2 = log10(f2); } static char const *const K[] = {Spectrometer::Uniform::FreqKind, Spectrometer::Uniform::FreqLogKind, Spectrometer::Uniform::WaveKind, Spectrometer::Uniform::WaveLogKind}; x.m->b0 = f1; x.m->b1 = f2; x.m->n = g.range(1, 5); u = new Spectrometer::Uniform(x.m->n, f1, f2, K[x.m->kind]); c.note << " ; new(" << x.m->n << ',' << f1 << ',' << f2 << ',' << KN[x.m->kind] << ')'; x.s = u; }
      else { u = new Spectrometer::Uniform(); x.s = u; c.note << " ; new " << KN[x.m->kind]; std::vector<int> todo = {0, 1}; if (g.flip()) std::swap(todo[0], todo[1]); bool k = g.flip(); if (k) u->kind(KN[x.m->kind]); else { x.m->kind = 2; } for (int t : todo) if (t == 0) band(g, *x.m, *u, c.note); else { u->nSamples(x.m->n = g.range(1, 5)); c.note << " n " << x.m->n; } }
      add(x); }
    else if (op == 2) { It x; x.m.reset(new Mod); x.m->complex = true; x.s = new Spectrometer::Complex(); c.note << " ; complex"; add(x); }
    else {
      size_t i = g.below(v.size()); It x = *v[i]; 
      if (op == 3 || op == 4) { // append to a composite
        size_t j = 0; bool f = false; for (; j < v.size(); ++j) if (v[j]->m->complex) { f = true; break; } if (!f || i == j || x.m->complex) continue; bool has = false; for (auto &y : v) if (y->m->complex) for (auto &e : y->m->el) if (e == x.m) has = true; if (has) continue; dynamic_cast<Spectrometer::Complex *>(&*v[j]->s)->append(x.s); v[j]->m->el.push_back(x.m); c.note << " ; append #" << i << " to #" << j; }
      else if (op == 5) { if (!x.m->complex || x.m->el.empty()) continue; size_t e = g.below(x.m->el.size()); dynamic_cast<Spectrometer::Complex *>(&*x.s)->remove(e); x.m->el.erase(x.m->el.begin() + e); c.note << " ; remove element " << e << " of #" << i; }
      else if (op == 6) { It y; y.s = x.s->clone(); y.m.reset(new Mod(*x.m)); for (auto &e : y.m->el) e.reset(new Mod(*e)); c.note << " ; clone #" << i; if (y.m->complex) { auto *cc = dynamic_cast<Spectrometer::Complex *>(&*y.s); c.check(cc->getCardinal() == y.m->el.size(), "clone/cardinal", "cardinal of the clone"); for (size_t e = 0; e < y.m->el.size(); ++e) { It z; z.s = (*cc)[e]; z.m = y.m->el[e]; add(z); } } add(y); }
      else if (op == 7) { c.note << " ; destroy #" << i; v.erase(v.begin() + i); }
      else if (op == 8) { if (x.m->complex && x.m->el.empty()) continue; if (!x.m->complex && !x.m->n) continue; SmartPointer<Screen> sc = new Screen(); sc->spectrometer(x.s); std::string doc = Factory(sc).format(); std::vector<char> buf(doc.begin(), doc.end()); buf.push_back(0); SmartPointer<Screen> back = Factory(&buf[0]).screen(); c.note << " ; write and read #" << i; Mod q = *x.m; verify(c, *back->spectrometer(), q, "readback", "Hz"); c.check(sc->spectrometer()() == x.s(), "readback/screen", "screen"); }
      else { if (x.m->complex) continue; auto *u = dynamic_cast<Spectrometer::Uniform *>(&*x.s); c.note << " ; #" << i; int w = g.below(3); if (w == 0) band(g, *x.m, *u, c.note); else if (w == 1) { u->nSamples(x.m->n = g.range(g.chance(1, 5) ? 0 : 1, 6)); c.note << " n " << x.m->n; } else { int k = x.m->kind ^ 2; /* same log-ness */ u->kind(KN[k]); x.m->kind = k; c.note << " kind " << KN[k]; band(g, *x.m, *u, c.note); } }
    }
    chk("history"); for (auto &x : v) if (x->s->nSamples()) c.nontrivial = true;
  }
  bool thr = false; try { Spectrometer::Uniform u; u.kind("nosuch"); } catch (Gyoto::Error const &) { thr = true; } c.check(thr, "kind/unknown", "unknown kind accepted"); thr = false; try { Spectrometer::Complex u; u.remove(0); } catch (Gyoto::Error const &) { thr = true; } c.check(thr, "remove/empty", "removal from an empty composite accepted");
  SmartPointer<Spectrometer::Complex> k = new Spectrometer::Complex(); k->append(new Spectrometer::Uniform(2, 1e9, 2e9, Spectrometer::Uniform::FreqKind)); thr = false; try { SG z = (*k)[1]; } catch (Gyoto::Error const &) { thr = true; } c.check(thr, "element/range", "element out of range accepted");
}
GY_MAIN
