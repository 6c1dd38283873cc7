// Minimal property-based testing engine (choice-sequence based, in the manner
// of Hypothesis): every random decision of a case is drawn from Gen, recorded
// as one integer, and a failing case is shrunk by editing that sequence and
// replaying it.  A case is a pure function of (code, choice sequence).
#ifndef PBT_H
#define PBT_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <iomanip>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace pbt {

inline uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t hstr(std::string const &s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

// choices of the running case, mirrored in shared memory so that they survive
// the death of the process
enum { RECCAP = 1 << 16 };
inline uint64_t *&recmap() { static uint64_t *m = nullptr; return m; }

class Gen {
 public:
  std::vector<uint64_t> rec;
  explicit Gen(uint64_t seed) : replay_(false), s_(mix(seed)), pos_(0) {}
  explicit Gen(std::vector<uint64_t> const &r) : replay_(true), src_(r), s_(0), pos_(0) {}
  // integer in [0,n)
  uint64_t below(uint64_t n) {
    uint64_t v;
    if (n <= 1) n = 1;
    if (replay_) { v = pos_ < src_.size() ? src_[pos_] : 0; ++pos_; if (v >= n) v %= n; }
    else { s_ = mix(s_ + 0x632BE59BD9B4E019ull); v = s_ % n; }
    rec.push_back(v);
    if (uint64_t *m = recmap()) if (m[0] + 1 < RECCAP) { m[m[0] + 1] = v; ++m[0]; }
    return v;
  }
  long range(long lo, long hi) { return lo + long(below(uint64_t(hi - lo) + 1)); }  // inclusive
  bool flip() { return below(2); }
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // shrinks to false
  // double in [lo,hi], uniform on a 2^40 grid; shrinks to lo
  double uni(double lo, double hi) {
    uint64_t k = below((uint64_t(1) << 40) + 1);
    return lo + (hi - lo) * (double(k) / double(uint64_t(1) << 40));
  }
  double logu(double lo, double hi) { return std::exp(uni(std::log(lo), std::log(hi))); }
  double sgn() { return flip() ? -1. : 1.; }
  template <class T> T const &pick(std::vector<T> const &v) { return v[below(v.size())]; }
  double pickd(std::initializer_list<double> l) { std::vector<double> v(l); return pick(v); }
 private:
  bool replay_;
  std::vector<uint64_t> src_;
  uint64_t s_;
  size_t pos_;
};

struct Failure { std::string sig, msg; };
struct Discard {};

class Ctx {
 public:
  bool nontrivial = false;
  std::vector<std::string> labels;
  std::ostringstream note;           // human description of the generated case
  std::vector<std::pair<std::string,std::string>> known; // suppressed failures seen
  std::set<std::string> const *suppressed = nullptr;
  void label(std::string const &s) { labels.push_back(s); }
  void fail(std::string const &sig, std::string const &msg) {
    if (suppressed && suppressed->count(sig)) { known.push_back({sig, msg}); return; }
    throw Failure{sig, msg};
  }
  void check(bool ok, std::string const &sig, std::string const &msg) { if (!ok) fail(sig, msg); }
  // |a-b| <= atol + rtol*max(|a|,|b|)
  void close(double a, double b, double rtol, double atol, std::string const &sig,
             std::string const &what) {
    double d = std::fabs(a - b), m = std::max(std::fabs(a), std::fabs(b));
    if (a == b) return;
    if (d <= atol + rtol * m) return;
    std::ostringstream s; s << std::setprecision(17) << what << ": got " << a << ", expected " << b
      << " (diff " << d << ", allowed " << atol + rtol * m << ")";
    fail(sig, s.str());
  }
};

struct Sub {
  std::string name;
  std::function<void(Gen &, Ctx &)> fn;
  long nquick, nthorough;
  std::string rule;
  double cpu_limit;    // CPU seconds per case
};

inline std::vector<Sub> &subs() { static std::vector<Sub> s; return s; }
struct Reg {
  Reg(std::string n, std::function<void(Gen &, Ctx &)> f, long q, long t, std::string rule, double cpu = 60.) {
    subs().push_back({n, f, q, t, rule, cpu});
  }
};
#define PBT_SUB(ident, nq, nt, rule) \
  static void ident(pbt::Gen &g, pbt::Ctx &c); \
  static pbt::Reg reg_##ident(#ident, ident, nq, nt, rule); \
  static void ident(pbt::Gen &g, pbt::Ctx &c)

inline std::string jesc(std::string const &s) {
  std::ostringstream o; o << '"';
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') o << '\\' << ch;
    else if (ch == '\n') o << "\\n";
    else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o << b; }
    else o << ch;
  }
  o << '"'; return o.str();
}

struct Outcome { int kind; std::string sig, msg, note; bool nontrivial; std::vector<std::string> labels;
  std::vector<std::pair<std::string,std::string>> known; std::vector<uint64_t> rec; };
enum { OK = 0, FAILED = 1, DISCARDED = 2 };

// translate foreign exceptions; the driver sets this (Gyoto::Error)
inline std::function<std::string()> &exception_text() { static std::function<std::string()> f; return f; }

inline Outcome run_case(Sub const &s, Gen &g, std::set<std::string> const *suppressed) {
  Outcome o; Ctx c; c.suppressed = suppressed; o.kind = OK;
  try {
    try { s.fn(g, c); }
    catch (Failure &) { throw; }
    catch (Discard &) { throw; }
    catch (...) {
      std::string t = exception_text() ? exception_text()() : std::string("exception");
      c.fail(s.name + "/unexpected-error", "unexpected error: " + t);
    }
  }
  catch (Failure &f) { o.kind = FAILED; o.sig = f.sig; o.msg = f.msg; }
  catch (Discard &) { o.kind = DISCARDED; }
  o.note = c.note.str(); o.nontrivial = c.nontrivial; o.labels = c.labels; o.known = c.known; o.rec = g.rec;
  return o;
}

struct Shared { volatile long sub, idx; };

inline void arm(double cpu) {
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = long(cpu); it.it_value.tv_usec = long((cpu - long(cpu)) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
}

// Run a choice sequence in a forked child (needed for crashes and for a clean
// process state).  Returns kind; fills sig/msg.
inline int run_forked(Sub const &s, std::vector<uint64_t> const *choices, uint64_t seed,
                      std::set<std::string> const *sup, std::string &sig, std::string &msg,
                      std::string &note, std::vector<uint64_t> &rec) {
  int fd[2]; if (pipe(fd)) exit(3);
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    close(fd[0]);
    arm(s.cpu_limit);
    Gen g = choices ? Gen(*choices) : Gen(seed);
    Outcome o = run_case(s, g, sup);
    arm(0);
    std::ostringstream b;
    b << o.kind << '\n' << o.rec.size();
    for (auto v : o.rec) b << ' ' << v;
    b << '\n' << o.sig.size() << '\n' << o.sig << o.msg.size() << '\n' << o.msg << o.note.size() << '\n' << o.note;
    std::string t = b.str();
    size_t off = 0; while (off < t.size()) { ssize_t k = write(fd[1], t.data() + off, t.size() - off); if (k <= 0) break; off += k; }
    close(fd[1]);
    _exit(0);
  }
  close(fd[1]);
  std::string t; char buf[4096]; ssize_t k;
  while ((k = read(fd[0], buf, sizeof buf)) > 0) t.append(buf, k);
  close(fd[0]);
  int st; waitpid(p, &st, 0);
  if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) {
    std::ostringstream m;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) { sig = s.name + "/no-termination"; m << "did not finish within " << s.cpu_limit << " CPU seconds"; }
    else if (WIFSIGNALED(st)) { sig = s.name + "/crash"; m << "process died with signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")"; }
    else { sig = s.name + "/crash"; m << "process aborted with status " << WEXITSTATUS(st) << " (sanitizer report or exit call)"; }
    msg = m.str();
    if (sup && sup->count(sig)) return OK;
    if (choices) rec = *choices;
    return FAILED;
  }
  std::istringstream in(t);
  int kind = 0; size_t n = 0; in >> kind >> n; rec.resize(n);
  for (auto &v : rec) in >> v;
  auto rd = [&](std::string &d) { size_t l = 0; in >> l; in.get(); d.resize(l); in.read(&d[0], l); };
  rd(sig); rd(msg); rd(note);
  return kind;
}

struct Fail { std::string sub, sig, msg, note; std::vector<uint64_t> choices; bool stable; long shrinks; };

inline void shrink(Sub const &s, Fail &f, std::set<std::string> const *sup, long budget) {
  std::vector<uint64_t> best = f.choices;
  auto attempt = [&](std::vector<uint64_t> const &c) -> bool {
    if (budget-- <= 0) return false;
    std::string sig, msg, note; std::vector<uint64_t> rec;
    int k = run_forked(s, &c, 0, sup, sig, msg, note, rec);
    if (k == FAILED && sig == f.sig) {
      // keep the normalised sequence when it is not longer
      std::vector<uint64_t> nb = rec.size() && rec.size() <= c.size() ? rec : c;
      best = nb; f.msg = msg; f.note = note; ++f.shrinks; return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && budget > 0) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && budget > 0; len /= 2) {
      for (size_t i = 0; i + len <= best.size() && budget > 0;) {
        bool allz = true; for (size_t j = i; j < i + len; ++j) if (best[j]) allz = false;
        if (!allz) { auto c = best; for (size_t j = i; j < i + len; ++j) c[j] = 0; if (attempt(c)) progress = true; }
        i += len;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.size() && budget > 0; ++i) {
      if (!best[i]) continue;
      uint64_t lo = 0, hi = best[i];
      // binary search towards small values
      for (int it = 0; it < 6 && hi - lo > 1 && budget > 0; ++it) {
        uint64_t mid = lo + (hi - lo) / 2; auto c = best; if (i >= c.size()) break; c[i] = mid;
        if (attempt(c)) { hi = mid; progress = true; if (i >= best.size()) break; } else lo = mid;
      }
    }
    if (f.shrinks > 300) break;
  }
  f.choices = best;
}

inline int main_(int argc, char **argv, std::function<void()> init) {
  uint64_t seed = 1; std::string tier = "quick", out, only, replay, supf; long workers = 8; double scale = 1; bool verbose = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--tier") tier = nx();
    else if (a == "--out") out = nx();
    else if (a == "--sub") only = nx();
    else if (a == "--workers") workers = atol(nx().c_str());
    else if (a == "--replay") replay = nx();
    else if (a == "--suppress") supf = nx();
    else if (a == "--scale") scale = atof(nx().c_str());
    else if (a == "--verbose") verbose = true;
    else if (a == "--list") { for (auto &s : subs()) std::cout << s.name << "\n"; return 0; }
  }
  std::set<std::string> sup;
  if (supf.size()) { std::ifstream f(supf); std::string l; while (std::getline(f, l)) if (l.size()) sup.insert(l); }
  init();
  if (replay.size()) {  // file: first line sub name, second line choices
    std::ifstream f(replay); std::string sn, line; std::getline(f, sn); std::getline(f, line);
    std::istringstream is(line); std::vector<uint64_t> ch; uint64_t v; while (is >> v) ch.push_back(v);
    for (auto &s : subs()) if (s.name == sn) {
      std::string sig, msg, note; std::vector<uint64_t> rec;
      int k = run_forked(s, &ch, 0, &sup, sig, msg, note, rec);
      std::cout << (k == FAILED ? "FAILED " : k == OK ? "OK " : "DISCARDED ") << sig << "\n" << msg << "\ncase: " << note << "\n";
      return k == FAILED ? 1 : 0;
    }
    std::cerr << "no such sub: " << sn << "\n"; return 3;
  }
  struct Stat { long eval = 0, disc = 0; std::set<uint64_t> nt; std::map<std::string, long> labels; std::vector<std::string> samples; };
  std::map<std::string, Stat> stats; std::vector<Fail> fails; std::map<std::string, std::pair<long, std::string>> known;
  char tmpl[] = "/tmp/pbtXXXXXX"; std::string dir = mkdtemp(tmpl);
  Shared *sh = (Shared *)mmap(0, sizeof(Shared) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<uint64_t *> maps;
  for (long w = 0; w < workers; ++w)
    maps.push_back((uint64_t *)mmap(0, RECCAP * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<Sub> todo; for (auto &s : subs()) if (only.empty() || s.name == only) todo.push_back(s);
  auto count = [&](Sub const &s) { return long(std::ceil((tier == "thorough" ? s.nthorough : s.nquick) * scale)); };
  struct W { pid_t pid; long sub, idx; };
  std::vector<W> ws(workers);
  auto launch = [&](long w) {  // (re)start worker w at ws[w].sub/idx
    fflush(nullptr); std::cout.flush();
    pid_t p = fork();
    if (p) { ws[w].pid = p; return; }
    std::ofstream log(dir + "/w" + std::to_string(w), std::ios::app);
    for (long si = ws[w].sub; si < long(todo.size()); ++si) {
      Sub const &s = todo[si]; long n = count(s); std::set<std::string> seen; long nfail = 0;
      long start = (si == ws[w].sub) ? ws[w].idx : w;
      for (long i = start; i < n; i += workers) {
        sh[w].sub = si; sh[w].idx = i;
        uint64_t cs = mix(seed * 1000003ull + hstr(s.name) + mix(uint64_t(i)));
        recmap() = maps[w]; maps[w][0] = 0;
        Gen g(cs); arm(s.cpu_limit);
        Outcome o = run_case(s, g, &sup);
        arm(0);
        uint64_t h = 7; for (auto v : o.rec) h = mix(h ^ v);
        log << "C " << si << ' ' << o.kind << ' ' << o.nontrivial << ' ' << h << ' ' << o.labels.size();
        for (auto &l : o.labels) log << ' ' << l;
        log << '\n';
        if (i < 4 * workers && o.note.size()) { std::string t = o.note; std::replace(t.begin(), t.end(), '\n', ' '); log << "S " << si << ' ' << t.substr(0, 300) << '\n'; }
        for (auto &k : o.known) { std::string t = k.second; std::replace(t.begin(), t.end(), '\n', ' '); log << "K " << si << ' ' << k.first << ' ' << t << '\n'; }
        if (o.kind == FAILED && !seen.count(o.sig)) {
          seen.insert(o.sig); ++nfail;
          std::string m = o.msg + " || case: " + o.note; std::replace(m.begin(), m.end(), '\n', ' ');
          log << "F " << si << ' ' << i << ' ' << o.sig << ' ' << o.rec.size(); for (auto v : o.rec) log << ' ' << v; log << ' ' << m << '\n';
        }
        log.flush();
        if (nfail >= 8) break;
      }
    }
    log.close();
    _exit(0);
  };
  for (long w = 0; w < workers; ++w) { ws[w].sub = 0; ws[w].idx = w; launch(w); }
  long alive = workers, crashes = 0;
  while (alive) {
    int st; pid_t p = wait(&st); if (p < 0) break;
    for (long w = 0; w < workers; ++w) if (ws[w].pid == p) {
      --alive;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
      // crash or CPU limit in a case: record it and go on after it
      long si = sh[w].sub, i = sh[w].idx; ++crashes;
      Fail f; f.sub = todo[si].name; f.shrinks = 0; f.stable = false;
      f.choices.assign(maps[w] + 1, maps[w] + 1 + maps[w][0]);
      std::string sig, msg, note; std::vector<uint64_t> rec;
      int k = run_forked(todo[si], &f.choices, 0, &sup, sig, msg, note, rec);
      if (k == FAILED) {
        f.sig = sig; f.msg = msg; f.note = note;
        bool dup = false; for (auto &x : fails) if (x.sub == f.sub && x.sig == f.sig) dup = true;
        if (!dup) fails.push_back(f);
      }
      stats[todo[si].name].eval++;
      ws[w].sub = si; ws[w].idx = i + workers;
      if (crashes < 40) { launch(w); ++alive; }
      break;
    }
  }
  for (long w = 0; w < workers; ++w) {
    std::ifstream in(dir + "/w" + std::to_string(w)); std::string line;
    while (std::getline(in, line)) {
      std::istringstream is(line); char t; long si; is >> t >> si; if (!is) continue; Stat &S = stats[todo[si].name];
      if (t == 'C') { int k, nt; uint64_t h; size_t nl; is >> k >> nt >> h >> nl; ++S.eval; if (k == DISCARDED) ++S.disc; else if (nt) S.nt.insert(h);
        for (size_t j = 0; j < nl; ++j) { std::string l; is >> l; S.labels[l]++; } }
      else if (t == 'S') { std::string r; std::getline(is, r); if (S.samples.size() < 4) S.samples.push_back(r); }
      else if (t == 'K') { std::string sg, r; is >> sg; std::getline(is, r); auto &kk = known[sg]; kk.first++; kk.second = r; }
      else if (t == 'F') { Fail f; long i; size_t n; is >> i >> f.sig >> n; f.choices.resize(n); for (auto &v : f.choices) is >> v; std::getline(is, f.msg); f.sub = todo[si].name; f.shrinks = 0; f.stable = false;
        bool dup = false; for (auto &x : fails) if (x.sub == f.sub && x.sig == f.sig) dup = true; if (!dup) fails.push_back(f); }
    }
    in.close(); unlink((dir + "/w" + std::to_string(w)).c_str());
  }
  rmdir(dir.c_str());
  // shrink and confirm 3 times in fresh processes
  long shrunk = 0;
  std::vector<Fail> confirmed, unstable;
  for (auto &f : fails) {
    if (confirmed.size() >= 6) break;
    Sub const *s = 0; for (auto &x : todo) if (x.name == f.sub) s = &x;
    std::string sig, msg, note; std::vector<uint64_t> rec;
    int okc = 0;
    if (shrunk < 3) { shrink(*s, f, &sup, f.sig.find("no-termination") != std::string::npos ? 4 : 250); ++shrunk; }
    for (int r = 0; r < 3; ++r) if (run_forked(*s, &f.choices, 0, &sup, sig, msg, note, rec) == FAILED) ++okc;
    f.stable = okc == 3; (okc == 3 ? confirmed : unstable).push_back(f);
  }
  std::ostringstream js; js << "{\"subs\":{";
  bool first = true;
  for (auto &s : todo) { Stat &S = stats[s.name]; if (!first) js << ','; first = false;
    js << jesc(s.name) << ":{\"evaluations\":" << S.eval << ",\"discarded\":" << S.disc << ",\"distinct_nontrivial\":" << S.nt.size() << ",\"rule\":" << jesc(s.rule) << ",\"labels\":{";
    bool f2 = true; for (auto &l : S.labels) { if (!f2) js << ','; f2 = false; js << jesc(l.first) << ':' << l.second; }
    js << "},\"samples\":["; f2 = true; for (auto &t : S.samples) { if (!f2) js << ','; f2 = false; js << jesc(t); } js << "]}"; }
  auto dump = [&](std::vector<Fail> const &v) { js << '['; bool f2 = true; for (auto &f : v) { if (!f2) js << ','; f2 = false;
      js << "{\"sub\":" << jesc(f.sub) << ",\"sig\":" << jesc(f.sig) << ",\"msg\":" << jesc(f.msg) << ",\"note\":" << jesc(f.note) << ",\"choices\":\"";
      for (size_t i = 0; i < f.choices.size(); ++i) js << (i ? " " : "") << f.choices[i]; js << "\"}"; } js << ']'; };
  js << "},\"failures\":"; dump(confirmed); js << ",\"unstable\":"; dump(unstable); js << ",\"known\":{";
  first = true; for (auto &k : known) { if (!first) js << ','; first = false; js << jesc(k.first) << ":{\"count\":" << k.second.first << ",\"example\":" << jesc(k.second.second) << '}'; }
  js << "}}";
  if (out.size()) { std::ofstream o(out); o << js.str() << "\n"; }
  if (out.empty() || verbose) {
    for (auto &s : todo) { Stat &S = stats[s.name]; std::cout << s.name << ": " << S.eval << " eval, " << S.disc << " disc, " << S.nt.size() << " nontrivial;"; for (auto &l : S.labels) std::cout << ' ' << l.first << '=' << l.second; std::cout << "\n"; }
    for (auto &f : confirmed) std::cout << "FAIL " << f.sub << " [" << f.sig << "] " << f.msg << "\n   case: " << f.note << "\n   choices:" << f.choices.size() << "\n";
    for (auto &f : unstable) std::cout << "UNSTABLE " << f.sub << " [" << f.sig << "] " << f.msg << "\n";
    for (auto &k : known) std::cout << "KNOWN " << k.first << " x" << k.second.first << " " << k.second.second << "\n";
  }
  return confirmed.empty() ? 0 : 1;
}
}
#endif
