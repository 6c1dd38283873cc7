// G01: integrated worldlines are geodesics.
#include "orbit.h"
using namespace orb; using mg::M;
struct Line { SmartPointer<Photon> ph; SmartPointer<Astrobj::Star> st; Worldline *w; };
static Line line(Orbit const &o, std::string integ, double tol, double dmr) {
  Line l; if (o.massive) { l.st = new Astrobj::Star(); l.w = l.st; } else { l.ph = new Photon(); l.w = l.ph; }
  if (o.massive) l.st->metric(o.m.met); else l.ph->metric(o.m.met); l.w->integrator(integ); l.w->absTol(tol); l.w->relTol(tol); l.w->deltaMaxOverR(dmr); o.m.met->deltaMaxOverR(dmr); /* the Legacy integrator reads it from the metric */
  l.w->setInitCoord(o.c, 0); return l;
}
static double energy(mg::Ref const &R, const double *u) { double s = 0; for (int j = 0; j < 4; ++j) s -= double(R.g[0][j])*u[j]; return s; }

PBT_SUB(constants, 6000, 120000, "random metric, massive or massless particle, integrator, integration span forward or backward in time; non-trivial: at least 5 integration steps in a curved metric") {
  Orbit o = orbit(g); M &m = o.m; std::string integ = g.pick(integrators()); double tol = g.flip() ? 1e-6 : 1e-9, dmr = g.flip() ? 0.1 : 0.3;
  double dt = g.logu(5, 400)*g.sgn();
  c.note << show(o) << " integrator=" << integ << " tol=" << tol << " dt=" << dt; c.label(m.kind); c.label(integ); if (m.kind == "ChernSimons" && integ == "Legacy") throw pbt::Discard(); /* slow-rotation approximation there */
  // keep away from coordinate singularities (decided by the reference orbit)
  Ref r(m.met, o.c); r.tol = 1e-8; bool okref = r.to(o.c[0] + dt, 0);
  if (!okref || r.minsin < 0.05) throw pbt::Discard();
  c.note << " rmin=" << r.rmin << " final r=" << r.y[1] << " nodes: ";
  if (r.rmin < std::max(1.5*m.rmin, m.kind == "KerrKS" || m.kind == "Shift" ? 3. : m.kind == "Hayward" || m.kind == "Complex" ? 2.5 : 0.)) throw pbt::Discard();
  Line l = line(o, integ, tol, dmr); l.w->xFill(o.c[0] + dt);
  size_t n = l.w->get_nelements(); V t(n), x(n), y(n), z(n), td(n), xd(n), yd(n), zd(n), tau(n);
  l.w->getCoord(&t[0], &x[0], &y[0], &z[0]); l.w->get_dot(&td[0], &xd[0], &yd[0], &zd[0]); l.w->get_tau(&tau[0]);
  c.note << t[0] << " .. " << t[n-1] << " n=" << n << "; ";
  if (integ == "Legacy" && !(dt > 0 ? t[n-1] >= o.c[0] + dt : t[0] <= o.c[0] + dt)) throw pbt::Discard(); // the deprecated integrator may give up early
  c.check(dt > 0 ? t[n-1] >= o.c[0] + dt : t[0] <= o.c[0] + dt, "constants/span/" + integ, "integration stopped before the requested date");
  mg::Ref R0 = mg::reference(m, o.c); double E0 = energy(R0, o.c + 4); bool seen = false;
  double L0 = 0; for (int j = 0; j < 4; ++j) L0 += double(m.spherical ? R0.g[3][j] : -o.c[2]*R0.g[1][j] + o.c[1]*R0.g[2][j])*o.c[4+j];
  bool axis = m.kind != "Shift"; double slack = (m.numeric ? 3e-6 : 0) + 250*tol; if (integ == "Legacy") slack += 2e-3; double L1 = r.rmax*fabs(E0);
  for (size_t i = 0; i < n; ++i) {
    double p[4] = {t[i], x[i], y[i], z[i]}, u[4] = {td[i], xd[i], yd[i], zd[i]};
    for (double v : p) c.check(std::isfinite(v), "constants/finite/" + integ, "non-finite coordinate");
    if (i) { c.check(t[i] > t[i-1], "constants/order/" + integ, "coordinate times are not increasing along the worldline"); if (integ != "Legacy") c.check(tau[i] > tau[i-1], "constants/tau-order/" + integ, "proper times are not increasing along the worldline"); }
    if (t[i] == o.c[0]) { seen = true; for (int k = 0; k < 3; ++k) c.check(p[k+1] == o.c[k+1], "constants/initial/" + integ, "initial position not on the worldline"); c.check(tau[i] == 0, "constants/tau0/" + integ, "proper time is not zero at the initial condition"); }
    mg::Ref R; ld X[4] = {p[0], p[1], p[2], p[3]}; m.ref(R.g, X);
    double nn = 0, ns = 0; for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) { double v = double(R.g[a][b])*u[a]*u[b]; nn += v; ns += fabs(v); }
    c.close(nn, o.massive ? -1 : 0, 0, slack*ns, "constants/norm/" + integ + "/" + m.kind, "norm of the tangent vector at step " + std::to_string(i));
    double E = energy(R, u), s = 0; for (int j = 0; j < 4; ++j) s += fabs(double(R.g[0][j])*u[j]);
    c.close(E, E0, 0, slack*(s + fabs(E0)), "constants/energy/" + integ + "/" + m.kind, "energy at step " + std::to_string(i));
    if (axis) { double L = 0; for (int j = 0; j < 4; ++j) L += double(m.spherical ? R.g[3][j] : -p[2]*R.g[1][j] + p[1]*R.g[2][j])*u[j];
      c.close(L, L0, 0, slack*(fabs(L0) + L1), "constants/angmom/" + integ + "/" + m.kind, "axial angular momentum at step " + std::to_string(i)); }
    if (m.kind == "KerrBL") { double mu = o.massive, a = m.a, ct = cos(p[2]), st = sin(p[2]); auto Q = [&](mg::Ref const &RR, const double *uu, double ee, double th, double ll) { double pt = double(RR.g[2][2])*uu[2]; return pt*pt + cos(th)*cos(th)*(a*a*(mu - ee*ee) + ll*ll/(sin(th)*sin(th))); };
      (void)ct; (void)st; double L = 0; for (int j = 0; j < 4; ++j) L += double(R.g[3][j])*u[j];
      c.close(Q(R, u, E, p[2], L), Q(R0, o.c + 4, E0, o.c[2], L0), 0, 4*slack*(L0*L0 + L1*L1), "constants/carter/" + integ, "Carter constant at step " + std::to_string(i)); }
  }
  c.check(seen, "constants/initial-missing/" + integ, "initial condition missing from the worldline");
  c.nontrivial = n >= 6 && m.kind.substr(0, 9) != "Minkowski";
}

PBT_SUB(position, 5000, 100000, "random metric, particle, integrator, random list of requested dates (unsorted, repeated, both sides of the initial date, coordinate or proper time); non-trivial: at least 4 distinct dates reached in a curved metric") {
  Orbit o = orbit(g); M &m = o.m; std::string integ = g.pick(integrators()); double tol = g.flip() ? 1e-6 : 1e-9, dmr = g.flip() ? 0.03 : 0.1;
  bool proper = g.chance(1, 3) && integ != "Legacy"; /* Legacy: documented not to compute proper time */ double span = g.logu(5, 300); int nd = g.range(4, 10); std::vector<double> d(nd), ds;
  for (auto &x : d) x = span*g.uni(-1, 1); for (int i = 0; i < 2; ++i) d[g.below(nd)] = d[g.below(nd)];
  if (g.chance(1, 3)) d[g.below(nd)] = 0;
  if (!proper) for (auto &x : d) x += o.c[0];
  if (m.spherical && g.chance(2, 3)) { // date at which the azimuth crosses a multiple of 2 pi
    Ref r(m.met, o.c); r.tol = 1e-8; double dt = span/30*g.sgn(), lo = proper ? 0 : o.c[0]; V prev = r.y; bool found = false;
    for (int i = 1; i <= 30 && !found; ++i) { prev = r.y; lo = r.y[proper ? 8 : 0]; if (!r.to((proper ? 0 : o.c[0]) + i*dt, proper ? 8 : 0)) throw pbt::Discard(); found = floor(prev[3]/(2*M_PI)) != floor(r.y[3]/(2*M_PI)); }
    if (found) { double hi = r.y[proper ? 8 : 0]; double k = std::max(floor(prev[3]/(2*M_PI)), floor(r.y[3]/(2*M_PI)))*2*M_PI; bool up = r.y[3] > prev[3];
      for (int i = 0; i < 30; ++i) { double mid = 0.5*(lo + hi); Ref q = r; q.y = prev; q.h = fabs(mid - prev[proper ? 8 : 0]); if (!q.to(mid, proper ? 8 : 0)) throw pbt::Discard(); if ((q.y[3] < k) == up) { lo = mid; } else hi = mid; }
      d[g.below(nd)] = 0.5*(lo + hi) + g.pickd({0, 1e-6, -1e-6, 1e-4, -1e-4}); c.label("azimuth-wrap"); } }
  c.note << show(o) << " integrator=" << integ << " tol=" << tol << (proper ? " proper" : "") << " dates="; for (double x : d) c.note << x << ' '; c.label(m.kind); c.label(integ); if (m.kind == "ChernSimons" && integ == "Legacy") throw pbt::Discard(); /* slow-rotation approximation there */
  double org = proper ? 0 : o.c[0]; size_t idx = proper ? 8 : 0;
  // reference, with a perturbed twin to measure the sensitivity of the orbit
  std::map<double, std::pair<V, double>> ref;
  for (int sgn = -1; sgn <= 1; sgn += 2) {
    std::vector<double> s; for (double x : d) if ((x - org)*sgn > 0 || x == org) s.push_back(x); std::sort(s.begin(), s.end()); if (sgn < 0) std::reverse(s.begin(), s.end());
    Ref r(m.met, o.c); double cp[8]; memcpy(cp, o.c, sizeof cp); for (int i = 1; i < 4; ++i) cp[4+i] *= 1 + 1e-5*(i == 2 ? -1 : 1); cp[5] += 1e-7; double rr = m.spherical ? fabs(o.c[1]) : 1; cp[6] += 1e-7/rr; cp[7] += 1e-7/rr;
    Ref q(m.met, cp);
    for (double x : s) { if (!r.to(x, idx) || !q.to(x, idx)) throw pbt::Discard(); if (r.minsin < 0.05 || q.minsin < 0.05) throw pbt::Discard(); if (r.rmin < std::max(1.5*m.rmin, m.kind == "KerrKS" || m.kind == "Shift" ? 3. : m.kind == "Hayward" || m.kind == "Complex" ? 2.5 : 0.)) throw pbt::Discard();
      double sens = dist(m.spherical, &r.y[0], &q.y[0]) + fabs(r.y[0] - q.y[0]); if (sens > 0.05*(1 + r.rmax)) throw pbt::Discard(); ref[x] = {r.y, sens*1e5 + r.rmax}; } c.note << " rmin=" << r.rmin;
  }
  Line l = line(o, integ, tol, dmr);
  V x1(nd), x2(nd), x3(nd), d0(nd), d1(nd), d2(nd), d3(nd), ot(nd);
  int mode = g.below(3);
  if (integ == "Legacy") try { double lo = *std::min_element(d.begin(), d.end()), hi = *std::max_element(d.begin(), d.end()); l.w->xFill(lo); l.w->xFill(hi); V t(l.w->get_nelements()); l.w->get_t(&t[0]); if (t.front() > lo || t.back() < hi) throw pbt::Discard(); l.w->reset(); } catch (Gyoto::Error const &) { throw pbt::Discard(); } // the deprecated integrator may give up early
  if (mode == 1) for (int i = nd - 1; i >= 0; --i) l.w->getCoord(&d[i], 1, &x1[i], &x2[i], &x3[i], &d0[i], &d1[i], &d2[i], &d3[i], 0, 0, 0, 0, 0, 0, 0, 0, &ot[i], proper);
  else { if (mode == 2) l.w->xFill(d[0], proper); l.w->getCoord(&d[0], nd, &x1[0], &x2[0], &x3[0], &d0[0], &d1[0], &d2[0], &d3[0], 0, 0, 0, 0, 0, 0, 0, 0, &ot[0], proper); }
  double acc = 100*tol + 1e-7 + (m.numeric ? 1e-6 : 0) + 1.0*pow(dmr, 3); if (integ == "Legacy") acc += 1e-3;
  for (int i = 0; i < nd; ++i) { V &y = ref[d[i]].first; double A = ref[d[i]].second + fabs(d[i] - org) + 1; double p[4] = {0, x1[i], x2[i], x3[i]};
    std::string sfx = integ + "/" + m.kind; double e = dist(m.spherical, p, &y[0]);
    c.close(e, 0, 0, acc*A, "position/point/" + sfx, "distance to the reference geodesic at date " + gy::num(d[i]));
    if (integ != "Legacy") c.close(ot[i], proper ? y[0] : y[8], 0, acc*A, "position/othertime/" + sfx, proper ? "coordinate time at proper time " + gy::num(d[i]) : "proper time at date " + gy::num(d[i]));
    double ud[4] = {d0[i], d1[i], d2[i], d3[i]}; double rr = m.spherical ? fabs(y[1]) : 1;
    for (int k = 0; k < 4; ++k) { if (m.spherical && k >= 2 && fabs(p[k] - y[k]) > 1e-1) continue; c.close(ud[k]*(k >= 2 ? rr : 1), y[4+k]*(k >= 2 ? rr : 1), 0, acc*A*(fabs(o.c[4]) + 1), "position/velocity/" + sfx, "component " + std::to_string(k) + " of the tangent vector at date " + gy::num(d[i])); }
  }
  std::set<double> uniq(d.begin(), d.end()); c.nontrivial = uniq.size() >= 4 && m.kind.substr(0, 9) != "Minkowski";
  // Cartesian view of the same dates
  if (!proper) { V X(nd), Y(nd), Z(nd), XP(nd), YP(nd), ZP(nd); l.w->getCartesian(&d[0], nd, &X[0], &Y[0], &Z[0], &XP[0], &YP[0], &ZP[0]);
    for (int i = 0; i < nd; ++i) { V &y = ref[d[i]].first; double A = ref[d[i]].second + fabs(d[i] - org) + 1, e[3], v[3] = {y[5]/y[4], y[6]/y[4], y[7]/y[4]}, ev[3];
      if (m.spherical) { double st = sin(y[2]), ct = cos(y[2]), sp = sin(y[3]), cp = cos(y[3]); e[0] = y[1]*st*cp; e[1] = y[1]*st*sp; e[2] = y[1]*ct;
        ev[0] = v[0]*st*cp + y[1]*v[1]*ct*cp - y[1]*v[2]*st*sp; ev[1] = v[0]*st*sp + y[1]*v[1]*ct*sp + y[1]*v[2]*st*cp; ev[2] = v[0]*ct - y[1]*v[1]*st; }
      else for (int k = 0; k < 3; ++k) { e[k] = y[1+k]; ev[k] = v[k]; }
      double got[3] = {X[i], Y[i], Z[i]}, gv[3] = {XP[i], YP[i], ZP[i]};
      for (int k = 0; k < 3; ++k) { c.close(got[k], e[k], 0, acc*A, "position/cartesian/" + integ + "/" + m.kind, "Cartesian coordinate " + std::to_string(k)); c.close(gv[k], ev[k], 0, acc*A, "position/cartesian-velocity/" + integ + "/" + m.kind, "Cartesian velocity " + std::to_string(k)); } } }
}

PBT_SUB(threeplusone, 1500, 40000, "Kerr photon or particle integrated with the 3+1 equations, adaptive Boost integrators, dates on both sides; non-trivial: spinning black hole and r < 30") {
  Orbit o = orbit(g, "KerrBL"); M &m = o.m; std::string integ = integrators()[g.pick(std::vector<int>{0, 2, 3, 4})]; double tol = g.flip() ? 1e-6 : 1e-9, dmr = 0.03;
  double span = g.logu(5, 150); int nd = g.range(2, 5); std::vector<double> d(nd); for (auto &x : d) x = o.c[0] + span*g.uni(-1, 1);
  c.note << show(o) << " integrator=" << integ << " tol=" << tol << " dates="; for (double x : d) c.note << x << ' ';
  std::vector<V> ref; std::vector<double> sens;
  for (double x : d) { Ref r(m.met, o.c), q(m.met, o.c); q.y[5] += 1e-5; q.y[6] += 1e-5/o.c[1]; q.y[7] -= 1e-5/o.c[1]; if (!r.to(x, 0) || !q.to(x, 0) || r.minsin < 0.1 || r.rmin < std::max(3., 1.5*m.rmin)) throw pbt::Discard(); ref.push_back(r.y); sens.push_back(1e5*dist(true, &r.y[0], &q.y[0]) + r.rmax); if (sens.back() > 1e4) throw pbt::Discard(); }
  Line l = line(o, integ, tol, dmr); l.w->integ31(true);
  V x1(nd), x2(nd), x3(nd), d0(nd), d1(nd), d2(nd), d3(nd); l.w->getCoord(&d[0], nd, &x1[0], &x2[0], &x3[0], &d0[0], &d1[0], &d2[0], &d3[0]);
  for (int i = 0; i < nd; ++i) { double p[4] = {0, x1[i], x2[i], x3[i]}, A = (300*tol + 1e-5 + 1e-4*o.massive)*(sens[i] + fabs(d[i] - o.c[0])); V &y = ref[i];
    c.close(dist(true, p, &y[0]), 0, 0, A, "threeplusone/point/" + integ, "distance to the reference geodesic at date " + gy::num(d[i]));
    c.close(d0[i], y[4], 0, A, "threeplusone/tdot/" + integ, "time component of the tangent vector"); c.close(d1[i], y[5], 0, A, "threeplusone/rdot/" + integ, "radial component of the tangent vector");
    c.close(d2[i]*y[1], y[6]*y[1], 0, A, "threeplusone/thdot/" + integ, "polar component of the tangent vector"); c.close(d3[i]*y[1], y[7]*y[1], 0, A, "threeplusone/phdot/" + integ, "azimuthal component of the tangent vector"); }
  c.nontrivial = m.a != 0 && o.c[1] < 30;
}

// one random change of a metric parameter, through the public property interface
static std::string tweak(pbt::Gen &g, std::string kind, SmartPointer<Metric::Generic> met) {
  std::ostringstream o; o << std::setprecision(6); auto dv = [&](size_t n, double hi) { std::vector<double> v(n); for (auto &x : v) x = g.uni(0, hi); return v; };
  if (kind == "KerrBL" || kind == "KerrKS") { double a = g.uni(0, 0.9); met->set("Spin", a); o << "Spin=" << a; }
  else if (kind == "ChernSimons") { if (g.flip()) { double a = g.uni(0, 0.4); met->set("Spin", a); o << "Spin=" << a; } else { double z = g.uni(0, 0.5); met->set("DzetaCS", z); o << "DzetaCS=" << z; } }
  else if (kind == "ReissnerNordstrom") { double q = g.uni(0, 0.95); met->set("Charge", q); o << "Charge=" << q; }
  else if (kind == "BalasinGrumiller") { int w = g.below(3); double v = w == 0 ? g.uni(20, 200) : w == 1 ? g.uni(0.5, 10) : g.uni(-0.01, 0.01); met->set(w == 0 ? "R" : w == 1 ? "r0" : "V0", v); o << "BG parameter " << w << '=' << v; }
  else if (kind == "RezzollaZhidenko") { int w = g.below(3); if (w == 0) { double e = g.uni(-0.3, 0); met->set("Epsilon", e); o << "Epsilon=" << e; } else { std::vector<double> v = dv(4, 0.4); mg::setv(met, w == 1 ? "AParam" : "BParam", v); o << (w == 1 ? "AParam" : "BParam") << " = " << v[0] << ",.."; } }
  else if (kind == "KonoplyaRezzollaZhidenko") { int w = g.below(3); if (w == 0) { double a = g.uni(0.05, 0.9); met->set("Spin", a); o << "Spin=" << a; } else if (w == 1) { std::vector<double> v(6, 0.); v[g.below(4)] = g.uni(0, 0.3); mg::setv(met, "DeltasHorizon", v); o << "DeltasHorizon"; } else { std::vector<double> v(4, 0.); v[g.below(4)] = g.uni(0, 0.2); mg::setv(met, "DeltasAsymptotics", v); o << "DeltasAsymptotics"; } }
  else if (kind == "Hayward") { bool w = g.flip(); double v = g.uni(0, 0.9); met->set(w ? "Spin" : "Charge", v); o << (w ? "Spin=" : "Charge=") << v; }
  else if (kind == "Shift") { if (g.flip()) { std::vector<double> v = met->get("Offset"); for (auto &x : v) x += g.uni(-0.5, 0.5); mg::setv(met, "Offset", v); o << "Offset"; } else { SmartPointer<Metric::Generic> s = met->get("SubMetric"); if (s->kind() == "KerrKS") { double a = g.uni(0, 0.9); s->set("Spin", a); o << "SubMetric Spin=" << a; } else o << "-"; } }
  else if (kind == "Complex") { Metric::Complex *cm = dynamic_cast<Metric::Complex *>((Metric::Generic *)met); size_t i = g.below(cm->getCardinal()); SmartPointer<Metric::Generic> s = (*cm)[i]; std::string k = s->kind(); o << "element: "; if (k != "Minkowski") o << tweak(g, k, s); }
  else o << "-";
  return o.str();
}
PBT_SUB(history, 2500, 50000, "random sequence of queries, metric-parameter changes, metric replacements, new initial conditions, integrator or tolerance changes and clones on one worldline, then dates compared with the geodesic of the final settings; non-trivial: a metric parameter was changed after points had been integrated") {
  Orbit o = orbit(g, "", 1, 0.4); M &m = o.m; double tol = 1e-9, dmr = 0.05; std::string integ = integrators()[g.pick(std::vector<int>{0, 2, 3, 4})];
  double span = g.logu(5, 60); c.note << show(o) << " integrator=" << integ << " ops:"; c.label(m.kind);
  Line l = line(o, integ, tol, dmr); bool queried = false, changed = false; double cc[8]; memcpy(cc, o.c, sizeof cc); std::vector<SmartPointer<Astrobj::Star>> keep;
  int nops = g.range(2, 6);
  for (int k = 0; k < nops; ++k) switch (g.below(7)) {
    case 0: case 1: { double t = cc[0] + span*g.uni(-1, 1); c.note << " query(" << t << ")"; state_t s; try { l.w->getCoord(t, s); queried = true; } catch (Gyoto::Error const &) { throw pbt::Discard(); } break; }
    case 2: case 3: { c.note << " " << tweak(g, m.kind, m.met); if (queried) changed = true; break; }
    case 4: { double k3[3] = {cc[5]/cc[4], cc[6]/cc[4], cc[7]/cc[4]}; for (int i = 0; i < 3; ++i) k3[i] *= 1 + g.uni(-0.1, 0.1); cc[0] += g.uni(-3, 3); c.note << " init"; try { l.w->setInitCoord(cc, k3); } catch (Gyoto::Error const &) { throw pbt::Discard(); } std::vector<double> v = l.w->initCoord(); for (int i = 0; i < 8; ++i) cc[i] = v[i]; break; }
    case 5: { integ = integrators()[g.pick(std::vector<int>{0, 2, 3, 4})]; c.note << " integrator=" << integ; l.w->integrator(integ); break; }
    case 6: { bool own = g.flip(); c.note << " clone" << (own ? "+own metric" : ""); keep.push_back(l.st); l.st = l.st->clone(); l.w = l.st; if (own) { m.met = m.met->clone(); l.st->metric(m.met); } else m.met = l.st->metric(); break; }
  }
  int nd = g.range(1, 3); std::vector<double> d(nd); for (auto &x : d) x = cc[0] + span*g.uni(-1, 1);
  std::vector<V> ref; std::vector<double> A;
  for (double x : d) { Ref r(m.met, cc); double cp[8]; memcpy(cp, cc, sizeof cp); double rr = m.spherical ? fabs(cc[1]) : 1; cp[5] += 1e-5; cp[6] -= 1e-5/rr; cp[7] += 1e-5/rr; Ref q(m.met, cp);
    if (!r.to(x, 0) || !q.to(x, 0) || r.minsin < 0.1 || r.rmin < std::max(m.kind == "BalasinGrumiller" ? 1. : 3., 1.5*m.rmin)) throw pbt::Discard(); double s = 1e5*(dist(m.spherical, &r.y[0], &q.y[0])); if (s > 1e4) throw pbt::Discard(); ref.push_back(r.y); A.push_back(s + r.rmax + fabs(x - cc[0]) + 1); }
  V x1(nd), x2(nd), x3(nd); c.note << " dates="; for (double x : d) c.note << x << ' ';
  l.w->getCoord(&d[0], nd, &x1[0], &x2[0], &x3[0]);
  for (int i = 0; i < nd; ++i) { double p[4] = {0, x1[i], x2[i], x3[i]}; c.close(dist(m.spherical, p, &ref[i][0]), 0, 0, (1e-7 + 0.3*pow(dmr, 3) + (m.numeric ? 1e-6 : 0))*A[i], "history/point/" + m.kind, "distance to the geodesic of the current settings at date " + gy::num(d[i])); }
  c.nontrivial = changed;
}
GY_MAIN
