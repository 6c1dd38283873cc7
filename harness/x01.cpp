// X01: XML round trip.
#include "objgen.h"
using namespace og;
static void roundtrip(pbt::Ctx &c, Any const &x, std::string sig) {
  std::string t1 = xml(x); Any y; try { y = parse(x.cat, t1); } catch (Gyoto::Error const &e) { c.fail(sig + "/refused/" + x.kind, std::string("the XML written by the library is refused: ") + (const char *)e); return; }
  c.check(x.cat == 'K' || x.cat == 'C' || x.cat == 'P' || x.o()->kind() == x.kind, sig + "/kind/" + x.kind, "an object of kind " + x.kind + " says that its kind is " + x.o()->kind());
  if (!y.o()) { c.fail(sig + "/null/" + x.kind, "reading back the XML gives no object"); return; }
  std::string d = diff(x.o(), y.o(), 1e-12); std::string w = d.substr(0, d.find_first_of(" [")); if (d.size()) c.fail(sig + "/value/" + x.kind + "/" + w, "after writing and reading XML: " + d);
  if (x.cat == 'A' || x.cat == 'K' || x.cat == 'P') { SmartPointer<Metric::Generic> m = x.cat == 'A' ? x.a->metric() : x.cat == 'P' ? x.ph->metric() : x.k->metric(), n = x.cat == 'A' ? y.a->metric() : x.cat == 'P' ? y.ph->metric() : y.k->metric(); d = diff((Metric::Generic *)m, (Metric::Generic *)n, 1e-12); if (d.size()) c.fail(sig + "/metric/" + x.kind, "metric after writing and reading XML: " + d); }
  std::string t2 = xml(y); if (t1 != t2) { size_t i = 0; while (i < t1.size() && i < t2.size() && t1[i] == t2[i]) ++i; c.fail(sig + "/fixpoint/" + x.kind, "writing, reading and writing again gives another document: ..." + t1.substr(i > 40 ? i - 40 : 0, 100) + " / " + t2.substr(i > 40 ? i - 40 : 0, 100)); }
}
PBT_SUB(metrics, 6000, 80000, "random metric kind and parameters; non-trivial: some parameter set") { Any x = create(g, 'M', g.pick(kinds('M')), c.note); c.label(x.kind); roundtrip(c, x, "metrics"); c.nontrivial = true; }
PBT_SUB(astrobjs, 12000, 150000, "random object kind and parameters; non-trivial: some parameter set") { Any x = create(g, 'A', g.pick(kinds('A')), c.note); c.label(x.kind); roundtrip(c, x, "astrobjs"); c.nontrivial = true; }
PBT_SUB(spectra, 4000, 50000, "random spectrum kind and parameters; non-trivial: some parameter set") { Any x = create(g, 'S', g.pick(kinds('S')), c.note); c.label(x.kind); roundtrip(c, x, "spectra"); c.nontrivial = true; }
PBT_SUB(spectrometers, 4000, 50000, "random spectrometer; non-trivial: some parameter set") { Any x = create(g, 'R', g.pick(kinds('R')), c.note); c.label(x.kind); roundtrip(c, x, "spectrometers"); c.nontrivial = true; }
PBT_SUB(screens, 4000, 50000, "random screen; non-trivial: some parameter set") { Any x = create(g, 'K', "Screen", c.note); c.label(x.kind); roundtrip(c, x, "screens"); c.nontrivial = true; }
PBT_SUB(sceneries, 4000, 50000, "random metric, object, screen and integration parameters; non-trivial: some parameter set") { Any x = create(g, 'C', "Scenery", c.note); c.label("Scenery"); roundtrip(c, x, "sceneries"); c.nontrivial = true; }
PBT_SUB(photons, 3000, 40000, "random metric, object, initial condition and integration parameters; non-trivial: some parameter set") { Any x = create(g, 'P', "Photon", c.note); c.label("Photon"); roundtrip(c, x, "photons"); c.nontrivial = true; }
GY_MAIN
