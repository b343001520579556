// variant: fast
// A signal compared with itself: perfect similarity in every band, no lag,
// the quality the model gives to a perfect match; nothing scores higher.
#include "checks/session.h"

using namespace vt;

namespace {
// `distinct`: no two stretches of the signal are alike.
void Judge(mc::Ctx& c, const Visqol::SimilarityResultMsg& r, const Mode& m, bool distinct) {
  c.outcome(r.moslqo() + r.patch_sims_size());
  c.check(Near(r.vnsim(), 1, 0, 1e-9), "vnsim", "vnsim %.12g", r.vnsim());
  for (double d : r.fvnsim()) c.check(Near(d, 1, 0, 1e-9), "fvnsim", "fvnsim has %.12g", d);
  for (double d : r.fvnsim10()) c.check(Near(d, 1, 0, 1e-9), "fvnsim10", "fvnsim10 has %.12g", d);
  for (double d : r.fstdnsim()) c.check(Near(d, 0, 0, 1e-5), "fstdnsim", "fstdnsim has %.12g", d);
  c.check(r.alignment_lag_s() == 0, "lag", "a lag of %g s", r.alignment_lag_s());
  for (auto& p : r.patch_sims()) {
    c.check(Near(p.similarity(), 1, 0, 1e-9), "patch", "patch similarity %.12g", p.similarity());
    c.check(!distinct || Near(p.ref_patch_start_time(), p.deg_patch_start_time(), 0, 1e-9), "patch-time", "reference patch at %g s is matched with %g s",
            p.ref_patch_start_time(), p.deg_patch_start_time());
    c.check(!distinct || Near(p.ref_patch_end_time(), p.deg_patch_end_time(), 0, 1e-9),
            "patch-time", "reference patch %g..%g s is matched with %g..%g s", p.ref_patch_start_time(), p.ref_patch_end_time(),
            p.deg_patch_start_time(), p.deg_patch_end_time());
  }
  // The best there is, by mode.
  const std::string n = m.name;
  if (n == "speech scaled") c.check(Near(r.moslqo(), 5, 0, 1e-3), "mos", "%.9g for a perfect match", r.moslqo());
  if (n == "speech unscaled") c.check(r.moslqo() > 4 && r.moslqo() < 4.3, "mos", "%.9g for a perfect match", r.moslqo());
  if (n == "audio") c.check(Near(r.moslqo(), 4.7321, 0, 2e-3), "mos", "%.9g for a perfect match", r.moslqo());
}
}  // namespace

// Shapes with activity throughout, at odd and even lengths and rates.
SCENARIO_T(identity, 60) {
  const Mode& m = c.pick("mode", Modes());
  const int shape = c.pick("shape", std::vector<int>{kTone, kChord, kNoise, kBursts, kChirp});
  const size_t rate = c.pick("rate", std::vector<size_t>{800, 1000, 777, 1601});
  const int len = c.choose("length", c.tier(6, 14));
  const double secs[] = {1.02, 1.5, 2, 2.61, 3.3, 0.97, 4, 5.2, 1.2, 1.1, 1.75, 2.2, 6.1, 8};
  const double level = c.pick("level", std::vector<double>{1, 0.05});
  const bool ng = c.flag("no_global"), nr = c.flag("no_realign");
  if (!c.thorough() && (ng || nr) && (len > 2 || level != 1 || rate != 800)) c.skip();
  std::vector<double> a = Signal(shape, static_cast<size_t>(secs[len] * rate), rate, 3);
  for (auto& x : a) x *= level;
  c.note("%s, %.2f s of %s at %zu Hz, level %g", m.name, secs[len], ShapeName(shape), rate, level);
  const auto r = Compare(Manager(m, ng, nr), a, a, rate);
  c.check(r.ok(), "failed", "%s", r.status().ToString().c_str());
  Judge(c, *r, m, shape != kTone);
}
// Every length over several frames, and the lengths around powers of two.
SCENARIO_T(lengths, 60) {
  const Mode& m = c.pick("mode", Modes());
  const int shape = c.pick("shape", c.thorough() ? std::vector<int>{kNoise, kChirp} : std::vector<int>{kNoise});
  static const int around[] = {1024, 2048, 4096, 8192, 16384};
  const int few = c.tier(300, 800), k = c.choose("length", few + 15);
  const size_t n = k < few ? 816 + k : around[(k - few) / 3] + (k - few) % 3 - 1, rate = n > 5000 ? 8000 : n > 3000 ? 2000 : 800;
  const auto a = Signal(shape, n, rate, 3);
  c.note("%s, %zu samples of %s at %zu Hz", m.name, n, ShapeName(shape), rate);
  const auto r = Compare(Manager(m, false, false, 8), a, a, rate);
  c.check(r.ok(), "failed", "%s", r.status().ToString().c_str());
  Judge(c, *r, m, true);
}
// Long signals, at real sample rates and with many patches.
SCENARIO_T(long_signals, 200) {
  const Mode& m = c.pick("mode", Modes());
  const int shape = c.pick("shape", std::vector<int>{kChord, kNoise, kBursts});
  struct L { size_t rate; double secs; };
  const L l = c.pick("signal", c.thorough() ? std::vector<L>{{800, 70}, {800, 300}, {16000, 12}, {16000, 31}, {22050, 9}, {44100, 11}, {48000, 12}, {96000, 3}}
                                            : std::vector<L>{{800, 25}, {16000, 3.1}, {48000, 2.1}});
  const size_t n = l.secs * l.rate;
  const auto a = Signal(shape, n, l.rate, 3);
  c.note("%s, %.2f s of %s at %zu Hz", m.name, l.secs, ShapeName(shape), l.rate);
  const auto r = Compare(Manager(m, false, false, 8), a, a, l.rate);
  c.check(r.ok(), "failed", "%s", r.status().ToString().c_str());
  // Bursts and chords of a long signal may match themselves a period later.
  Judge(c, *r, m, shape == kNoise);
}
// Silences inside: speech mode leaves those patches out, audio mode keeps them.
SCENARIO_T(pauses, 60) {
  const Mode& m = c.pick("mode", Modes());
  const int pattern = 1 + c.choose("pattern", 31);
  const size_t rate = 800;
  std::vector<double> a = Signal(kNoise, 5 * 500, rate, 5);
  for (size_t i = 0; i < a.size(); i++) a[i] *= pattern >> (i / 500) & 1 ? 1 : 1e-5;
  c.note("%s, activity pattern %d", m.name, pattern);
  const auto r = Compare(Manager(m), a, a, rate);
  c.check(r.ok() || m.speech, "failed", "%s", r.status().ToString().c_str());
  if (!r.ok()) { c.trivial(); return; }
  Judge(c, *r, m, false);
}
// Nothing is more similar than the signal itself.
SCENARIO_T(ceiling, 60) {
  const Mode& m = c.pick("mode", Modes());
  const int shape = c.pick("shape", std::vector<int>{kChord, kNoise, kBursts, kChirp});
  const int damage = c.choose("damage", kDamages);
  const int second = c.choose("second", kDamages);
  const size_t rate = 800;
  const auto a = Signal(shape, 1400, rate, 3), b = Damaged(Damaged(a, damage, rate), second, rate);
  c.note("%s, %s, %s and %s", m.name, ShapeName(shape), DamageName(damage), DamageName(second));
  const auto r = Compare(Manager(m), a, b, rate);
  c.check(r.ok(), "failed", "%s", r.status().ToString().c_str());
  c.outcome(r->vnsim());
  c.check(r->vnsim() <= 1 + 1e-9, "above-perfect", "vnsim %.12g", r->vnsim());
  for (auto& p : r->patch_sims()) c.check(p.similarity() <= 1 + 1e-9, "above-perfect", "patch %.12g", p.similarity());
  for (double d : r->fvnsim()) c.check(d <= 1 + 1e-9, "above-perfect", "fvnsim %.12g", d);
  const bool real = damage != kNoDamage && damage != kDelay && damage != kEarly;
  if (real) c.check(r->vnsim() < 0.9999, "damage-unseen", "vnsim %.9g for a damaged signal", r->vnsim());
  if (m.speech && !m.lattice) {
    const auto best = Compare(Manager(m), a, a, rate);
    c.check(r->moslqo() <= best->moslqo() + 1e-9, "above-perfect", "MOS %g, the signal itself gets %g", r->moslqo(), best->moslqo());
  }
}
