// variant: fast
// The level of the degraded signal does not matter: scaled copies give the
// same result, and the degraded signal is brought to the reference's level.
#include "checks/pipeline.h"
#include "checks/session.h"
#include "misc_audio.h"

using namespace vt;

namespace {
double Rms(const std::vector<double>& v) {
  double s = 0;
  for (double x : v) s += x * x;
  return sqrt(s / v.size());
}
const std::vector<double> kGains = {2, 0.5, 4, 0.25, 1.0 / 1024, 512, 3, 0.1, 0.7071, 1e-6, 1e5, 0.999, 10};
void Same(mc::Ctx& c, const Visqol::SimilarityResultMsg& a, const Visqol::SimilarityResultMsg& b, double g, const Mode& m, bool realigned) {
  auto near = [&](const char* what, double x, double y, double tol) {
    c.check(Near(x, y, 0, tol), "gain-changes", "%s is %.9g, with gain %g %.9g", what, x, g, y);
  };
  // A patch that already matches perfectly may be reported as it was or as
  // realigned, which trims a different piece off it: its energy (which the
  // lattice model uses) is compared without realignment only.
  if (!realigned || !m.lattice) near("MOS", a.moslqo(), b.moslqo(), 1e-5);
  near("vnsim", a.vnsim(), b.vnsim(), 1e-6);
  near("lag", a.alignment_lag_s(), b.alignment_lag_s(), 1e-12);
  c.check(a.patch_sims_size() == b.patch_sims_size(), "gain-changes", "%d patches, with gain %g %d", a.patch_sims_size(), g, b.patch_sims_size());
  for (int i = 0; i < a.fvnsim_size(); i++) {
    near("fvnsim", a.fvnsim(i), b.fvnsim(i), 1e-6);
    near("fvnsim10", a.fvnsim10(i), b.fvnsim10(i), 1e-6);
    near("fstdnsim", a.fstdnsim(i), b.fstdnsim(i), 1e-5);
    if (!realigned) near("fvdegenergy", a.fvdegenergy(i), b.fvdegenergy(i), 1e-5);
  }
  for (int i = 0; i < a.patch_sims_size(); i++) near("patch", a.patch_sims(i).similarity(), b.patch_sims(i).similarity(), 1e-6);
}
}  // namespace

SCENARIO_T(gain, 60) {
  const Mode& m = c.pick("mode", Modes());
  const int shape = c.pick("shape", std::vector<int>{kChord, kNoise, kBursts, kChirp});
  const int damage = c.choose("damage", kDamages);
  const size_t rate = c.pick("rate", std::vector<size_t>{800, 1000});
  const int secs = c.pick("decisec", std::vector<int>{11, 19});
  const bool ng = c.flag("no_global"), nr = c.flag("no_realign");
  if ((ng || (nr && rate != 800)) && secs != 11) c.skip();
  const auto a = Signal(shape, secs * rate / 10, rate, 3), b = Damaged(a, damage, rate);
  auto& man = Manager(m, ng, nr);
  const auto plain = Compare(man, a, b, rate);
  c.note("%s, %s with %s at %zu Hz", m.name, ShapeName(shape), DamageName(damage), rate);
  c.check(plain.ok(), "failed", "%s", plain.status().ToString().c_str());
  c.outcome(plain->moslqo());
  const int gains = c.tier(7, 13);
  for (int k = 0; k < gains; k++) {
    auto s = b;
    for (auto& x : s) x *= kGains[k];
    const auto r = Compare(man, a, s, rate);
    c.check(r.ok(), "failed", "gain %g: %s", kGains[k], r.status().ToString().c_str());
    Same(c, *plain, *r, kGains[k], m, !nr);
  }
  c.count(gains - 1);
}
SCENARIO_T(long_signals, 200) {
  const Mode& m = c.pick("mode", Modes());
  const int damage = c.choose("damage", kDamages);
  if (!c.thorough() && damage % 2) c.skip();
  struct L { size_t rate; double secs; };
  const L l = c.pick("signal", c.thorough() ? std::vector<L>{{800, 70}, {800, 300}, {16000, 11}, {48000, 5}} : std::vector<L>{{800, 20}, {16000, 1.6}});
  const auto a = Signal(kNoise, static_cast<size_t>(l.secs * l.rate), l.rate, 3), b = Damaged(a, damage, l.rate);
  auto& man = Manager(m, false, false, 8);
  const auto plain = Compare(man, a, b, l.rate);
  c.note("%s, %.1f s with %s at %zu Hz", m.name, l.secs, DamageName(damage), l.rate);
  c.check(plain.ok(), "failed", "%s", plain.status().ToString().c_str());
  c.outcome(plain->moslqo());
  for (double g : {0.01, 3.0}) {
    auto s = b;
    for (auto& x : s) x *= g;
    const auto r = Compare(man, a, s, l.rate);
    c.check(r.ok(), "failed", "gain %g: %s", g, r.status().ToString().c_str());
    Same(c, *plain, *r, g, m, true);
  }
  c.count(2);
}
// The loudness match itself, including the in-place contract of the pipeline.
SCENARIO(match) {
  const int rs = c.choose("ref_shape", kShapes), ds = c.choose("deg_shape", kShapes);
  if (rs == kSilence || ds == kSilence) c.skip();
  const int rn = c.pick("ref_len", std::vector<int>{1, 7, 100, 1001, 70000}), dn = c.pick("deg_len", std::vector<int>{1, 8, 333, 2000, 132001});
  const double g = c.pick("gain", kGains);
  auto a = Signal(rs, rn, 800, 1), b = Signal(ds, dn, 800, 2);
  for (auto& x : b) x *= g;
  if (Rms(a) == 0 || Rms(b) == 0) c.skip();
  c.note("%d samples of %s, %d of %s at gain %g", rn, ShapeName(rs), dn, ShapeName(ds), g);
  const auto r = Sig(a, 800), d = Sig(b, 800);
  const auto out = Visqol::MiscAudio::ScaleToMatchSoundPressureLevel(r, d);
  const auto v = out.data_matrix.ToVector();
  c.check(v.size() == b.size() && out.sample_rate == 800, "shape", "%zu samples at %zu Hz", v.size(), out.sample_rate);
  c.check(Near(Rms(v), Rms(a), 1e-9), "level", "RMS %.12g, the reference has %.12g", Rms(v), Rms(a));
  const double k = Rms(a) / Rms(b);
  for (size_t i = 0; i < v.size(); i++) c.check(Near(v[i], b[i] * k, 1e-9, 1e-300), "shape", "sample %zu is %g, not %g", i, v[i], b[i] * k);
  c.outcome(v[0]);
  c.check(r.data_matrix.ToVector() == a && d.data_matrix.ToVector() == b, "input-changed", "an input changed");
}
