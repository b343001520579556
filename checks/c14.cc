// variant: fast asan
// Fine realignment: each matched pair is aligned again in the time domain; the
// better of the two matches is kept, with the times of what was compared.
#include "checks/pipeline.h"
#include "checks/session.h"
#include "visqol.h"

using namespace vt;

namespace {
struct Recorder : Visqol::SpectrogramBuilder {
  std::vector<std::vector<double>> got;
  std::vector<size_t> rates;
  int fail_at = -1;
  absl::StatusOr<Visqol::Spectrogram> Build(const AudioSignal& s, const AnalysisWindow&) override {
    got.push_back(FromSignal(s));
    rates.push_back(s.sample_rate);
    if (static_cast<int>(got.size()) - 1 == fail_at) return absl::InternalError("made to fail");
    AMatrix<double> m = AMatrix<double>::Filled(2, 3, 1.0 + got.size());
    Visqol::Spectrogram sp(std::move(m));
    sp.SetCenterFreqBands({100, 200});
    return sp;
  }
};
// Answers the patches in order.
struct Scripted : Visqol::PatchSimilarityComparator {
  std::vector<double> answers;
  mutable size_t calls = 0;
  PatchSimilarityResult MeasurePatchSimilarity(const ImagePatch&, const ImagePatch&) const override {
    PatchSimilarityResult p{};
    p.similarity = answers[std::min(calls, answers.size() - 1)];
    p.freq_band_means = AMatrix<double>::Filled(2, 1, 100.0 + calls);
    p.freq_band_stddevs = AMatrix<double>::Filled(2, 1, 200.0 + calls);
    p.freq_band_deg_energy = AMatrix<double>::Filled(2, 1, 300.0 + calls);
    calls++;
    return p;
  }
};
PatchSimilarityResult Coarse(double sim, double rs, double ds, double len, int i) {
  PatchSimilarityResult p{};
  p.similarity = sim;
  p.freq_band_means = AMatrix<double>::Filled(2, 1, 10.0 + i);
  p.freq_band_stddevs = AMatrix<double>::Filled(2, 1, 20.0 + i);
  p.freq_band_deg_energy = AMatrix<double>::Filled(2, 1, 30.0 + i);
  p.ref_patch_start_time = rs;
  p.ref_patch_end_time = rs + len;
  p.deg_patch_start_time = ds;
  p.deg_patch_end_time = ds + len;
  return p;
}
bool Same(const PatchSimilarityResult& a, const PatchSimilarityResult& b) {
  return a.similarity == b.similarity && a.freq_band_means.ToVector() == b.freq_band_means.ToVector() &&
         a.freq_band_stddevs.ToVector() == b.freq_band_stddevs.ToVector() && a.freq_band_deg_energy.ToVector() == b.freq_band_deg_energy.ToVector() &&
         a.ref_patch_start_time == b.ref_patch_start_time && a.ref_patch_end_time == b.ref_patch_end_time &&
         a.deg_patch_start_time == b.deg_patch_start_time && a.deg_patch_end_time == b.deg_patch_end_time;
}
// Whether `part` is what the signal holds from sample `at` on, with silence
// past its end.  The last sample of the signal may be missing.
bool HoldsAt(const std::vector<double>& s, const std::vector<double>& part, int at) {
  if (at < 0) return false;
  const int n = s.size();
  for (int i = 0; i < static_cast<int>(part.size()); i++) {
    const int k = at + i;
    if (k < n - 1 ? part[i] != s[k] : part[i] != 0 && !(k == n - 1 && part[i] == s[k])) return false;
  }
  return true;
}
// Where the part comes from, near the time given; -9 if nowhere.  Rounding of
// times may make one patch a sample shorter than the other, and that sample
// is then silence in front of it.
int Locate(const std::vector<double>& s, const std::vector<double>& part, double at) {
  const int a = static_cast<int>(lround(at));
  for (int d : {0, -1, 1})
    if (HoldsAt(s, part, a + d)) return a + d;
  if (part[0] != 0) return -9;
  const std::vector<double> rest(part.begin() + 1, part.end());
  for (int d : {0, 1})
    if (HoldsAt(s, rest, a + d)) return a + d - 1;
  return -9;
}
// The known defect: a patch from `from` on that reaches `past` samples past the
// end of the signal has its silence in front.  Whether the part is from that.
bool Displaced(const std::vector<double>& s, const std::vector<double>& part, double from, double past) {
  if (past < 1) return false;
  std::vector<double> wrong(static_cast<int>(past), 0.0);
  wrong.insert(wrong.end(), s.begin() + static_cast<int>(from), s.end() - 1);
  for (size_t o = 0; o + part.size() <= wrong.size(); o++)
    if (std::equal(part.begin(), part.end(), wrong.begin() + o)) return true;
  return false;
}
// What realignment makes of patches of the given outcomes, places and delays; the
// coarse match is `shift` frames off, and each patch has its own local delay.
void Realign(mc::Ctx& c, size_t rate, int first, int place, int shift, const std::vector<int>& kinds, const std::vector<int>& delays,
             double level = 0.5, double by = 0.1) {
  const int n = kinds.size();
  const double frame = 0.02, len = 0.6;
  const int total = static_cast<int>((n > 3 ? 0.9 + 0.6 * n : 2.5) * rate);
  const auto ref = Signal(kNoise, total, rate, 3);
  const auto more = Signal(kNoise, total, rate, 9);
  std::vector<PatchSimilarityResult> coarse;
  std::vector<double> answers;
  std::vector<int> lost, offsets;
  const int moved = static_cast<int>(lround(shift * frame * rate));
  auto deg = more;
  int at = first;
  for (int i = 0; i < n; i++) {
    const int kind = kinds[i], delay = delays[i];  // worse, equal, better, without counterpart
    const double rs = i < n - 1 || place == 0 ? at * frame : place == 1 ? total / static_cast<double>(rate) - len : 100 * frame;
    coarse.push_back(Coarse(level, rs, i < n - 1 || place == 0 ? (at + shift) * frame : rs, len, i));
    // deg[j] = ref[j - moved - delay], for this patch
    offsets.push_back(moved + delay);
    const int from = static_cast<int>(lround(coarse.back().deg_patch_start_time * rate));
    for (int j = from; j < std::min(total, from + static_cast<int>(lround(len * rate))); j++) {
      const int k = j - moved - delay;
      if (k >= 0 && k < total) deg[j] = ref[k];
    }
    if (kind == 3) {
      auto& p = coarse.back();
      p.similarity = 0;
      p.deg_patch_start_time = p.deg_patch_end_time = 0;
      p.freq_band_means = AMatrix<double>::Filled(2, 1, 0.0);
    } else {
      answers.push_back(kind == 0 ? level - by : kind == 1 ? level : level + by);
    }
    lost.push_back(kind == 3);
    at += 30;
  }
  if (answers.empty()) answers.push_back(1);
  c.note("%d patches from frame %d on at %zu Hz, last place %d, delays in samples %s", n, first, rate, place, Str(offsets).c_str());
  auto script = std::make_unique<Scripted>();
  script->answers = answers;
  const Visqol::ComparisonPatchesSelector sel(std::move(script));
  Recorder rec;
  const auto r = sel.FinelyAlignAndRecreatePatches(coarse, ToSignal(ref, rate), ToSignal(deg, rate), &rec, AnalysisWindow(rate, 0.25));
  c.check(r.ok(), "failed", "%s", r.status().ToString().c_str());
  c.check(r->size() == coarse.size(), "count", "%zu patches became %zu", coarse.size(), r->size());
  size_t call = 0;
  int displaced = -1;
  for (int i = 0; i < n; i++) {
    const auto& p = (*r)[i];
    const auto& q = coarse[i];
    if (lost[i]) {
      c.check(Same(p, q), "lost-changed", "patch %d without a counterpart changed", i);
      continue;
    }
    const double answer = answers[call];
    c.check(p.similarity == std::max(q.similarity, answer), "not-better", "patch %d: %g from %g before and %g after realignment", i, p.similarity, q.similarity, answer);
    if (rec.got.size() < 2 * call + 2) c.fail("not-compared", "patch %d was not compared again", i);
    c.check(rec.rates[2 * call] == rate && rec.rates[2 * call + 1] == rate, "rate", "the audio of patch %d has the rate %zu", i, rec.rates[2 * call]);
    const auto &a = rec.got[2 * call], &b = rec.got[2 * call + 1];
    const int id = call++;
    // What was compared: audio of the two patches.
    c.check(a.size() == b.size() && !a.empty(), "lengths", "patch %d compares %zu with %zu samples", i, a.size(), b.size());
    c.check(a.size() * 1.0 <= len * rate + 1.5 && a.size() >= len * rate / 2 - 2, "part-length", "patch %d compares %zu samples", i, a.size());
    if (answer < q.similarity) {
      c.check(Same(p, q), "kept-changed", "patch %d, which got no better, changed", i);
      continue;
    }
    if (answer == q.similarity && Same(p, q)) continue;
    c.check(p.freq_band_means(0) == 100.0 + id && p.freq_band_stddevs(0) == 200.0 + id && p.freq_band_deg_energy(0) == 300.0 + id, "mixed",
            "patch %d has values of another comparison", i);
    const double past = q.ref_patch_end_time * rate - total;
    if (Displaced(ref, a, q.ref_patch_start_time * rate, past) && Displaced(deg, b, q.deg_patch_start_time * rate, past) && (a[0] == 0 || b[0] == 0)) {
      displaced = i;
      continue;
    }
    const int pa = Locate(ref, a, p.ref_patch_start_time * rate), pb = Locate(deg, b, p.deg_patch_start_time * rate);
    c.check(pa >= -1, "ref-time", "patch %d: the reference audio compared is not what starts at %g s", i, p.ref_patch_start_time);
    c.check(pb >= -1, "deg-time", "patch %d: the degraded audio compared is not what starts at %g s", i, p.deg_patch_start_time);
    c.check(Near(p.ref_patch_end_time - p.ref_patch_start_time, a.size() / double(rate), 1e-9, 1e-9) &&
                Near(p.deg_patch_end_time - p.deg_patch_start_time, b.size() / double(rate), 1e-9, 1e-9),
            "duration", "patch %d: %zu samples compared, %g and %g s reported", i, a.size(), p.ref_patch_end_time - p.ref_patch_start_time,
            p.deg_patch_end_time - p.deg_patch_start_time);
    c.check(p.ref_patch_start_time >= q.ref_patch_start_time && p.deg_patch_start_time >= q.deg_patch_start_time &&
                (p.ref_patch_start_time == q.ref_patch_start_time || p.deg_patch_start_time == q.deg_patch_start_time),
            "start", "patch %d moved from %g/%g to %g/%g s", i, q.ref_patch_start_time, q.deg_patch_start_time, p.ref_patch_start_time, p.deg_patch_start_time);
    if (q.ref_patch_end_time * rate < total - 2 - std::abs(offsets[i] - moved))
      c.check(pb - pa == offsets[i], "not-aligned", "patch %d: reference from sample %d, degraded from %d, the delay is %d", i, pa, pb, offsets[i]);
    c.check(a.size() >= len * rate - std::abs(pb - pa - moved) - 2, "part-left-out", "patch %d of %g samples, delayed by %d, compares %zu", i, len * rate, pb - pa, a.size());
    c.outcome(pb - pa);
  }
  c.check(rec.got.size() == 2 * call, "calls", "%zu spectrograms for %zu patches", rec.got.size(), call);
  if (displaced >= 0) c.fail("silence-in-front", "patch %d, which reaches past the end of the signals, is compared with its silence in front of it", displaced);
}
}  // namespace

// Patches with every combination of outcomes, places and delays.
SCENARIO(patches) {
  const size_t rate = c.pick("rate", std::vector<size_t>{800, 1000, 11025});
  const int n = 1 + c.choose("patches", c.tier(2, 3));
  const int first = c.pick("first", std::vector<int>{14, 0});
  const int place = c.choose("place", 3);  // of the last patch: inside, at the end, past the end
  const int shift = place ? 0 : c.pick("shift", first ? std::vector<int>{0, 2, -14} : std::vector<int>{0, 2});
  const std::vector<int> all = {0, 1, -1, 7, -12, 40, -40}, few = {0, 7, -12};
  std::vector<int> kinds, delays;
  for (int i = 0; i < n; i++) {
    kinds.push_back(c.choose("outcome", 4));
    delays.push_back(c.pick("delay", n == 1 ? all : few));
  }
  Realign(c, rate, first, place, shift, kinds, delays);
}
// Many patches, with outcomes and delays that take turns.
SCENARIO_T(many, 60) {
  const size_t rate = c.pick("rate", std::vector<size_t>{800, 1000});
  const int n = c.pick("patches", c.thorough() ? std::vector<int>{4, 5, 7, 8, 9, 16, 17, 33, 66, 130} : std::vector<int>{4, 8, 17, 40});
  const int step = c.choose("outcome step", 4), start = c.choose("outcome", 4), turn = 1 + c.choose("delay step", 3), shift = c.pick("shift", std::vector<int>{0, 2});
  const std::vector<int> all = {0, 1, -1, 7, -12, 40, -40};
  std::vector<int> kinds, delays;
  for (int i = 0; i < n; i++) {
    kinds.push_back((start + step * i) % 4);
    delays.push_back(all[(i * turn + start) % all.size()]);
  }
  Realign(c, rate, 14, 0, shift, kinds, delays);
}
// Matches with similarities of every kind, and changes of every size.
SCENARIO(levels) {
  const double level = c.pick("level", std::vector<double>{0, -0.4, 1e-9, 0.15, 0.4999, 0.999}), by = c.pick("by", std::vector<double>{1e-12, 1e-9, 1e-7, 1e-5, 0.001, 0.5});
  if (level + by > 1) c.skip();
  std::vector<int> kinds, delays;
  for (int i = 0; i < 2; i++) {
    kinds.push_back(c.choose("outcome", 4));
    delays.push_back(c.pick("delay", std::vector<int>{0, 7}));
  }
  Realign(c, 1000, c.pick("first", std::vector<int>{14, 0}), 0, c.choose("shift", 2), kinds, delays, level, by);
}
// A spectrogram that cannot be built makes the realignment fail.
SCENARIO(failing) {
  const int n = 1 + c.choose("patches", 3), fail_at = c.choose("fail", 2 * n);
  const size_t rate = 1000;
  const auto s = Signal(kNoise, 3000, rate, 3);
  std::vector<PatchSimilarityResult> coarse;
  for (int i = 0; i < n; i++) coarse.push_back(Coarse(0.5, 0.28 + 0.6 * i, 0.28 + 0.6 * i, 0.6, i));
  auto script = std::make_unique<Scripted>();
  script->answers = {0.7};
  const Visqol::ComparisonPatchesSelector sel(std::move(script));
  Recorder rec;
  rec.fail_at = fail_at;
  const auto r = sel.FinelyAlignAndRecreatePatches(coarse, ToSignal(s, rate), ToSignal(s, rate), &rec, AnalysisWindow(rate, 0.25));
  c.check(!r.ok() && r.status().message() == "made to fail", "error-lost", "a failing spectrogram gave %s", r.status().ToString().c_str());
  c.note("%d patches, spectrogram %d fails", n, fail_at);
}
// The whole pipeline with and without realignment.
SCENARIO_T(switch_, 60) {
  const bool speech = c.flag("speech");
  const int shape = c.pick("shape", std::vector<int>{kBursts, kChord, kNoise, kChirp});
  const size_t rate = c.pick("rate", std::vector<size_t>{800, 1000});
  const int len = c.pick("length", std::vector<int>{1300, 2600, 3203});
  const int damage = c.choose("damage", c.tier(8, 12));
  auto a = Signal(shape, len, rate, 1);
  auto b = a;
  Lcg g(damage);
  switch (damage) {
    case 0: break;
    case 1: for (int i = len / 2; i < len; i++) b[i] = a[i - 5]; break;             // a jump
    case 2: for (int i = 0; i < len; i++) b[i] = a[std::min(len - 1, i + i / 100)]; break;  // drifting
    case 3: for (auto& x : b) x = floor(x * 8) / 8; break;
    case 4: b.resize(len - 400); break;
    case 5: b.erase(b.begin() + len / 3, b.begin() + len / 3 + 23); break;
    case 6: b.insert(b.begin() + len / 2, 31, 0.0); break;
    case 7: for (int i = len / 4; i < len / 2; i++) b[i] = 0; break;
    case 8: b = Signal(kNoise, len, rate, 7); break;
    case 9: b.insert(b.begin(), 11, 0.0); break;
    case 10: for (auto& x : b) x += 0.01 * g.sym(); break;
    case 11: b.insert(b.end(), 900, 0.0); break;
  }
  c.note("%s, %d samples of %s at %zu Hz, damage %d", speech ? "speech" : "audio", len, ShapeName(shape), rate, damage);
  Visqol::SimilarityResult res[2];
  for (int off = 0; off < 2; off++) {
    const AudioSignal ref = ToSignal(a, rate);
    AudioSignal deg = ToSignal(b, rate);
    FakeMapper map;
    auto sb = Gammatone(speech);
    auto cr = Creator(speech);
    auto se = Selector();
    const auto r = Visqol::Visqol().CalculateSimilarity(ref, deg, sb.get(), AnalysisWindow(rate, 0.25), cr.get(), se.get(), &map, 60, off);
    c.check(r.ok(), "failed", "%s", r.status().ToString().c_str());
    res[off] = *r;
  }
  const auto &on = res[0].debug_info.patch_sims, &off = res[1].debug_info.patch_sims;
  c.check(on.size() == off.size(), "count", "%zu patches with and %zu without realignment", on.size(), off.size());
  const double half = (speech ? 20 : 30) * 0.02 / 2 + 0.003;
  double gain = 0;
  for (size_t i = 0; i < on.size(); i++) {
    c.check(on[i].similarity >= off[i].similarity, "not-better", "patch %zu: %g with, %g without realignment", i, on[i].similarity, off[i].similarity);
    gain += on[i].similarity - off[i].similarity;
    if (off[i].deg_patch_end_time == 0) c.check(Same(on[i], off[i]), "lost-changed", "patch %zu without a counterpart changed", i);
    const double dr = on[i].ref_patch_start_time - off[i].ref_patch_start_time, dd = on[i].deg_patch_start_time - off[i].deg_patch_start_time;
    c.check(dr >= 0 && dd >= 0 && dr <= half && dd <= half && (dr == 0 || dd == 0), "start", "patch %zu moved by %g and %g s", i, dr, dd);
  }
  c.outcome(gain);
}
