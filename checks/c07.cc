// variant: fast
// What a result says must follow from its patches: averages over patches, the
// worst tenth, the pooled deviation, the features the quality model is given,
// and the floor for dissimilar signals.
#include "alignment.h"
#include "checks/pipeline.h"
#include "checks/session.h"
#include "svr_similarity_to_quality_mapper.h"
#include "speech_similarity_to_quality_mapper.h"
#include "tflite_quality_mapper.h"
#include "visqol.h"

using namespace vt;

namespace {
// The independent recomputation.
struct Agg {
  std::vector<double> mean, low, sd, energy;
  double vnsim;
};
double Pooled(const std::vector<PatchSimilarityResult>& p, int b, const std::vector<double>& frames) {
  double n = 0, mean = 0;
  for (size_t i = 0; i < p.size(); i++) mean += p[i].freq_band_means(b);
  mean /= p.size();
  double sum = 0;
  for (size_t i = 0; i < p.size(); i++) {
    n += frames[i];
    const double m = p[i].freq_band_means(b), s = p[i].freq_band_stddevs(b);
    sum += (frames[i] - 1) * s * s + frames[i] * m * m;
  }
  const double var = (sum - n * mean * mean) / (n - 1);
  return var < 0 ? 0 : sqrt(var);
}
void Verify(mc::Ctx& c, const Visqol::SimilarityResult& r, const FakeMapper& mapper, double frame) {
  const auto& p = r.debug_info.patch_sims;
  c.check(!p.empty(), "no-patches", "a result without patches");
  const size_t bands = p[0].freq_band_means.NumRows(), n = p.size();
  c.check(r.fvnsim.size() == bands && r.fvnsim10.size() == bands && r.fstdnsim.size() == bands && r.fvdegenergy.size() == bands, "bands",
          "%zu/%zu/%zu/%zu values for %zu bands", r.fvnsim.size(), r.fvnsim10.size(), r.fstdnsim.size(), r.fvdegenergy.size(), bands);
  double vnsim = 0;
  std::vector<double> exact, whole;
  for (auto& q : p) {
    const double f = (q.ref_patch_end_time - q.ref_patch_start_time) / frame;
    exact.push_back(std::ceil(f));
    whole.push_back(std::ceil(f - 1e-6));
  }
  for (size_t b = 0; b < bands; b++) {
    std::vector<double> v;
    double sum = 0, e = 0;
    for (auto& q : p) {
      v.push_back(q.freq_band_means(b));
      sum += v.back();
      e += q.freq_band_deg_energy(b);
    }
    c.check(Near(r.fvnsim[b], sum / n, 1e-9, 1e-12), "fvnsim", "band %zu: %g, the patches' mean is %g", b, r.fvnsim[b], sum / n);
    c.check(Near(r.fvdegenergy[b], e / n, 1e-9, 1e-12), "fvdegenergy", "band %zu: %g, the patches' mean is %g", b, r.fvdegenergy[b], e / n);
    std::sort(v.begin(), v.end());
    const size_t k = std::max<size_t>(1, n / 10);
    double low = 0;
    for (size_t i = 0; i < k; i++) low += v[i] / k;
    c.check(Near(r.fvnsim10[b], low, 1e-9, 1e-12), "fvnsim10", "band %zu of %zu patches: %g, the lowest %zu average %g", b, n, r.fvnsim10[b], k, low);
    // The number of frames of a patch is a rounded-up quotient; both roundings
    // of an exact quotient are accepted.
    const double s1 = Pooled(p, b, exact), s2 = Pooled(p, b, whole);
    const double lo = std::min(s1, s2), hi = std::max(s1, s2);
    c.check(r.fstdnsim[b] >= lo * (1 - 1e-7) - 2e-7 && r.fstdnsim[b] <= hi * (1 + 1e-7) + 2e-7, "fstdnsim",
            "band %zu of %zu patches: %.9g, pooled deviation %.9g..%.9g", b, n, r.fstdnsim[b], lo, hi);
    vnsim += sum / n / bands;
  }
  c.check(Near(r.vnsim, vnsim, 1e-9, 1e-12), "vnsim", "%.12g, the mean of fvnsim is %.12g", r.vnsim, vnsim);
  c.check(mapper.calls >= 1, "mapper", "the quality model was not asked");
  const std::vector<double>* want[] = {&r.fvnsim, &r.fvnsim10, &r.fstdnsim, &r.fvdegenergy};
  for (int i = 0; i < 4; i++)
    for (size_t b = 0; b < bands; b++)
      c.check(mapper.seen[i].size() == bands && Near(mapper.seen[i][b], (*want[i])[b], 1e-12), "features", "feature %d differs from the result", i);
  {
    // Within rounding of the limit, what is reported decides.
    const double s = std::fabs(vnsim - 0.15) > 1e-9 ? vnsim : r.vnsim;
    const double mos = s < 0.15 ? 1 : mapper.answer;
    c.check(r.moslqo == mos, "mos", "%g for a similarity of %g and a prediction of %g", r.moslqo, vnsim, mapper.answer);
  }
  c.outcome(mc::hashv(r.fvnsim10) ^ mc::hashv(r.fstdnsim));
}
// A comparator whose answer depends on which reference patch it sees.
struct TableComparator : Visqol::PatchSimilarityComparator {
  std::vector<std::vector<double>> mean, sd, energy;  // [patch][band]
  std::vector<int> start;
  std::vector<bool> lost;  // patches that match nothing
  PatchSimilarityResult MeasurePatchSimilarity(const ImagePatch& r, const ImagePatch&) const override {
    const int w = WhereFrom(r);
    size_t i = 0;
    while (i < start.size() && start[i] != w) i++;
    PatchSimilarityResult out;
    out.freq_band_means = AMatrix<double>(mean[i]);
    out.freq_band_stddevs = AMatrix<double>(sd[i]);
    out.freq_band_deg_energy = AMatrix<double>(energy[i]);
    out.similarity = 0;
    for (double d : mean[i]) out.similarity += d / mean[i].size();
    if (!lost.empty()) out.similarity = lost[i] ? -1 : 1;
    return out;
  }
};
struct Fixed : Visqol::ImagePatchCreator {
  std::vector<size_t> idx;
  Fixed(size_t n, size_t size) : ImagePatchCreator(size) {
    for (size_t i = 0; i < n; i++) idx.push_back(size / 2 - 1 + i * size);
  }
  absl::StatusOr<std::vector<size_t>> CreateRefPatchIndices(const AMatrix<double>&, const AudioSignal&, const AnalysisWindow&) const override {
    return idx;
  }
};
void RunTable(mc::Ctx& c, const std::vector<std::vector<double>>& mean, const std::vector<std::vector<double>>& sd,
              const std::vector<std::vector<double>>& energy, int size, size_t rate, double answer,
              const std::vector<bool>& lost = {}) {
  const int n = mean.size(), bands = mean[0].size();
  auto cmp = std::make_unique<TableComparator>();
  cmp->mean = mean;
  cmp->sd = sd;
  cmp->energy = energy;
  cmp->lost = lost;
  Fixed creator(n, size);
  for (size_t i : creator.idx) cmp->start.push_back(i);
  const Visqol::ComparisonPatchesSelector sel(std::move(cmp));
  FakeBuilder fb;
  fb.ref = fb.deg = Numbered(bands, size * (n + 1));
  for (int b = 0; b < bands; b++) fb.centres.push_back(100.0 * (b + 1));
  FakeMapper map;
  map.answer = answer;
  const AudioSignal ref = ToSignal({0.5, -0.5, 0.25}, rate);
  AudioSignal deg = ToSignal({0.5, -0.5, 0.25}, rate);
  const AnalysisWindow w(rate, 0.25);
  const auto r = Visqol::Visqol().CalculateSimilarity(ref, deg, &fb, w, &creator, &sel, &map, lost.empty() ? 0 : 1, true);
  c.check(r.ok(), "failed", "%s", r.status().ToString().c_str());
  c.check(static_cast<int>(r->debug_info.patch_sims.size()) == n, "patch-count", "%zu patches instead of %d", r->debug_info.patch_sims.size(), n);
  c.check(r->center_freq_bands == fb.centres, "centres", "the centre frequencies differ from the spectrogram's");
  for (int i = 0; i < n; i++)
    for (int b = 0; b < bands && lost.empty(); b++)
      c.check(r->debug_info.patch_sims[i].freq_band_means(b) == mean[i][b], "patch-order", "patch %d is another one", i);
  Verify(c, *r, map, static_cast<size_t>(w.size * 0.25) / static_cast<double>(rate));
}
}  // namespace

// All small tables.
SCENARIO(tables) {
  const int n = 1 + c.choose("patches", c.tier(3, 4));
  const int bands = 1 + c.choose("bands", n > 2 ? 1 : 2);
  const std::vector<double> mv = {0, 0.1, 0.2, 0.7, 1, -0.2}, sv = {0, 0.3};
  std::vector<std::vector<double>> m(n), s(n), e(n);
  for (int i = 0; i < n; i++)
    for (int b = 0; b < bands; b++) {
      m[i].push_back(c.pick("mean", mv));
      s[i].push_back(bands == 1 ? c.pick("sd", sv) : sv[(i + b) % 2]);
      e[i].push_back(10 * m[i][b] + i + 3 * b);
    }
  c.note("%d patches, %d bands", n, bands);
  RunTable(c, m, s, e, 30, 1000, 3.25);
}
// Every number of patches; several orders of the values; rates where frames do
// not last a round time.
SCENARIO(counts) {
  const int top = c.tier(65, 130), pick = c.choose("patches", top + 4);
  const int many[] = {200, 513, 1025, 3000};
  const int n = pick < top ? 1 + pick : many[pick - top];
  const int order = c.choose("order", 5);
  const int bands = c.pick("bands", std::vector<int>{1, 21, 32});
  const int cfg = c.choose("window", 4);
  const size_t rates[] = {48000, 16000, 1000, 44100};
  const int size = cfg == 1 ? 20 : 30;
  if (bands != 1 && n != 513 && ((n % 5 && n > 12) || n > 130)) c.skip();
  std::vector<std::vector<double>> m(n), s(n), e(n);
  Lcg g(order * 1000 + n);
  for (int i = 0; i < n; i++)
    for (int b = 0; b < bands; b++) {
      const double x = order == 0 ? double(i) / n : order == 1 ? 1 - double(i) / n : order == 2 ? 0.6 : order == 3 ? g.uni() : (i * 7 + b) % 10 / 10.0 - 0.1;
      m[i].push_back(x);
      s[i].push_back(order == 2 ? 0 : 0.3 * g.uni());
      e[i].push_back(40 * g.uni());
    }
  c.note("%d patches, %d bands, order %d, %zu Hz", n, bands, order, rates[cfg]);
  RunTable(c, m, s, e, size, rates[cfg], 4.5);
}
// Patches without a counterpart count as wholly dissimilar ones.
SCENARIO(lost) {
  const int n = 2 + c.choose("patches", c.tier(4, 6));
  std::vector<bool> lost(n);
  for (int i = 1; i < n; i++) lost[i] = c.flag("lost");
  const int set = c.choose("values", 4);
  const size_t rate = c.pick("rate", std::vector<size_t>{48000, 1000, 44100});
  std::vector<std::vector<double>> m(n), s(n), e(n);
  Lcg g(set);
  for (int i = 0; i < n; i++) {
    m[i] = {set == 0 ? 0.8 : g.uni(), 0.5 + 0.4 * g.uni()};
    s[i] = {set == 0 ? 0 : 0.3 * g.uni(), 0.1};
    e[i] = {10 * g.uni(), 20 + g.uni()};
  }
  c.note("%d patches, values %d, %zu Hz", n, set, rate);
  RunTable(c, m, s, e, 30, rate, 3.25, lost);
}
// The floor for dissimilar signals, from both sides.
SCENARIO(floor) {
  const std::vector<double> v = {-1, -0.2, 0, 0.01, 0.1, 0.14, 0.149, 0.1499999, 0.15, 0.1500001, 0.151, 0.16, 0.2, 0.3, 0.5, 0.85, 0.99, 0.999, 1};
  const double x = c.pick("similarity", v);
  const double mos = c.pick("prediction", std::vector<double>{1, 1.2, 2, 3.5, 4.2, 4.732, 5});
  const int bands = c.pick("bands", std::vector<int>{1, 21, 32});
  const bool spread = c.flag("spread");
  const int n = 1 + c.choose("patches", 3);
  std::vector<std::vector<double>> m(n), s(n), e(n);
  for (int i = 0; i < n; i++)
    for (int b = 0; b < bands; b++) {
      m[i].push_back(x + (spread ? 0.05 * (bands - 1 - 2 * b) / bands : 0));
      s[i].push_back(0.1);
      e[i].push_back(b);
    }
  c.note("similarity %g%s, prediction %g, %d bands, %d patches", x, spread ? " (spread)" : "", mos, bands, n);
  RunTable(c, m, s, e, 30, 48000, mos);
}
// The real pipeline.
SCENARIO_T(real, 60) {
  const bool speech = c.flag("speech"), realign = c.flag("realign");
  const int shape = c.pick("shape", std::vector<int>{kBursts, kChord, kNoise, kChirp});
  const int damage = c.choose("damage", 4);
  const int len = c.pick("length", std::vector<int>{900, 1700, 3000});
  const size_t rate = c.pick("rate", std::vector<size_t>{800, 790});
  auto a = Signal(shape, len, rate, 1), b = a;
  if (damage == 0) for (int i = 0; i < len; i++) b[i] = b[i - i % 3];
  if (damage == 1) b.insert(b.begin(), 37, 0.0);
  if (damage == 2) b.erase(b.begin() + len / 3, b.begin() + len / 3 + 100);
  if (damage == 3) b = Signal(kNoise, len, rate, 7);
  c.note("%s, realign %d, %d samples of %s at %zu Hz, damage %d", speech ? "speech" : "audio", realign, len, ShapeName(shape), rate, damage);
  const AudioSignal ref = ToSignal(a, rate);
  AudioSignal deg = ToSignal(b, rate);
  const AnalysisWindow w(rate, 0.25);
  FakeMapper map;
  auto sb = Gammatone(speech);
  auto cr = Creator(speech);
  auto se = Selector();
  const auto r = Visqol::Visqol().CalculateSimilarity(ref, deg, sb.get(), w, cr.get(), se.get(), &map, 60, !realign);
  if (!r.ok()) { c.trivial(); return; }
  Verify(c, *r, map, static_cast<size_t>(w.size * 0.25) / static_cast<double>(rate));
  const int bands = speech ? 21 : 32;
  c.check(static_cast<int>(r->fvnsim.size()) == bands && static_cast<int>(r->center_freq_bands.size()) == bands, "bands", "%zu bands", r->fvnsim.size());
  for (auto& p : r->debug_info.patch_sims) {
    double s = 0;
    for (int k = 0; k < bands; k++) s += p.freq_band_means(k) / bands;
    c.check(Near(p.similarity, s, 1e-9, 1e-12), "patch-similarity", "%g, its bands' mean is %g", p.similarity, s);
  }
  for (int k = 1; k < bands; k++)
    c.check(r->center_freq_bands[k] > r->center_freq_bands[k - 1], "centres", "band centres are not ascending");
}

// What the manager hands out is that result, complete, with nothing left out
// or mixed up; among the patches are some without a counterpart.
SCENARIO_T(message, 60) {
  const Mode& mode = Modes()[c.choose("mode", 4)];
  const bool align = c.flag("align"), realign = c.flag("realign");
  const int radius = c.pick("radius", std::vector<int>{0, 1});
  const double slope = c.pick("slope", std::vector<double>{0.5, 0.9, 1.4});
  const int pattern = c.choose("opposed", c.tier(8, 16));
  const size_t rate = 1000;
  const int frames = mode.speech ? 20 : 30, hop = 20, pieces = c.tier(3, 4);
  // Dull noise that swells; in the opposed pieces and after the end the degraded
  // signal is bright noise that fades, so that nothing there is alike.
  const int len = hop * (15 + frames * pieces) + 140, more = len + hop * frames * 3 / 2;
  const auto n1 = Signal(kNoise, more, rate, 3), n2 = Signal(kNoise, more, rate, 8);
  std::vector<double> a(more), b(more);
  double dull = 0, bright = 0;
  for (int i = 0; i < more; i++) {
    const int piece = std::min(pieces - 1, std::max(0, (i / hop - (mode.speech ? 0 : 14)) / frames));
    const double swell = pow(10, slope * i / (frames * hop));
    dull = 0.9 * dull + 100 * n1[i];
    bright = -0.9 * bright + 100 * n2[i];
    a[i] = dull * swell;
    b[i] = i >= len || pattern >> piece & 1 ? bright * 1000 / swell : a[i] * (1 + 0.01 * n2[i]);
  }
  a.resize(len);
  if (align) b.insert(b.begin(), 30, 0.0);
  Visqol::VisqolManager& m = Manager(mode, !align, !realign, radius);
  const auto got = Compare(m, a, b, rate);
  const AudioSignal ref = ToSignal(a, rate);
  AudioSignal deg = ToSignal(b, rate);
  double lag = 0;
  if (align) std::tie(deg, lag) = Visqol::Alignment::GloballyAlign(ref, deg);
  const AnalysisWindow w(rate, 0.25);
  std::unique_ptr<Visqol::SimilarityToQualityMapper> map;
  if (!mode.speech) map = std::make_unique<Visqol::SvrSimilarityToQualityMapper>(Visqol::FilePath(SvrModel()));
  else if (mode.lattice) map = std::make_unique<Visqol::TFLiteQualityMapper>(LatticeModel(), 21);
  else map = std::make_unique<Visqol::SpeechSimilarityToQualityMapper>(!mode.unscaled);
  if (!map->Init().ok()) c.fail("mapper", "the mapping cannot be set up");
  auto sb = Gammatone(mode.speech);
  auto cr = Creator(mode.speech);
  auto se = Selector();
  const auto r = Visqol::Visqol().CalculateSimilarity(ref, deg, sb.get(), w, cr.get(), se.get(), map.get(), radius, !realign);
  c.check(got.ok() == r.ok(), "status", "the manager %s, its parts %s", got.ok() ? "gives a result" : "fails", r.ok() ? "give one" : "fail");
  c.note("%s, align %d, realign %d, radius %d, slope %g, opposed pieces %#x", mode.name, align, realign, radius, slope, pattern);
  if (!r.ok()) { c.trivial(); return; }
  auto same = [&](const char* what, double x, double y) { c.check(x == y, what, "%s is %.17g in the message, %.17g in the result", what, x, y); };
  auto list = [&](const char* what, const auto& x, const std::vector<double>& y) {
    c.check(x.size() == static_cast<int>(y.size()), what, "%d values of %s, %zu in the result", x.size(), what, y.size());
    for (int i = 0; i < x.size(); i++) same(what, x.Get(i), y[i]);
  };
  same("moslqo", got->moslqo(), r->moslqo);
  same("vnsim", got->vnsim(), r->vnsim);
  same("lag", got->alignment_lag_s(), lag);
  list("fvnsim", got->fvnsim(), r->fvnsim);
  list("fvnsim10", got->fvnsim10(), r->fvnsim10);
  list("fstdnsim", got->fstdnsim(), r->fstdnsim);
  list("fvdegenergy", got->fvdegenergy(), r->fvdegenergy);
  list("center_freq_bands", got->center_freq_bands(), r->center_freq_bands);
  const auto& p = r->debug_info.patch_sims;
  c.check(got->patch_sims_size() == static_cast<int>(p.size()), "patches", "%d patches in the message, %zu in the result", got->patch_sims_size(), p.size());
  int lost = 0;
  std::vector<double> sum(p[0].freq_band_means.NumRows());
  for (size_t i = 0; i < p.size(); i++) {
    const auto& q = got->patch_sims(i);
    same("similarity", q.similarity(), p[i].similarity);
    same("ref_patch_start_time", q.ref_patch_start_time(), p[i].ref_patch_start_time);
    same("ref_patch_end_time", q.ref_patch_end_time(), p[i].ref_patch_end_time);
    same("deg_patch_start_time", q.deg_patch_start_time(), p[i].deg_patch_start_time);
    same("deg_patch_end_time", q.deg_patch_end_time(), p[i].deg_patch_end_time);
    list("freq_band_means", q.freq_band_means(), p[i].freq_band_means.ToVector());
    lost += q.similarity() == 0 && q.deg_patch_end_time() == 0;
    for (size_t k = 0; k < sum.size(); k++) sum[k] += q.freq_band_means(k) / p.size();
  }
  for (size_t k = 0; k < sum.size(); k++)
    c.check(Near(got->fvnsim(k), sum[k], 1e-9, 1e-12), "fvnsim", "band %zu: %g, the patches' mean is %g", k, got->fvnsim(k), sum[k]);
  c.note("%d of %zu patches lost", lost, p.size());
  c.outcome(lost * 100 + p.size());
}
