// variant: fast asan
// The mapping of similarities to a quality between 1 and 5.
#include <sys/stat.h>

#include "checks/pipeline.h"
#include "checks/session.h"
#include "speech_similarity_to_quality_mapper.h"
#include "svr_similarity_to_quality_mapper.h"
#include "tensorflow/lite/interpreter.h"
#include "tflite_quality_mapper.h"

using namespace vt;

namespace {
typedef long double R;
// The support vector model as its file says.
struct Svr {
  R gamma = 0, rho = 0;
  std::vector<R> weight;
  std::vector<std::vector<R>> at;
  explicit Svr(const std::string& path) {
    std::ifstream f(path);
    std::string line;
    bool sv = false;
    while (getline(f, line)) {
      std::istringstream s(line);
      std::string w;
      s >> w;
      if (!sv) {
        if (w == "gamma") s >> gamma;
        if (w == "rho") s >> rho;
        if (w == "SV") sv = true;
        continue;
      }
      weight.push_back(strtold(w.c_str(), nullptr));
      at.emplace_back(32, 0);
      while (s >> w) {
        const int i = atoi(w.c_str());
        if (i >= 1 && i <= 32) at.back()[i - 1] = strtold(w.c_str() + w.find(':') + 1, nullptr);
      }
    }
  }
  R Predict(const std::vector<double>& x) const {
    R y = -rho;
    for (size_t k = 0; k < at.size(); k++) {
      R d = 0;
      for (size_t i = 0; i < 32; i++) d += (x[i] - at[k][i]) * (x[i] - at[k][i]);
      y += weight[k] * expl(-gamma * d);
    }
    return y;
  }
};
const Svr& Model() {
  static const Svr m(SvrModel());
  return m;
}
R Clamp(R v) { return std::min<R>(5, std::max<R>(1, v)); }
R Exponential(R mean, bool scaled) { return Clamp((-262.847869L + expl(0.0154302525L * (mean - -361.063949L))) * (scaled ? (R)1.245063f : 1)); }

Visqol::SvrSimilarityToQualityMapper& SvrMapper() {
  static auto* m = [] {
    auto* x = new Visqol::SvrSimilarityToQualityMapper(Visqol::FilePath(SvrModel()));
    if (!x->Init().ok()) abort();
    return x;
  }();
  return *m;
}
void JudgeSvr(mc::Ctx& c, const std::vector<double>& v, const std::vector<double>& other) {
  const double got = SvrMapper().PredictQuality(v, other, other, other);
  const R want = Clamp(Model().Predict(v));
  c.check(fabsl(got - want) < 1e-9L, "audio-value", "quality %.15g, expected %.15Lg", got, want);
  c.check(got >= 1 && got <= 5, "range", "quality %g", got);
}
}  // namespace

// Audio mode: every band at every level, on several bases.
SCENARIO_T(audio_bands, 60) {
  const double base = c.pick("base", std::vector<double>{1, 0.97, 0.9, 0.75, 0.5, 0.2, 0});
  const int a = c.choose("band", 32), b = c.choose("other", 32);
  if (b < a) c.skip();
  std::vector<double> v(32, base), other(32, 0.5);
  for (double x : {-0.4, 0.0, 0.3, 0.6, 0.8, 0.93, 0.99, 1.0}) {
    v[a] = x;
    for (double y : {0.1, 0.7, 0.95, 1.0}) {
      v[b] = y;
      JudgeSvr(c, v, other);
    }
  }
  // Only the means over the patches count.
  const double q = SvrMapper().PredictQuality(v, other, other, other);
  for (double x : {-1.0, 0.0, 1.0, 60.0}) {
    std::vector<double> w(32, x);
    c.check(SvrMapper().PredictQuality(v, w, other, other) == q && SvrMapper().PredictQuality(v, other, w, other) == q && SvrMapper().PredictQuality(v, other, other, w) == q, "audio-inputs",
            "the quality in audio mode depends on more than the mean similarities");
  }
  c.count(35);
  c.outcome(q);
}

// Audio mode: profiles over all bands.
SCENARIO(audio_profiles) {
  std::vector<double> v;
  const std::vector<double> levels = {1, 0.95, 0.8, 0.4, -0.2};
  std::vector<double> four;
  for (int i = 0; i < 4; i++) four.push_back(c.pick("level", levels));
  for (int kind = 0; kind < 3; kind++) {
    v.clear();
    for (int i = 0; i < 32; i++) {
      const double p = i / 32.0 * 3;
      v.push_back(kind == 0 ? four[i / 8] : kind == 1 ? four[i % 4] : four[int(p)] + (p - int(p)) * (four[std::min(3, int(p) + 1)] - four[int(p)]));
    }
    JudgeSvr(c, v, std::vector<double>(32, 0));
  }
  c.count(2);
}

// Every support vector itself, and its neighbours.
SCENARIO(audio_support) {
  const int k = c.choose("vector", 317);
  c.check(Model().at.size() == 317, "model", "the model has %zu vectors", Model().at.size());
  for (double d : {0.0, 0.05, -0.2}) {
    std::vector<double> v;
    for (R x : Model().at[k]) v.push_back(x + d);
    JudgeSvr(c, v, v);
  }
  c.count(2);
}

// Speech mode: all means, with and without scaling.
SCENARIO(speech) {
  const bool scaled = c.flag("scaled");
  const Visqol::SpeechSimilarityToQualityMapper m(scaled);
  const int part = c.choose("part", 300);
  double before = -1;
  const std::vector<double> none(21, 0.3);
  for (int i = -1; i < c.tier(100, 1000); i++) {
    const double mean = -1.5 + (part + i / static_cast<double>(c.tier(100, 1000))) * 0.01;
    for (int kind = 0; kind < 3; kind++) {
      std::vector<double> v(21, mean);
      if (kind == 1) v[3] += 0.3, v[20] -= 0.3;
      if (kind == 2)
        for (int b = 0; b < 20; b++) v[b] += b % 2 ? 0.25 : -0.25;
      const double got = m.PredictQuality(v, none, none, none);
      const R want = Exponential(mean, scaled);
      c.check(fabsl(got - want) < 1e-8L, "speech-value", "mean similarity %.12g: quality %.15g, expected %.15Lg", mean, got, want);
      c.check(got >= 1 && got <= 5, "range", "quality %g", got);
      if (kind == 0) {
        c.check(got >= before, "order", "mean similarity %.12g: quality %.15g, less than at a lower one (%.15g)", mean, got, before);
        before = got;
      }
    }
  }
  // Only the means over the patches count.
  std::vector<double> v(21, 0.8), w(21, -3);
  const double q = m.PredictQuality(v, none, none, none);
  c.check(m.PredictQuality(v, w, none, none) == q && m.PredictQuality(v, none, w, none) == q && m.PredictQuality(v, none, none, w) == q, "speech-inputs",
          "the quality depends on more than the mean similarities");
  c.count(302);
}
SCENARIO(speech_ends) {
  const bool scaled = c.flag("scaled");
  const Visqol::SpeechSimilarityToQualityMapper m(scaled);
  const int n = 1 + c.choose("bands", 40);
  const std::vector<double> v(n, 1.0);
  const double best = m.PredictQuality(v, v, v, v);
  c.check(scaled ? fabs(best - 5) < 1e-4 : fabs(best - 4) < 0.2, "best", "the best quality is %g", best);
  for (double x : {-1e6, -1.0, 0.0, 1.0, 2.0, 1e4})
    for (int b = 0; b < n; b++) {
      auto w = v;
      w[b] = x;
      const double q = m.PredictQuality(w, v, v, v);
      c.check(fabsl(q - Exponential((n - 1 + x) / n, scaled)) < 1e-7L, "bands", "%d bands, band %d at %g: quality %.12g", n, b, x, q);
    }
  c.count(6 * n);
}

// The mapping of the configured mode is applied, and nothing below 1 or above 5.
SCENARIO_T(used, 60) {
  const Mode& mode = c.pick("mode", Modes());
  const int shape = c.choose("signal", kSilence), damage = c.choose("damage", kDamages);
  const size_t rate = 1000;
  const int n = 3 * rate;
  const auto ref = Signal(shape, n, rate, 2);
  std::map<std::string, float> seen;
  const float answer = 2.125f;
  tflite_shim::predict = [&](const std::map<std::string, float>& in) { seen = in; return answer; };
  const auto r = Compare(Manager(mode), ref, Damaged(ref, damage, rate), rate);
  tflite_shim::predict = nullptr;
  if (!r.ok()) {
    c.trivial();
    return;
  }
  const std::vector<double> v(r->fvnsim().begin(), r->fvnsim().end());
  R mean = 0;
  for (double x : v) mean += x / v.size();
  c.check(mode.lattice == !seen.empty(), "which", "%s: the lattice model was %sused", mode.name, seen.empty() ? "not " : "");
  R want = mode.lattice ? answer : mode.speech ? Exponential(mean, !mode.unscaled) : Clamp(Model().Predict(v));
  if (fabsl(mean - 0.15L) < 1e-9L) return;
  if (mean < 0.15L) want = 1;
  c.check(fabsl(r->moslqo() - want) < 1e-8L, "quality", "%s: quality %.12g, expected %.12Lg from the similarities", mode.name, r->moslqo(), want);
  c.outcome(r->moslqo());
  c.note("%s, %s with %s: %.4f", mode.name, ShapeName(shape), DamageName(damage), r->moslqo());
}

// A model file that cannot be used is an error.
SCENARIO(model_file) {
  const int kind = c.choose("file", 7);
  const bool through_manager = c.flag("manager");
  const std::string p = c.scratch() + "/model.txt";
  const char* text = kind == 0 ? nullptr : kind == 1 ? "" : kind == 2 ? "svm_type nu_svr\nkernel_type nonsense\nSV\n" : kind == 3 ? "nothing of the kind\n"
                   : kind == 4 ? "svm_type unknown\nkernel_type rbf\n" : nullptr;
  std::string path = kind == 5 ? c.scratch() : kind == 6 ? p + "/below" : p;
  if (text) std::ofstream(p) << text;
  absl::Status s;
  if (through_manager) {
    Visqol::VisqolManager m;
    s = m.Init(Visqol::FilePath(path), false, false, 60, false, false, false);
    const auto ref = Signal(kNoise, 2000, 1000);
    if (!s.ok()) c.check(!Compare(m, ref, ref, 1000).ok(), "used", "a comparison succeeded without a model");
  } else {
    Visqol::SvrSimilarityToQualityMapper m{Visqol::FilePath(path)};
    s = m.Init();
  }
  c.note("kind %d: %s", kind, s.ToString().c_str());
  if (kind == 1) return;  // libsvm takes an empty file as an empty model or refuses it
  c.check(!s.ok(), "accepted", "a model file of kind %d was accepted", kind);
  c.check(s.message().find(path) != absl::string_view::npos, "unnamed", "the error does not name the file: %s", s.ToString().c_str());
}
