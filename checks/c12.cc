// variant: sched
// Instances used by different threads do not affect each other: every schedule
// of a few threads, up to a number of preemptions, gives each thread what it
// gets alone, without a data race or a deadlock.
#include <array>

#include "checks/pipeline.h"
#include "checks/session.h"
#include "mc/sched.h"
#include "alignment.h"
#include "misc_audio.h"
#include "sim_results_writer.h"
#include "src/proto/visqol_config.pb.h"
#include "support_vector_regression_model.h"
#include "svr_similarity_to_quality_mapper.h"
#include "visqol_api.h"

using namespace vt;

namespace {
const bool g_set = [] {
  mc::g_fresh_process = true;
  mc::g_memory_limit = 24ull << 30;
  return true;
}();

struct Pair {
  std::vector<double> a, b;
  size_t rate;
};
const std::array<Pair, 2>& Pairs() {
  static const std::array<Pair, 2> p = [] {
    auto n = Signal(kNoise, 790, 800, 3);
    auto m = Signal(kBursts, 801, 800, 4);
    return std::array<Pair, 2>{Pair{n, Damaged(n, kDropout, 800), 800}, Pair{m, Damaged(Damaged(m, kClip, 800), kDelay, 800), 800}};
  }();
  return p;
}
std::string Say(const absl::StatusOr<Visqol::SimilarityResultMsg>& r) {
  return r.ok() ? "result " + r->SerializeAsString() : "status " + std::to_string(static_cast<int>(r.status().code()));
}
std::string RunManager(const Mode& m, const Pair& p, bool align) {
  Visqol::VisqolManager v;
  const auto s = InitAs(&v, m, !align, !align, 0);
  if (!s.ok()) return "init failed";
  return Say(Compare(v, p.a, p.b, p.rate));
}
std::string RunApi(bool speech, const Pair& p) {
  Visqol::VisqolApi api;
  Visqol::VisqolConfig cfg;
  cfg.mutable_audio()->set_sample_rate(p.rate);
  auto* o = cfg.mutable_options();
  o->set_use_speech_scoring(speech);
  o->set_allow_unsupported_sample_rates(true);
  o->set_search_window_radius(1);
  o->set_use_lattice_model(speech);
  o->set_svr_model_path(speech ? LatticeModel() : SvrModel());
  if (!api.Create(cfg).ok()) return "create failed";
  auto a = p.a, b = p.b;
  return Say(api.Measure(absl::MakeSpan(a), absl::MakeSpan(b)));
}
// Runs the jobs as threads and compares with what each gives alone.
void Judge(mc::Ctx& c, const std::vector<std::function<std::string()>>& jobs, int bound) {
  std::vector<std::string> alone(jobs.size()), got(jobs.size());
  std::vector<std::function<void()>> bodies;
  for (size_t i = 0; i < jobs.size(); i++) bodies.push_back([&, i] { got[i] = jobs[i](); });
  const auto st = mc::RunThreads(c, bodies, bound);
  for (size_t i = 0; i < jobs.size(); i++) alone[i] = jobs[i]();
  for (size_t i = 0; i < jobs.size(); i++)
    c.check(got[i] == alone[i], "differs", "thread %d got another result than alone (%zu and %zu bytes)", static_cast<int>(i), got[i].size(),
            alone[i].size());
  c.count(st.points);
  c.outcome(mc::hash(got[0]) ^ st.points);
  c.note("%d scheduling points, %d switches, %d preemptions, %lu accesses", st.points, st.switches, st.preemptions, st.accesses);
}
}  // namespace


// One thread uses a part in one way while another goes through many ways:
// whatever is kept for later must not be taken away from who still uses it.
SCENARIO_T(many_kinds, 60) {
  const int what = c.choose("part", 4);
  const int kinds = c.pick("ways", std::vector<int>{3, 20, 70});
  auto use = [&](int k) -> std::string {
    std::vector<double> out;
    switch (what) {
      case 0: {
        const size_t rate = 100 + 13 * (k / 2);
        auto sb = Visqol::GammatoneSpectrogramBuilder(Visqol::GammatoneFilterBank{size_t(k & 1 ? 3 : 4), 20}, k % 3 == 0);
        const auto r = sb.Build(Sig(Signal(kNoise, rate * 0.08 + 8, rate, k), rate), Visqol::AnalysisWindow(rate, 0.25, 0.08));
        if (r.ok()) out = r->Data().ToVector();
        for (double d : r.ok() ? r->GetCenterFreqBands() : std::vector<double>()) out.push_back(d);
        break;
      }
      case 1: {
        const Visqol::AnalysisWindow w(100 + 30 * k, 0.25, 0.08);
        const std::valarray<double> f(0.5, w.size);
        for (double d : w.ApplyHannWindow(f)) out.push_back(d);
        break;
      }
      case 2: {
        const auto a = Signal(kNoise, 20 + 3 * k, 800, k), b = Signal(kNoise, 22 + 3 * k, 800, k);
        auto d = Sig(b, 800);
        const auto r = Visqol::Alignment::GloballyAlign(Sig(a, 800), d);
        out = FromSignal(std::get<0>(r));
        out.push_back(std::get<1>(r));
        break;
      }
      case 3: {
        const int n = 2 + k % 5, m = 2 + k / 5;
        AMatrix<double> a(n, m), b(n, m);
        for (int i = 0; i < n * m; i++) a(i) = i % 7 + 0.1 * k, b(i) = i % 5;
        const auto r = Visqol::NeurogramSimiliarityIndexMeasure().MeasurePatchSimilarity(a, b);
        out = r.freq_band_means.ToVector();
        out.push_back(r.similarity);
        break;
      }
    }
    return std::string(reinterpret_cast<char*>(out.data()), out.size() * 8) + std::to_string(out.size());
  };
  const bool twice = c.flag("other way after");
  Judge(c, {[&] { return use(0) + (twice ? use(1) + use(0) : ""); },
            [&] { std::string s; for (int k = 1; k <= kinds; k++) s += use(k); return s; }}, c.tier(2, 3));
}

SCENARIO_T(two_managers, 120) {
  // Each with its own instance, from initialisation to result.
  const int a = c.choose("mode of thread 0", Modes().size());
  const int b = c.choose("mode of thread 1", Modes().size());
  if (b < a) c.skip();
  Judge(c, {[&] { return RunManager(Modes()[a], Pairs()[0], false); }, [&] { return RunManager(Modes()[b], Pairs()[1], false); }}, c.tier(1, 3));
}

SCENARIO_T(two_managers_aligning, 120) {
  const int a = c.choose("mode of both", c.tier(2, 4));
  Judge(c, {[&] { return RunManager(Modes()[a], Pairs()[0], true); }, [&] { return RunManager(Modes()[a], Pairs()[1], true); }}, c.tier(0, 2));
}

SCENARIO_T(initialising, 60) {
  // Threads that only initialise, with different models or a missing one.
  const int n = c.choose("threads", 2) + 2;
  std::vector<std::function<std::string()>> jobs;
  int last = 0;
  for (int i = 0; i < n; i++) {
    const int k = c.choose("what", 4);
    if (k < last) c.skip();
    last = k;
    jobs.push_back([k] {
      Visqol::VisqolManager v;
      if (k == 3) return std::to_string(v.Init(Visqol::FilePath("/nonexistent"), false, false, 60, false, false, false).ok());
      return std::to_string(InitAs(&v, Modes()[k]).ok());
    });
  }
  Judge(c, jobs, n == 2 ? c.tier(3, 5) : c.tier(1, 2));
}

SCENARIO_T(two_apis, 120) {
  const int a = c.choose("speech in thread 0", 2), b = c.choose("speech in thread 1", 2);
  if (b < a) c.skip();
  Judge(c, {[&] { return RunApi(a, Pairs()[0]); }, [&] { return RunApi(b, Pairs()[1]); }}, c.tier(1, 2));
}

SCENARIO_T(shared_reference, 120) {
  // Two instances initialised beforehand compare different signals with the
  // same reference object.
  const int a = c.choose("mode", Modes().size());
  Visqol::VisqolManager v[2];
  for (auto& x : v) InitAs(&x, Modes()[a], true, true, 0).IgnoreError();
  const auto ref = Sig(Pairs()[0].a, 800);
  std::vector<std::function<std::string()>> jobs;
  for (int i = 0; i < 2; i++)
    jobs.push_back([&, i] {
      auto d = Sig(i ? Pairs()[0].a : Pairs()[0].b, 800);
      return Say(v[i].Run(ref, d));
    });
  Judge(c, jobs, c.tier(2, 4));
}

SCENARIO_T(shared_parts, 60) {
  // The parts whose methods are const or static, used by three threads at once.
  const int what = c.choose("part", 9);
  Visqol::SvrSimilarityToQualityMapper svr((Visqol::FilePath(SvrModel())));
  Visqol::NeurogramSimiliarityIndexMeasure nsim;
  Visqol::AnalysisWindow win(800, 0.25, 0.08);
  const auto img = Creator(false), vad = Creator(true);
  const auto sel = Selector();
  const std::string dir = c.scratch();
  const auto sig = Sig(Pairs()[0].a, 800);
  AMatrix<double> spec(21, 60), spec2(21, 60);
  Lcg g(5);
  for (int i = 0; i < 21; i++)
    for (int j = 0; j < 60; j++) spec(i, j) = 40 * g.uni(), spec2(i, j) = 40 * g.uni();
  std::vector<ImagePatch> rp, dp;
  if (what == 0) c.check(svr.Init().ok(), "setup", "the model loads");
  if (what == 1) {
    rp = img->CreatePatchesFromIndices(spec, {0, 10});
    dp = img->CreatePatchesFromIndices(spec2, {0, 10});
  }
  if (what == 6) WriteFile(dir + "/a.wav", Wav(WavSpec(), Quantise(Pairs()[0].a)));
  auto job = [&](int i) -> std::string {
    std::vector<double> out;
    switch (what) {
      case 0: {
        const std::vector<double> x(32, 0.9 - 0.1 * i);
        for (int k = 0; k < 3; k++) out.push_back(svr.PredictQuality(x, x, x, x));
        break;
      }
      case 1: {
        const auto r = nsim.MeasurePatchSimilarity(rp[i & 1], dp[i & 1]);
        for (auto& m : {r.freq_band_means, r.freq_band_stddevs}) for (double d : m.ToVector()) out.push_back(d);
        out.push_back(r.similarity);
        break;
      }
      case 2: {
        const std::valarray<double> f(0.5 + 0.1 * i, win.size);
        for (double d : win.ApplyHannWindow(f)) out.push_back(d);
        break;
      }
      case 3: {
        const auto r = (i & 1 ? vad : img)->CreateRefPatchIndices(spec, sig, win);
        if (r.ok()) for (size_t k : *r) out.push_back(k);
        break;
      }
      case 4: {
        auto d = Sig(Pairs()[i & 1].b, 800);
        const auto r = Visqol::Alignment::AlignAndTruncate(sig, d);
        for (double x : FromSignal(std::get<1>(r))) out.push_back(x);
        out.push_back(std::get<2>(r));
        break;
      }
      case 5: {
        const auto r = Gammatone(i & 1)->Build(sig, win);
        if (r.ok()) for (double x : r->Data().ToVector()) out.push_back(x);
        break;
      }
      case 6: out = FromSignal(Visqol::MiscAudio::LoadAsMono(Visqol::FilePath(dir + "/a.wav"))); break;
      case 7: {
        const std::string f = dir + "/r" + std::to_string(i);
        Visqol::SimilarityResultMsg m;
        m.set_moslqo(3.5 + i);
        for (int k = 0; k < 5; k++) m.add_fvnsim(0.1 * k + i);
        Visqol::SimilarityResultsWriter::Write(false, Visqol::FilePath(f + ".csv"), Visqol::FilePath(f + ".json"), m, i & 1, false);
        std::string s = ReadFile(f + ".csv") + ReadFile(f + ".json");
        std::remove((f + ".csv").c_str());
        std::remove((f + ".json").c_str());
        return s;
      }
      case 8: {
        const auto r = Visqol::MiscAudio::ScaleToMatchSoundPressureLevel(sig, Sig(Pairs()[i & 1].b, 800));
        out = FromSignal(r);
        break;
      }
    }
    return std::string(reinterpret_cast<char*>(out.data()), out.size() * 8) + std::to_string(out.size());
  };
  const int n = c.choose("threads", 2) + 2;
  std::vector<std::function<std::string()>> jobs;
  for (int i = 0; i < n; i++) jobs.push_back([&, i] { return job(i); });
  Judge(c, jobs, n == 2 ? c.tier(3, 5) : c.tier(1, 3));
}

// The same with whole managers.
SCENARIO_T(many_managers, 60) {
  auto use = [&](int k) -> std::string {
    const size_t rate = 400 + 50 * (k / 4);
    const auto a = Signal(kNoise, rate + 30, rate, k);
    Visqol::VisqolManager v;
    if (!InitAs(&v, Modes()[k % 4], true, true, 0).ok()) return "init failed";
    return Say(Compare(v, a, Damaged(a, kHold, rate), rate));
  };
  const bool twice = c.flag("other way after");
  Judge(c, {[&] { return use(0) + (twice ? use(1) + use(0) : ""); },
            [&] { std::string s; for (int k = 1; k <= 9; k++) s += use(k); return s; }}, c.tier(1, 2));
}
