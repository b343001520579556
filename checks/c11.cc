// variant: fast
// No result depends on what an instance did before: every sequence of
// initialisations and comparisons, with failing ones among them, gives what a
// fresh instance gives.
#include <array>

#include "checks/pipeline.h"
#include "checks/session.h"
#include "src/proto/visqol_config.pb.h"
#include "visqol_api.h"

using namespace vt;
using Visqol::VisqolManager;

namespace {
struct Pair {
  const char* name;
  std::vector<double> a, b;
  size_t ra, rb;
};
const std::vector<Pair>& Pairs() {
  static const std::vector<Pair> p = [] {
    std::vector<Pair> v;
    auto n = Signal(kNoise, 790, 800, 3);
    v.push_back({"noise with a dropout", n, Damaged(n, kDropout, 800), 800, 800});
    auto m = Signal(kBursts, 1001, 1000, 4);
    v.push_back({"delayed and clipped bursts at 1000 Hz", m, Damaged(Damaged(m, kClip, 1000), kDelay, 1000), 1000, 1000});
    v.push_back({"different rates", n, n, 800, 1000});
    v.push_back({"a reference that is too short", std::vector<double>(n.begin(), n.begin() + 200), n, 800, 800});
    v.push_back({"a silent reference", std::vector<double>(790, 0.0), n, 800, 800});
    v.push_back({"an empty degraded signal", n, {}, 800, 800});
    auto l = Signal(kChirp, 1500, 800, 1), paused = l;
    paused.insert(paused.begin() + 850, 700, 0.0);  // found only with a large search window
    v.push_back({"a long signal with a pause", l, paused, 800, 800});
    return v;
  }();
  return p;
}
struct Cfg {
  const char* name;
  Mode mode;
  bool ng, nr;
  int radius;
  bool missing;  // the model file does not exist
};
const std::vector<Cfg>& Cfgs() {
  static const std::vector<Cfg> v = {
      {"audio", Modes()[0], false, false, 0, false},
      {"lattice speech", Modes()[1], false, false, 60, false},
      {"scaled speech, no alignment", Modes()[2], true, true, 1, false},
      {"unscaled speech", Modes()[3], false, true, 1, false},
      {"audio without its model", Modes()[0], false, false, 1, true},
      {"lattice without its model", Modes()[1], false, false, 1, true},
  };
  return v;
}
absl::Status InitWith(VisqolManager* m, const Cfg& k) {
  return m->Init(Visqol::FilePath(k.missing ? "/nonexistent/model" : ModelOf(k.mode)), k.mode.speech, k.mode.unscaled, k.radius, k.mode.lattice, k.ng, k.nr);
}
std::string Say(const absl::StatusOr<Visqol::SimilarityResultMsg>& r) {
  return r.ok() ? "result " + r->SerializeAsString() : "status " + std::to_string(static_cast<int>(r.status().code()));
}
std::string RunPair(VisqolManager* m, const Pair& p, mc::Ctx& c) {
  const auto ref = Sig(p.a, p.ra);
  auto deg = Sig(p.b, p.rb);
  const std::string s = Say(m->Run(ref, deg));
  c.check(ref.data_matrix.ToVector() == p.a && ref.sample_rate == p.ra, "reference-changed", "a comparison changed its reference");
  return s;
}
// What a fresh instance answers in a process that has done nothing else.
std::string g_fresh[8][8];
const mc::Prelude g_prelude([] {
  for (size_t k = 0; k < Cfgs().size(); k++) {
    if (Cfgs()[k].missing) continue;
    for (size_t p = 0; p < Pairs().size(); p++) {
      g_fresh[k][p] = mc::InChild([&] {
        VisqolManager m;
        (void)InitWith(&m, Cfgs()[k]);
        const auto ref = Sig(Pairs()[p].a, Pairs()[p].ra);
        auto deg = Sig(Pairs()[p].b, Pairs()[p].rb);
        return Say(m.Run(ref, deg));
      });
    }
  }
});
constexpr int kLengths = 47;
int LengthOf(int k) { return 430 + 37 * k; }
std::string OfLength(VisqolManager* m, int k) {
  const auto a = Signal(kNoise, LengthOf(k), 800, 5);
  const auto ref = Sig(a, 800);
  auto deg = Sig(Damaged(a, k % 2 ? kDropout : kClip, 800), 800);
  return Say(m->Run(ref, deg));
}
std::string g_lengths[4][kLengths];
const mc::Prelude g_prelude_lengths([] {
  for (int k = 0; k < 4; k++) {
    for (int p = 0; p < kLengths; p++) {
      g_lengths[k][p] = mc::InChild([&] {
        VisqolManager m;
        (void)InitWith(&m, Cfgs()[k]);
        return OfLength(&m, p);
      });
    }
  }
});
const std::string kAborted = "status " + std::to_string(static_cast<int>(absl::StatusCode::kAborted));

void Expect(mc::Ctx& c, const std::string& got, int cfg, int pair) {
  const std::string& want = cfg >= 0 && !Cfgs()[cfg].missing ? g_fresh[cfg][pair] : kAborted;
  c.check(got == want, got[0] == 'r' && want[0] == 'r' ? "result-depends-on-history" : "status-depends-on-history",
          "%s after this history differs from a fresh instance: %s, expected %s", Pairs()[pair].name,
          got[0] == 'r' ? "other values" : got.c_str(), want[0] == 'r' ? "a result" : want.empty() ? "a crash" : want.c_str());
}

// Configurations of the API object.
struct ApiCfg {
  const char* name;
  int rate, cfg_for_model;  // -1: the proto lacks audio
  bool speech, unscaled, lattice, allow, missing;
};
const ApiCfg kApi[] = {
    {"audio at 800 Hz", 800, 0, false, false, false, true, false},
    {"lattice at 1000 Hz", 1000, 1, true, false, true, false, false},
    {"unscaled at 800 Hz", 800, 3, true, true, false, false, false},
    {"audio at 1000 Hz, not allowed", 1000, 0, false, false, false, false, false},
    {"no audio info", -1, 0, false, false, false, false, false},
    {"rate 0", 0, 0, true, false, false, false, false},
    {"a missing model", 1000, 1, true, false, true, false, true},
};
constexpr int kApis = 7;
const int kApiPairs[] = {0, 1, 3, 6};
absl::Status Create(Visqol::VisqolApi* api, const ApiCfg& k) {
  Visqol::VisqolConfig cfg;
  if (k.rate >= 0) cfg.mutable_audio()->set_sample_rate(k.rate);
  auto* o = cfg.mutable_options();
  o->set_use_speech_scoring(k.speech);
  o->set_use_unscaled_speech_mos_mapping(k.unscaled);
  o->set_use_lattice_model(k.lattice);
  o->set_allow_unsupported_sample_rates(k.allow);
  o->set_search_window_radius(1);
  o->set_svr_model_path(k.missing ? "/nonexistent/model" : k.speech ? LatticeModel() : SvrModel());
  return api->Create(cfg);
}
std::string g_fresh_api[3][8];
const mc::Prelude g_prelude_api([] {
  for (int k = 0; k < 3; k++) {
    for (int p : kApiPairs) {
      g_fresh_api[k][p] = mc::InChild([&] {
        Visqol::VisqolApi api;
        if (!Create(&api, kApi[k]).ok()) return std::string("not created");
        auto a = Pairs()[p].a, b = Pairs()[p].b;
        return Say(api.Measure(absl::Span<double>(a), absl::Span<double>(b)));
      });
    }
  }
});
}  // namespace

// One instance.
SCENARIO_T(manager, 60) {
  const int depth = c.tier(3, 4);
  VisqolManager m;
  int cfg = -1;
  std::string story;
  const int n = Cfgs().size(), np = Pairs().size();
  for (int i = 0; i < depth; i++) {
    const int op = c.choose("op", n + np);
    if (op < n) {
      const auto s = InitWith(&m, Cfgs()[op]);
      c.check(s.ok() == !Cfgs()[op].missing, "init", "Init as %s: %s", Cfgs()[op].name, s.ToString().c_str());
      cfg = op;
      story += std::string("init ") + Cfgs()[op].name + "; ";
    } else {
      story += std::string("compare ") + Pairs()[op - n].name + "; ";
      Expect(c, RunPair(&m, Pairs()[op - n], c), cfg, op - n);
    }
  }
  // At the end, everything is compared once more.
  for (int p = 0; p < np; p++) Expect(c, RunPair(&m, Pairs()[p], c), cfg, p);
  c.count(np - 1);
  c.outcome(mc::hash(story));
  c.note("%s", story.c_str());
}
// Long runs of the same comparison, and alternating ones.
SCENARIO_T(repeated, 60) {
  const int cfg = c.choose("config", 4), p = c.choose("pair", 2), q = c.choose("other", static_cast<int>(Pairs().size()));
  VisqolManager m;
  c.check(InitWith(&m, Cfgs()[cfg]).ok(), "init", "Init failed");
  for (int i = 0; i < 6; i++) {
    Expect(c, RunPair(&m, Pairs()[p], c), cfg, p);
    Expect(c, RunPair(&m, Pairs()[q], c), cfg, q);
  }
  c.outcome(cfg * 100 + p * 10 + q);
  c.note("%s: %s and %s, six times", Cfgs()[cfg].name, Pairs()[p].name, Pairs()[q].name);
}
// Many operations: every period of two operations, over and over, long enough for
// anything that fills up, wraps round or is forgotten after some number of uses.
SCENARIO_T(long_history, 100) {
  const int n = Cfgs().size(), np = Pairs().size(), reps = c.tier(24, 150);
  const int op[2] = {c.choose("first", n + np), c.choose("second", n + np)};
  const int start = c.choose("start", c.tier(2, 4));
  VisqolManager m;
  int cfg = start;
  (void)InitWith(&m, Cfgs()[start]);
  for (int i = 0; i < 2 * reps; i++) {
    const int o = op[i % 2];
    if (o < n) {
      (void)InitWith(&m, Cfgs()[o]);
      cfg = o;
    } else {
      Expect(c, RunPair(&m, Pairs()[o - n], c), cfg, o - n);
    }
  }
  for (int p = 0; p < np; p++) Expect(c, RunPair(&m, Pairs()[p], c), cfg, p);
  c.count(np + reps);
  c.outcome(mc::hash(std::to_string(op[0]) + "," + std::to_string(op[1]) + "," + std::to_string(cfg)));
  c.note("%d operations of kinds %d and %d from %s", 2 * reps, op[0], op[1], Cfgs()[start].name);
}
// Signals of many different lengths on one instance, in several orders.
SCENARIO_T(many_lengths, 100) {
  const int cfg = c.choose("config", 4), order = c.choose("order", 4);
  VisqolManager m;
  (void)InitWith(&m, Cfgs()[cfg]);
  for (int i = 0; i < kLengths; i++) {
    const int k = order == 0 ? i : order == 1 ? kLengths - 1 - i : order == 2 ? i * 17 % kLengths : (i % 2 ? i / 2 : kLengths - 1 - i / 2);
    c.check(OfLength(&m, k) == g_lengths[cfg][k], "result-depends-on-history", "%s: a comparison of %d samples after others of other lengths: another answer",
            Cfgs()[cfg].name, LengthOf(k));
  }
  c.count(kLengths);
  c.outcome(cfg * 10 + order);
  c.note("%s: %d lengths, order %d", Cfgs()[cfg].name, kLengths, order);
}
// Two instances side by side.
SCENARIO_T(two_managers, 60) {
  const int depth = c.tier(4, 6);
  VisqolManager m[2];
  int cfg[2] = {-1, -1};
  std::string story;
  // The first operation of each is its initialisation.
  for (int w = 0; w < 2; w++) {
    cfg[w] = c.choose("config", 4);
    c.check(InitWith(&m[w], Cfgs()[cfg[w]]).ok(), "init", "Init failed");
    story += std::string(Cfgs()[cfg[w]].name) + " beside ";
  }
  for (int i = 2; i < depth; i++) {
    const int w = c.choose("instance", 2), op = c.choose("op", 4);
    if (op == 3) {
      const int next = (cfg[w] + 1) % 6;
      (void)InitWith(&m[w], Cfgs()[next]);
      cfg[w] = next;
      story += "init " + std::to_string(w) + "; ";
    } else {
      const int p = op == 2 ? 3 : op;
      story += "compare " + std::to_string(p) + " on " + std::to_string(w) + "; ";
      Expect(c, RunPair(&m[w], Pairs()[p], c), cfg[w], p);
    }
  }
  for (int w = 0; w < 2; w++) Expect(c, RunPair(&m[w], Pairs()[0], c), cfg[w], 0);
  c.count(1);
  c.outcome(mc::hash(story));
  c.note("%s", story.c_str());
}
// Files give what their samples give, with the paths as they were given.
SCENARIO_T(files, 60) {
  const int cfg = c.choose("config", 4);
  const int first = c.choose("first", 2), second = c.choose("second", 2);
  VisqolManager m;
  c.check(InitWith(&m, Cfgs()[cfg]).ok(), "init", "Init failed");
  int k = 0;
  for (int p : {first, 2, second, 5, first}) {
    const Pair& q = Pairs()[p];
    WavSpec sa, sb;
    sa.rate = q.ra;
    sb.rate = q.rb;
    const std::string fa = c.scratch() + "/r" + std::to_string(k) + ".wav", fb = c.scratch() + "/d" + std::to_string(k) + ".wav";
    k++;
    const auto ia = Quantise(q.a), ib = Quantise(q.b);
    WriteFile(fa, Wav(sa, ia));
    WriteFile(fb, Wav(sb, ib));
    const std::string before = ReadFile(fa) + ReadFile(fb);
    auto r = m.Run(Visqol::FilePath(fa), Visqol::FilePath(fb));
    c.check(ReadFile(fa) + ReadFile(fb) == before, "file-changed", "a comparison changed its input file");
    Pair in = q;
    for (size_t i = 0; i < in.a.size(); i++) in.a[i] = ia[i] / 32768.0;
    for (size_t i = 0; i < in.b.size(); i++) in.b[i] = ib[i] / 32768.0;
    VisqolManager fresh;
    (void)InitWith(&fresh, Cfgs()[cfg]);
    const std::string want = RunPair(&fresh, in, c);
    if (r.ok()) {
      c.check(r->reference_filepath() == fa && r->degraded_filepath() == fb, "paths", "the result names %s and %s", r->reference_filepath().c_str(),
              r->degraded_filepath().c_str());
      r->clear_reference_filepath();
      r->clear_degraded_filepath();
    }
    c.check(Say(r) == want, "file-differs", "%s from files differs from the samples", q.name);
  }
  c.outcome(cfg * 100 + first * 10 + second);
  c.note("%s: files of pairs %d and %d", Cfgs()[cfg].name, first, second);
}
// The API object: configurations may follow each other, refused ones change nothing
// about the next accepted one.
SCENARIO_T(api, 60) {
  const int depth = c.tier(3, 4);
  auto measure = [&](Visqol::VisqolApi* api, const Pair& p) {
    auto a = p.a, b = p.b;
    absl::Span<double> sa(a), sb(b);
    const auto s = Say(api->Measure(sa, sb));
    c.check(a == p.a && b == p.b, "buffers-changed", "Measure changed the caller's samples");
    return s;
  };
  auto api = std::make_unique<Visqol::VisqolApi>();
  int cur = -1;  // the last accepted configuration; -2 after a failed initialisation
  std::string story;
  const int n = kApis;
  auto expect = [&](int p) {
    const std::string got = measure(api.get(), Pairs()[p]);
    const std::string want = cur >= 0 ? g_fresh_api[cur][p] : kAborted;
    c.check(got == want, "api-depends-on-history", "%s: %s, expected %s", Pairs()[p].name, got[0] == 'r' ? "other values" : got.c_str(),
            want[0] == 'r' ? "a result" : want.c_str());
  };
  for (int i = 0; i < depth; i++) {
    const int op = c.choose("op", n + 3);
    if (op < n) {
      const bool ok = Create(api.get(), kApi[op]).ok();
      c.check(ok == (op < 3), "create", "Create with %s %s", kApi[op].name, ok ? "succeeds" : "fails");
      // A refused configuration leaves things as they were; one whose model
      // cannot be loaded leaves an unusable instance.
      if (op < 3) cur = op;
      if (op == 6) cur = -2;
      story += std::string("create ") + kApi[op].name + "; ";
    } else {
      story += std::string("measure ") + Pairs()[kApiPairs[op - n]].name + "; ";
      expect(kApiPairs[op - n]);
    }
  }
  for (int p : kApiPairs) expect(p);
  c.count(3);
  c.outcome(mc::hash(story));
  c.note("%s", story.c_str());
}
// The parts an instance keeps: builder, patch creator.
namespace {
struct Bank { bool speech; size_t bands; double min; };
const Bank kBanks[] = {{false, 32, 50}, {true, 21, 50}, {false, 21, 50}, {true, 21, 80}};
constexpr int kBankCount = 4, kKinds = 6;
const std::pair<int, size_t> kPartSignals[kKinds] = {{kNoise, 800}, {kBursts, 1000}, {kChirp, 801}, {kSilence, 800}, {kNoise, 40}, {kDc, 1600}};
std::unique_ptr<Visqol::GammatoneSpectrogramBuilder> BuilderOf(const Bank& k) {
  return std::make_unique<Visqol::GammatoneSpectrogramBuilder>(Visqol::GammatoneFilterBank{k.bands, k.min}, k.speech);
}
AudioSignal PartSignal(int k) {
  const auto [shape, rate] = kPartSignals[k];
  return ToSignal(Signal(shape, rate * 3 / 2 + 20 * k, rate, 2), rate);
}
std::string Parts(Visqol::SpectrogramBuilder* b, const Visqol::ImagePatchCreator* cr, int k) {
  const auto s = PartSignal(k);
  const AnalysisWindow w{s.sample_rate, 0.25};
  const auto got = b->Build(s, w);
  if (!got.ok()) return "none";
  auto x = *got;
  std::string say = std::to_string(x.Data().NumRows()) + "x" + std::to_string(x.Data().NumCols()) + ":";
  auto add = [&](double d) { say.append(reinterpret_cast<const char*>(&d), sizeof d); };
  for (double d : x.Data().ToVector()) add(d);
  for (double d : x.GetCenterFreqBands()) add(d);
  const auto p = cr->CreateRefPatchIndices(x.Data(), s, w);
  if (!p.ok()) return say + "none";
  for (size_t i : *p) add(i);
  return say;
}
std::string g_parts[kBankCount][kKinds];
const mc::Prelude g_prelude_parts([] {
  for (int b = 0; b < kBankCount; b++)
    for (int k = 0; k < kKinds; k++)
      g_parts[b][k] = mc::InChild([&] { return Parts(BuilderOf(kBanks[b]).get(), Creator(kBanks[b].speech).get(), k); });
});
}  // namespace
SCENARIO_T(parts, 60) {
  const int depth = c.tier(3, 4);
  std::unique_ptr<Visqol::GammatoneSpectrogramBuilder> b[kBankCount];
  decltype(Creator(true)) cr[kBankCount];
  for (int i = 0; i < kBankCount; i++) {
    b[i] = BuilderOf(kBanks[i]);
    cr[i] = Creator(kBanks[i].speech);
  }
  std::string story;
  const int kinds = c.tier(4, 6);
  for (int i = 0; i < depth; i++) {
    const int op = c.choose("bank and signal", kBankCount * kinds), w = op / kinds, k = op % kinds;
    story += std::to_string(kBanks[w].bands) + (kBanks[w].speech ? " speech" : " audio") + " bands of " + ShapeName(kPartSignals[k].first) + "; ";
    c.check(Parts(b[w].get(), cr[w].get(), k) == g_parts[w][k], "part-history", "the spectrogram or the patches depend on earlier ones: %s", story.c_str());
    c.outcome(mc::hash(story));
  }
  c.note("%s", story.c_str());
}
