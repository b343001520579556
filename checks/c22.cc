// variant: fast asan
// The library interface: every configuration is checked, completed with the
// documented defaults and carried out.
#include <sys/stat.h>
#include <unistd.h>

#include <climits>

#include "checks/common.h"
#include "checks/session.h"
#include "src/proto/visqol_config.pb.h"
#include "visqol_api.h"

using namespace vt;

namespace {
struct Config {
  bool audio = true, options = true, speech = false, unscaled = false, any_rate = false, lattice = false;
  int rate = 48000, radius = 0;
  std::string model;
};
Visqol::VisqolConfig Proto(const Config& k) {
  Visqol::VisqolConfig c;
  if (k.audio) c.mutable_audio()->set_sample_rate(k.rate);
  if (k.options) {
    auto* o = c.mutable_options();
    if (k.speech) o->set_use_speech_scoring(true);
    if (k.unscaled) o->set_use_unscaled_speech_mos_mapping(true);
    if (k.any_rate) o->set_allow_unsupported_sample_rates(true);
    if (k.lattice) o->set_use_lattice_model(true);
    if (k.radius) o->set_search_window_radius(k.radius);
    if (!k.model.empty()) o->set_svr_model_path(k.model);
  }
  return c;
}
enum { kDefault, kSvr, kLatticeFile, kMissing, kModels };
std::string ModelPath(int m) { return m == kSvr ? SvrModel() : m == kLatticeFile ? LatticeModel() : m == kMissing ? std::string("/nonexistent/model") : std::string(); }
// Whether the configuration has to be accepted; -1 if that is not documented.
int Acceptable(const Config& k, int model) {
  if (!k.audio || k.rate == 0) return 0;
  const bool speech = k.options && k.speech;
  if (!speech && k.rate != 48000 && !(k.options && k.any_rate)) return 0;
  if (!k.options) return 1;
  if (speech && !k.lattice) return model == kMissing ? -1 : 1;  // needs no model file
  if (model == kMissing) return 0;
  if (speech && model == kSvr) return 0;   // not a lattice model
  if (!speech && model == kLatticeFile) return -1;
  return 1;
}
std::string Say(const absl::StatusOr<Visqol::SimilarityResultMsg>& r) {
  return r.ok() ? "r" + r->SerializeAsString() : "e" + r.status().ToString();
}
std::string Measure(Visqol::VisqolApi* api, std::vector<double> a, std::vector<double> b) {
  const auto wa = a, wb = b;
  const auto s = Say(api->Measure(absl::MakeSpan(a), absl::MakeSpan(b)));
  return a == wa && b == wb ? s : "changed the caller's samples";
}
std::vector<double> Ref(size_t rate) { return Signal(kBursts, rate > 10000 ? rate * 2 : 3 * rate, rate, 5); }
// A pause in the middle, which only a wide search window bridges, or a little noise.
std::vector<double> Deg(const std::vector<double>& ref, bool pause, size_t rate) {
  auto d = ref;
  Lcg g(3);
  for (auto& x : d) x += 0.002 * g.sym();
  if (pause) d.insert(d.begin() + d.size() * 45 / 100, rate * 3 / 10, 0.0);
  return d;
}
// What the manager gives when it is initialised with the documented meaning.
std::string Expected(const Config& k, int model, bool degraded) {
  static std::map<std::string, std::string> cache;
  const bool speech = k.options && k.speech;
  const bool lattice = k.options ? k.lattice : true;
  const int radius = k.options && k.radius ? k.radius : 60;
  const std::string path = k.options && model != kDefault ? ModelPath(model) : speech ? LatticeModel() : SvrModel();
  const std::string key = path + std::to_string(speech) + std::to_string(lattice) + std::to_string(k.unscaled) + " " + std::to_string(radius) + " " + std::to_string(k.rate) + (degraded ? "d" : "");
  auto it = cache.find(key);
  if (it != cache.end()) return it->second;
  Visqol::VisqolManager m;
  const auto s = m.Init(Visqol::FilePath(path), speech, k.options && k.unscaled, radius, lattice, false, false);
  std::string r;
  if (s.ok()) {
    const auto ref = Ref(k.rate);
    const auto sr = Sig(ref, k.rate);
    auto sd = Sig(Deg(ref, degraded, k.rate), k.rate);
    r = Say(m.Run(sr, sd));
  }
  return cache[key] = r;
}
struct InDirectory {
  std::string was;
  explicit InDirectory(const std::string& d) {
    char b[4096];
    was = getcwd(b, sizeof b);
    if (chdir(d.c_str())) abort();
  }
  ~InDirectory() { if (chdir(was.c_str())) _exit(99); }
};
void Judge(mc::Ctx& c, const Config& k, int model) {
  Visqol::VisqolApi api;
  const auto s = api.Create(Proto(k));
  const int ok = Acceptable(k, model);
  c.check(ok < 0 || s.ok() == (ok == 1), s.ok() ? "accepted" : "refused", "the configuration is %s: %s", s.ok() ? "accepted" : "refused", s.ToString().c_str());
  c.outcome(s.ToString());
  if (k.rate <= 0 || k.rate > 48000) return;
  // At high rates comparing is slow: only some of the combinations.
  if (k.rate > 10000 && s.ok() && !c.thorough() && (k.rate != 48000 || model != kDefault || k.unscaled || k.any_rate)) return;
  const auto ref = Ref(k.rate);
  for (bool d : {false, true}) {
    if (d && model != kDefault && !c.thorough()) break;
    const auto deg = Deg(ref, d, k.rate);
    const std::string got = Measure(&api, ref, deg);
    if (!s.ok()) {
      c.check(got[0] == 'e', "used", "a refused configuration is used");
      break;
    }
    const std::string want = Expected(k, model, d);
    c.check(got == want, "differs", "the result is not that of the documented meaning of the configuration (%s)", got[0] == 'r' ? "values" : got.substr(0, 200).c_str());
    c.outcome(got);
  }
}
std::string Describe(const Config& k) {
  char t[300];
  snprintf(t, sizeof t, "%s rate %d, %s speech %d, unscaled %d, any rate %d, lattice %d, radius %d, model '%s'", k.audio ? "audio" : "no audio", k.rate, k.options ? "options" : "no options", k.speech,
           k.unscaled, k.any_rate, k.lattice, k.radius, k.model.c_str());
  return t;
}
// Configurations that follow each other; the first three are acceptable.
const std::vector<std::pair<Config, int>>& Several() {
  static const std::vector<std::pair<Config, int>> configs = [] {
    std::vector<std::pair<Config, int>> v;
    Config a;
    a.rate = 1000, a.any_rate = true;
    v.push_back({a, kDefault});
    a.speech = true, a.lattice = true, a.rate = 800;
    v.push_back({a, kDefault});
    a.lattice = false, a.unscaled = true;
    v.push_back({a, kDefault});
    a = Config();
    a.rate = 800;
    v.push_back({a, kDefault});  // refused: rate
    a.audio = false;
    v.push_back({a, kDefault});  // refused: no audio
    a.audio = true, a.rate = 0, a.any_rate = true;
    v.push_back({a, kDefault});  // refused: no rate
    a.rate = 1000, a.model = ModelPath(kMissing);
    v.push_back({a, kMissing});  // refused: model
    return v;
  }();
  return configs;
}
}  // namespace

// Every combination of the fields.
SCENARIO_T(configurations, 120) {
  InDirectory in(Repo());
  Config k;
  k.audio = c.choose("audio", 2) == 0;
  k.rate = k.audio ? c.pick("rate", std::vector<int>{48000, 0, 800, 1000, 47999, 16000, 44100}) : 0;
  k.options = c.choose("options", 2) == 0;
  int model = kDefault;
  if (k.options) {
    k.speech = c.flag("speech");
    k.any_rate = c.flag("any rate");
    k.lattice = c.flag("lattice");
    k.unscaled = c.flag("unscaled");
    model = c.choose("model", kModels);
    const bool slow = k.rate > 10000;
    k.radius = c.pick("radius", slow && !c.thorough() ? std::vector<int>{0, 3} : std::vector<int>{0, 1, 61});
    k.model = ModelPath(model);
  }
  c.note("%s", Describe(k).c_str());
  Judge(c, k, model);
}

// Every sample rate near the limits, and absurd ones.
SCENARIO_T(rates, 60) {
  InDirectory in(Repo());
  Config k;
  std::vector<int> rates = {INT_MIN, INT_MIN + 1, -48000, -8000, -2, -1, 1, 2, 11, 12, 13, 37, 43, 44, 50, 99, 100, 101, 200, 48001, 96000, 192000, 1000000, 48000 * 1000, INT_MAX - 1, INT_MAX};
  k.rate = c.pick("rate", rates);
  k.speech = c.flag("speech");
  k.any_rate = c.flag("any rate");
  k.lattice = k.speech && c.flag("lattice");
  c.note("%s", Describe(k).c_str());
  Visqol::VisqolApi api;
  const auto s = api.Create(Proto(k));
  c.check(s.ok() || !(k.rate > 0 && (k.speech || k.any_rate)), "refused", "%s", s.ToString().c_str());
  c.check(!s.ok() || k.speech || k.any_rate, "accepted", "accepted although not 48000 Hz");
  const auto ref = Signal(kChord, k.rate > 0 && k.rate < 800 ? 3 * k.rate + 100 : 3000, 1000, 4), deg = Damaged(ref, kHold, 1000);
  const std::string got = Measure(&api, ref, deg);
  c.check(s.ok() || got[0] == 'e', "used", "a refused configuration is used");
  c.outcome(got.substr(0, 60));
}

// Search radii: the limits, and none.
SCENARIO_T(radii, 60) {
  InDirectory in(Repo());
  Config k;
  k.rate = 1000;
  k.any_rate = true;
  k.speech = c.flag("speech");
  k.radius = c.pick("radius", std::vector<int>{INT_MIN, -60, -2, -1, 0, 1, 2, 10, 59, 60, 61, 1000, INT_MAX - 1, INT_MAX});
  c.note("%s", Describe(k).c_str());
  Judge(c, k, kDefault);
}

// How far a patch is looked for: a sound that comes later by a whole number of
// patches is found from exactly that radius on.
SCENARIO_T(reach, 60) {
  InDirectory in(Repo());
  const bool lattice = c.flag("lattice"), options = true;
  const int away = c.pick("patches away", std::vector<int>{2, 3, 10, 30, 58, 59, 60, 61, 62, 80, 130, 700});
  const int given = c.choose("radius", 4);  // one less, just enough, one more, the default
  Config k;
  k.rate = 1000, k.any_rate = k.speech = true, k.lattice = lattice, k.options = options;
  k.radius = given == 3 ? 0 : away - 1 + given;
  const int radius = given == 3 ? 60 : k.radius;
  // Frames last 20 samples, patches 20 frames; the first is at frame 9.
  const size_t at = (9 + 4 * 20) * 20, shift = static_cast<size_t>(away) * 400, all = at + shift + 3000;
  std::vector<double> ref(all), deg;
  Lcg g(7), q(1);
  for (size_t i = 0; i < all; i++) ref[i] = 1e-4 * q.sym();
  deg = ref;
  for (size_t i = 100; i < 900; i++) ref[i] = deg[i] = 0.9 * g.sym();  // keeps the signals in place
  for (size_t i = at; i < at + 460; i++) ref[i] = deg[i + shift] = 0.45 * g.sym() * sin(0.02 * (i - at)) + 0.2 * sin(0.9 * i);
  Visqol::VisqolApi api;
  const auto s = api.Create(Proto(k));
  c.check(s.ok(), "refused", "%s", s.ToString().c_str());
  const auto r = api.Measure(absl::MakeSpan(ref), absl::MakeSpan(deg));
  c.check(r.ok(), "failed", "%s", r.status().ToString().c_str());
  c.check(r->alignment_lag_s() == 0, "lag", "a lag of %g s", r->alignment_lag_s());
  bool there = false, found = false;
  for (const auto& p : r->patch_sims()) {
    if (std::fabs(p.ref_patch_start_time() - at / 1000.0) > 0.05) continue;
    there = true;
    found = p.similarity() > 0.9 && std::fabs(p.deg_patch_start_time() - (at + shift) / 1000.0) < 0.05;
  }
  c.note("%d patches away, radius %d", away, k.radius);
  c.outcome(away * 10 + given);
  c.check(there, "patch-missing", "the sound is not scored");
  c.check(found == (radius >= away), found ? "beyond-radius" : "not-reached", "a sound %d patches away is %s with a radius of %d", away, found ? "found" : "not found", radius);
}

// The default models are those of the working directory.
SCENARIO_T(directory, 60) {
  const bool speech = c.flag("speech"), lattice = c.flag("lattice"), present = c.flag("present");
  const std::string d = c.scratch() + "/work";
  mkdir(d.c_str(), 0755);
  if (present && symlink((Repo() + "/model").c_str(), (d + "/model").c_str())) c.fail("setup", "no link");
  Config k;
  k.rate = 1000;
  k.speech = speech, k.lattice = lattice, k.any_rate = true;
  std::string got;
  absl::Status s;
  {
    InDirectory in(d);
    Visqol::VisqolApi api;
    s = api.Create(Proto(k));
    const auto ref = Ref(k.rate);
    got = Measure(&api, ref, Deg(ref, false, k.rate));
  }
  if (present) {
    InDirectory in(Repo());
    c.check(s.ok(), "refused", "%s", s.ToString().c_str());
    c.check(got == Expected(k, kDefault, false), "differs", "another result with the models of the working directory");
  } else if (!speech || lattice) {
    c.check(!s.ok() && got[0] == 'e', "accepted", "created without a model");
    c.check(s.message().find(d) != absl::string_view::npos, "unnamed", "the error does not name the model: %s", s.ToString().c_str());
  }
}

// Refused configurations leave an instance as it was; accepted ones replace it.
SCENARIO_T(sequences, 120) {
  InDirectory in(Repo());
  const auto& configs = Several();
  Visqol::VisqolApi api;
  int current = -1;  // -2: cannot be used
  std::string trail;
  const int depth = c.tier(3, 5);
  for (int i = 0; i < depth; i++) {
    const int op = c.choose("configuration", configs.size() + 1);
    if (op == static_cast<int>(configs.size())) break;
    const auto& [k, model] = configs[op];
    trail += std::to_string(op);
    const bool ok = api.Create(Proto(k)).ok();
    c.check(ok == (op < 3), ok ? "accepted" : "refused", "configuration %d after %s", op, trail.c_str());
    if (ok) current = op;
    else if (model == kMissing) current = -2;
    const int use = current >= 0 ? current : 0;
    const auto ref = Ref(configs[use].first.rate);
    const std::string got = Measure(&api, ref, Deg(ref, false, configs[use].first.rate));
    if (current < 0) c.check(got[0] == 'e', "used", "usable after %s", trail.c_str());
    else c.check(got == Expected(configs[current].first, configs[current].second, false), "differs", "after %s not the result of configuration %d", trail.c_str(), current);
  }
  c.note("%s", trail.c_str());
}

// Two configurations in turns, many times, each used once or several times.
SCENARIO_T(alternating, 120) {
  InDirectory in(Repo());
  const auto& configs = Several();
  const int pair[2] = {c.choose("one", configs.size()), c.choose("other", configs.size())}, uses = c.pick("uses", std::vector<int>{0, 2});
  const int rounds = c.tier(11, 81);
  Visqol::VisqolApi api;
  int current = -1;
  for (int i = 0; i < rounds; i++) {
    const int op = pair[i % 2];
    const bool ok = api.Create(Proto(configs[op].first)).ok();
    c.check(ok == (op < 3), ok ? "accepted" : "refused", "configuration %d, time %d", op, i);
    if (ok) current = op;
    else if (configs[op].second == kMissing) current = -2;
    const int use = current >= 0 ? current : 0;
    const auto ref = Ref(configs[use].first.rate);
    for (int u = i == rounds - 1 ? -1 : 0; u < uses; u++) {
      const std::string got = Measure(&api, ref, Deg(ref, false, configs[use].first.rate));
      if (current < 0) c.check(got[0] == 'e', "used", "usable at time %d", i);
      else c.check(got == Expected(configs[current].first, configs[current].second, false), "differs", "at time %d not the result of configuration %d", i, current);
    }
  }
  c.count(rounds - 1);
  c.outcome(pair[0] * 10 + pair[1]);
  c.note("configurations %d and %d in turns, %d times, %d uses", pair[0], pair[1], rounds, uses);
}

// Signals handed over as spans of any lengths.
SCENARIO_T(spans, 60) {
  InDirectory in(Repo());
  Config k;
  k.rate = c.pick("rate", std::vector<int>{800, 1000});
  k.any_rate = true;
  k.speech = c.flag("speech");
  k.lattice = k.speech;
  static std::map<std::string, std::unique_ptr<Visqol::VisqolApi>> cache;
  auto& api = cache[std::to_string(k.rate) + std::to_string(k.speech)];
  if (!api) {
    api = std::make_unique<Visqol::VisqolApi>();
    if (!api->Create(Proto(k)).ok()) abort();
  }
  const std::vector<int> lengths = {0, 1, 63, 64, 65, 500, 900, 1499, 1500, 1501, 2000, 3000, 3001};
  const int na = c.pick("reference", lengths), nb = c.pick("degraded", lengths);
  const auto all = Signal(kChord, 4000, k.rate, 4);
  const std::vector<double> a(all.begin(), all.begin() + na), b(all.begin() + 40, all.begin() + 40 + nb);
  const std::string got = Measure(api.get(), a, b);
  auto& m = Manager(Modes()[k.speech ? 1 : 0]);
  const auto sa = Sig(a, k.rate);
  auto sb = Sig(b, k.rate);
  c.check(got == Say(m.Run(sa, sb)), "differs", "%d and %d samples give %s, another answer than the manager", na, nb, got[0] == 'r' ? "a result" : got.c_str());
  if (!na || !nb) c.check(got[0] == 'e', "empty", "an empty signal gives a result");
}
