// variant: fast asan
// The lattice model: what it is asked, and what happens when it is not available.
#include "checks/pipeline.h"
#include "checks/session.h"
#include "tensorflow/lite/interpreter.h"
#include "tflite_quality_mapper.h"

using namespace vt;

namespace {
typedef std::map<std::string, float> Inputs;
struct Hooks {
  ~Hooks() { tflite_shim::answer = nullptr; tflite_shim::predict = nullptr; }
};
const char* const kNames[] = {"fvnsim", "fvnsim10_", "fstdnsim", "fvdegenergy"};
std::vector<std::vector<double>> Numbers(int bands, int offset = 0) {
  std::vector<std::vector<double>> f(4);
  for (int k = 0; k < 4; k++)
    for (int b = 0; b < bands; b++) f[k].push_back((k * 100 + b + offset) / 512.0);
  return f;
}
void JudgeInputs(mc::Ctx& c, const Inputs& in, const std::vector<std::vector<double>>& f) {
  c.check(in.size() == 85, "count", "%zu inputs", in.size());
  for (int k = 0; k < 4; k++)
    for (int b = 0; b < 21; b++) {
      const std::string name = kNames[k] + std::to_string(b);
      auto it = in.find(name);
      c.check(it != in.end(), "missing", "the model has no input %s", name.c_str());
      c.check(it->second == static_cast<float>(f[k][b]), "input", "%s is %.9g, expected %.9g", name.c_str(), it->second, f[k][b]);
    }
  c.check(in.count("tau") && in.at("tau") == 0.5f, "tau", "tau is not 0.5");
}
}  // namespace

// Every single feature in its own input, whatever was asked before.
SCENARIO(inputs) {
  Hooks h;
  const int k = c.choose("feature", 4), b = c.choose("band", 21);
  static Visqol::TFLiteQualityMapper* m = nullptr;
  if (!m) {
    m = new Visqol::TFLiteQualityMapper(LatticeModel(), 21);
    if (!m->Init().ok()) abort();
  }
  Inputs in;
  float answer = 1;
  tflite_shim::predict = [&](const Inputs& i) { in = i; return answer; };
  const std::vector<double> values = {0, 1, -1, 0.1, 1e-30, 123456.789, -7.25e8};
  for (double v : values)
    for (double w : values) {
      auto f = Numbers(21, c.choose("unused", 1));
      f[k][b] = v;
      f[(k + 1) % 4][(b + 1) % 21] = w;
      answer = static_cast<float>(1 + 0.37 * fabs(v) / (1 + fabs(v)));
      const double q = m->PredictQuality(f[0], f[1], f[2], f[3]);
      JudgeInputs(c, in, f);
      c.check(q == static_cast<double>(answer), "answer", "the model said %.9g, the mapper %.17g", answer, q);
    }
  c.count(values.size() * values.size());
}

// Sequences of questions on several instances.
SCENARIO(sequences) {
  Hooks h;
  const int depth = c.tier(5, 7);
  const int before = tflite_shim::live_delegates;
  std::unique_ptr<Visqol::TFLiteQualityMapper> m[2];
  Inputs in;
  tflite_shim::predict = [&](const Inputs& i) { in = i; return i.at("fvnsim0") * 4 + 1; };
  std::string trail;
  for (int i = 0; i < depth; i++) {
    const int op = c.choose("operation", 5);  // make 0/1, ask 0/1 or end
    trail += std::to_string(op);
    if (op == 4) break;
    const int which = op % 2;
    if (op < 2) {
      m[which] = std::make_unique<Visqol::TFLiteQualityMapper>(LatticeModel(), 21);
      const auto s = m[which]->Init();
      c.check(s.ok(), "init", "%s", s.ToString().c_str());
    } else {
      if (!m[which]) c.skip();
      const auto f = Numbers(21, i * 7);
      const double q = m[which]->PredictQuality(f[0], f[1], f[2], f[3]);
      JudgeInputs(c, in, f);
      c.check(Near(q, f[0][0] * 4 + 1, 1e-6), "answer", "question %d: %.9g", i, q);
    }
  }
  m[0].reset();
  m[1].reset();
  c.check(tflite_shim::live_delegates == before, "leak", "%d delegates are left", tflite_shim::live_delegates - before);
  c.note("%s", trail.c_str());
}

// Many questions: instances that are replaced every so often, the same questions
// over and over and always new ones.
SCENARIO(long_sequences) {
  Hooks h;
  const int asks = c.tier(300, 3000), instances = 1 + c.choose("instances", 2), renew = c.pick("renewed after", std::vector<int>{0, 7, 64}),
            period = c.pick("questions", std::vector<int>{1, 3, 40, 100000});
  const int before = tflite_shim::live_delegates;
  std::unique_ptr<Visqol::TFLiteQualityMapper> m[2];
  Inputs in;
  tflite_shim::predict = [&](const Inputs& i) { in = i; return i.at("fvnsim0") * 4 + 1; };
  for (int i = 0; i < asks; i++) {
    auto& which = m[i % instances];
    if (!which || (renew && i % renew == 0)) {
      which = std::make_unique<Visqol::TFLiteQualityMapper>(LatticeModel(), 21);
      const auto s = which->Init();
      c.check(s.ok(), "init", "instance made before question %d: %s", i, s.ToString().c_str());
    }
    const auto f = Numbers(21, i % period * 7);
    const double q = which->PredictQuality(f[0], f[1], f[2], f[3]);
    JudgeInputs(c, in, f);
    c.check(Near(q, f[0][0] * 4 + 1, 1e-6), "answer", "question %d: %.9g", i, q);
  }
  m[0].reset();
  m[1].reset();
  c.check(tflite_shim::live_delegates == before, "leak", "%d delegates are left", tflite_shim::live_delegates - before);
  c.count(asks - 1);
  c.outcome(instances * 1000 + renew);
  c.note("%d questions with period %d to %d instances, renewed every %d", asks, period, instances, renew);
}

// Every combination of answers while the model is prepared.
SCENARIO(faults) {
  Hooks h;
  const bool through_manager = c.flag("manager");
  std::vector<std::pair<int, TfLiteStatus>> given;
  tflite_shim::answer = [&](tflite_shim::Point p, TfLiteStatus would) -> TfLiteStatus {
    if (p == tflite_shim::kInvoke || would != kTfLiteOk) return would;
    static const TfLiteStatus all[] = {kTfLiteOk, kTfLiteError, kTfLiteDelegateError, kTfLiteApplicationError};
    const int n = p == tflite_shim::kBuildFromFile ? 2 : 4;
    const TfLiteStatus s = all[c.choose("answer", n)];
    given.push_back({p, s});
    return s;
  };
  const int before = tflite_shim::live_delegates;
  {
    Visqol::VisqolManager manager;
    Visqol::TFLiteQualityMapper mapper(LatticeModel(), 21);
    const auto s = through_manager ? InitAs(&manager, Modes()[1]) : mapper.Init();
    tflite_shim::answer = nullptr;
    bool bad = false;
    for (auto& [p, t] : given) bad = bad || (t != kTfLiteOk && !(p == tflite_shim::kModifyGraph && t == kTfLiteDelegateError));
    c.check(s.ok() == !bad, bad ? "ignored" : "refused", "the preparation %s although %s", s.ok() ? "succeeded" : "failed", bad ? "a step failed" : "every necessary step succeeded");
    std::string t;
    for (auto& [p, x] : given) t += std::to_string(p) + ":" + std::to_string(x) + " ";
    c.note("%s-> %s", t.c_str(), s.ToString().c_str());
    c.outcome(t);
    const auto ref = Signal(kChord, 2500, 1000, 3);
    if (through_manager) {
      const auto r = Compare(manager, ref, Damaged(ref, kHold, 1000), 1000);
      c.check(r.ok() == s.ok(), "used", "after a preparation that %s, a comparison %s", s.ok() ? "succeeded" : "failed", r.ok() ? "succeeded" : "failed");
      static const double normal = [&] {
        Visqol::VisqolManager m;
        if (!InitAs(&m, Modes()[1]).ok()) abort();
        return Compare(m, ref, Damaged(ref, kHold, 1000), 1000)->moslqo();
      }();
      if (r.ok()) c.check(r->moslqo() == normal, "differs", "quality %.12g, %.12g without faults", r->moslqo(), normal);
      const auto again = InitAs(&manager, Modes()[1]);
      c.check(again.ok(), "stuck", "preparing again fails: %s", again.ToString().c_str());
      const auto q = Compare(manager, ref, Damaged(ref, kHold, 1000), 1000);
      c.check(q.ok() && q->moslqo() == normal, "stuck", "after preparing again, a comparison fails or differs");
    } else if (s.ok()) {
      Inputs in;
      tflite_shim::predict = [&](const Inputs& i) { in = i; return 3.5f; };
      const auto f = Numbers(21);
      c.check(mapper.PredictQuality(f[0], f[1], f[2], f[3]) == 3.5, "answer", "the model's answer is not returned");
      JudgeInputs(c, in, f);
    }
  }
  c.check(tflite_shim::live_delegates == before, "leak", "%d delegates are left", tflite_shim::live_delegates - before);
}

// Files that are no model.
SCENARIO(files) {
  const int kind = c.choose("file", 6);
  const std::string p = c.scratch() + "/model.tflite";
  std::string path = p;
  switch (kind) {
    case 0: break;
    case 1: std::ofstream(p).flush(); break;
    case 2: std::ofstream(p) << "no model at all, but longer than eight bytes"; break;
    case 3: path = c.scratch(); break;
    case 4: path = p + "/below"; break;
    case 5: path = ""; break;
  }
  if (c.flag("manager")) {
    Visqol::VisqolManager m;
    const auto s = m.Init(Visqol::FilePath(path), true, false, 60, true, false, false);
    c.check(!s.ok(), "accepted", "a file of kind %d is taken for a model", kind);
    const auto ref = Signal(kChord, 2500, 1000, 3);
    c.check(!Compare(m, ref, ref, 1000).ok(), "used", "a comparison succeeded without a model");
  } else {
    Visqol::TFLiteQualityMapper m(path, 21);
    const auto s = m.Init();
    c.check(!s.ok(), "accepted", "a file of kind %d is taken for a model", kind);
    c.check(path.empty() || s.message().find(path) != absl::string_view::npos, "unnamed", "the error does not name the file: %s", s.ToString().c_str());
  }
}

// What the model is asked in a comparison is what the result reports.
SCENARIO_T(comparison, 60) {
  Hooks h;
  const int shape = c.choose("signal", kSilence), damage = c.choose("damage", kDamages);
  const size_t rate = c.pick("rate", std::vector<size_t>{800, 1000});
  const double len = c.pick("length", std::vector<double>{1.3, 2.5, 4});
  const auto ref = Signal(shape, static_cast<size_t>(len * rate), rate, 2);
  Inputs in;
  tflite_shim::predict = [&](const Inputs& i) { in = i; return 2.75f; };
  const auto r = Compare(Manager(Modes()[1]), ref, Damaged(ref, damage, rate), rate);
  if (!r.ok()) {
    c.check(in.empty(), "asked", "the model was asked, but there is no result");
    c.trivial();
    return;
  }
  const std::vector<std::vector<double>> f = {{r->fvnsim().begin(), r->fvnsim().end()},
                                              {r->fvnsim10().begin(), r->fvnsim10().end()},
                                              {r->fstdnsim().begin(), r->fstdnsim().end()},
                                              {r->fvdegenergy().begin(), r->fvdegenergy().end()}};
  for (auto& x : f) c.check(x.size() == 21, "bands", "%zu bands", x.size());
  for (auto& x : f)
    for (double y : x)
      if (y != y) return;
  JudgeInputs(c, in, f);
  if (r->vnsim() >= 0.15) c.check(r->moslqo() == 2.75, "answer", "the model said 2.75, the quality is %.9g", r->moslqo());
}
