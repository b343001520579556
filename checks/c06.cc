// variant: asan fast
// Any two signals: a comparison ends with an error or with a complete, finite
// result in range; memory stays intact.  Lengths around every threshold of the
// pipeline, all pairs of signal shapes, extreme rates and options.
#include <climits>
#include <map>
#include <memory>

#include "checks/common.h"
#include "src/proto/similarity_result.pb.h"
#include "visqol_manager.h"

using namespace vt;
using Visqol::AMatrix;
using Visqol::AudioSignal;

namespace {
struct Mode {
  const char* name;
  bool speech, unscaled, lattice;
};
const std::vector<Mode> kModes = {{"audio", false, false, false},
                                  {"speech lattice", true, false, true},
                                  {"speech scaled", true, false, false},
                                  {"speech unscaled", true, true, false}};
AudioSignal Make(const std::vector<double>& v, size_t rate) {
  AMatrix<double> m(v.size(), 1);
  for (size_t i = 0; i < v.size(); i++) m(i) = v[i];
  return AudioSignal{m, rate};
}
void Judge(mc::Ctx& c, const absl::StatusOr<Visqol::SimilarityResultMsg>& r, const Mode& mode) {
  if (!r.ok()) {
    c.check(!r.status().message().empty(), "status", "an error without a message");
    c.check(r.status().code() != absl::StatusCode::kAborted, "status",
            "'not initialised' from an initialised instance: %s", r.status().ToString().c_str());
    c.outcome(mc::hash(r.status().ToString()));
    return;
  }
  c.outcome(r->moslqo());
  c.check(r->moslqo() >= 1 - 1e-6 && r->moslqo() <= 5 + 1e-6, "mos-range", "MOS %g", r->moslqo());
  const int bands = mode.speech ? 21 : 32;
  c.check(std::isfinite(r->vnsim()) && r->vnsim() <= 1 + 1e-9, "vnsim", "vnsim %g", r->vnsim());
  c.check(std::isfinite(r->alignment_lag_s()), "lag", "lag %g", r->alignment_lag_s());
  auto all = [&](const char* what, const google::protobuf::RepeatedField<double>& f) {
    c.check(f.size() == bands, "bands", "%d values in %s", f.size(), what);
    for (double d : f) c.check(std::isfinite(d), "finite", "%s has %g", what, d);
  };
  all("fvnsim", r->fvnsim());
  all("fvnsim10", r->fvnsim10());
  all("fstdnsim", r->fstdnsim());
  all("fvdegenergy", r->fvdegenergy());
  all("center_freq_bands", r->center_freq_bands());
  c.check(r->patch_sims_size() > 0, "patches", "a result without patches");
  for (auto& p : r->patch_sims()) {
    all("freq_band_means", p.freq_band_means());
    for (double d : {p.similarity(), p.ref_patch_start_time(), p.ref_patch_end_time(), p.deg_patch_start_time(), p.deg_patch_end_time()})
      c.check(std::isfinite(d), "finite", "a patch has %g", d);
  }
}
void Run(mc::Ctx& c, const Mode& mode, bool no_global, bool no_realign, int radius, const std::vector<double>& ref, size_t ref_rate,
         const std::vector<double>& deg, size_t deg_rate) {
  // Initialised once per configuration and process.
  static std::map<std::string, std::unique_ptr<Visqol::VisqolManager>> cache;
  auto& slot = cache[std::string(mode.name) + (no_global ? "g" : "") + (no_realign ? "r" : "") + std::to_string(radius)];
  if (!slot) {
    slot = std::make_unique<Visqol::VisqolManager>();
    const absl::Status s = slot->Init(Visqol::FilePath(!mode.speech ? SvrModel() : LatticeModel()), mode.speech, mode.unscaled, radius,
                                      mode.lattice, no_global, no_realign);
    c.check(s.ok(), "init", "%s", s.ToString().c_str());
  }
  Visqol::VisqolManager& m = *slot;
  const AudioSignal r = Make(ref, ref_rate);
  AudioSignal d = Make(deg, deg_rate);
  const auto got = m.Run(r, d);
  if (ref_rate != deg_rate || ref.empty() || deg.empty() || !ref_rate)
    c.check(!got.ok(), "accepted", "a comparison that makes no sense succeeded");
  Judge(c, got, mode);
}
const std::vector<int> kLengths = {0,   1,   2,   3,   8,   9,   15,  16,  17,  31,  32,  33,  47,  48,  63,  64,  65,  79,  80,  81,  96,   160,
                                   200, 319, 320, 500, 511, 512, 513, 527, 528, 529, 530, 640, 767, 768, 769, 783, 784, 785, 800, 1000, 1249, 1500, 2400, 4000};
// Under AddressSanitizer most executions search no further than one offset,
// and signals are shorter.
#ifdef __SANITIZE_ADDRESS__
constexpr bool kAsan = true;
#else
constexpr bool kAsan = false;
#endif
}  // namespace

// Every pair of lengths around the thresholds (800 Hz: windows of 64, hops of 16).
SCENARIO(lengths) {
  const Mode& mode = kModes[c.choose("mode", c.tier(3, 4))];
  const int ri = c.choose("ref", kLengths.size()), di = c.choose("deg", kLengths.size());
  const int r = kLengths[ri], d = kLengths[di];
  const bool other = c.flag("unrelated");
  if (kAsan && !c.thorough() && std::max(r, d) > 1300) c.skip();
  const int radius = kAsan && (ri % 4 || di % 4 || other) ? 0 : 60;
  const int shape = c.pick("shape", c.thorough() ? std::vector<int>{kBursts, kTone, kNoise} : std::vector<int>{kBursts});
  c.note("%s, %d and %d samples of %s%s", mode.name, r, d, ShapeName(shape), other ? ", unrelated" : "");
  Run(c, mode, false, false, radius, Signal(shape, r, 800, 1), 800, Signal(shape, d, 800, other ? 2 : 1), 800);
}
// Every length one by one.
SCENARIO(each_length) {
  const Mode& mode = kModes[c.choose("mode", 2)];
  const int n = c.choose("length", c.tier(1400, 4000));
  c.note("%s, %d samples", mode.name, n);
  auto ref = Signal(kBursts, n, 800, 1), deg = ref;
  for (size_t i = 0; i < deg.size(); i++) deg[i] = deg[i - i % 3];
  Run(c, mode, false, false, kAsan && n % 16 ? 0 : 60, ref, 800, deg, 800);
}
SCENARIO(shapes) {
  const Mode& mode = c.pick("mode", kModes);
  const int r = c.choose("ref_shape", kShapes), d = c.choose("deg_shape", kShapes);
  const int f = c.choose("flags", 4);
  const int radius = c.pick("radius", std::vector<int>{60, 0, 1, -1, 3, INT_MAX, INT_MIN, 71582788, 107374182});
  const int n = kAsan ? 800 : 1500;
  const int len = c.pick("deg_length", std::vector<int>{n, n * 3 / 5});
  c.note("%s, %s and %s, flags %d, radius %d", mode.name, ShapeName(r), ShapeName(d), f, radius);
  if (!c.thorough() && f && radius != 60) c.skip();
  if (!c.thorough() && kAsan && (f == 1 || f == 2 || (radius == 60 && (r + d) % 2))) c.skip();
  if (!c.thorough() && len != n && radius != 60) c.skip();
  Run(c, mode, f & 1, f & 2, radius, Signal(r, n, 800, 1), 800, Signal(d, len, 800, 2), 800);
}
// Levels down to and below the smallest square.
SCENARIO(levels) {
  const std::vector<double> level = {1, 1e-3, 1e-6, 1.0 / 32768, 1e-20, 1e-150, 1e-165, 1e-200, 5e-324, -1, -1e-3};
  const Mode& mode = kModes[c.choose("mode", 2)];
  const double r = c.pick("ref", level), d = c.pick("deg", level);
  const int shape = c.pick("shape", std::vector<int>{kBursts, kDc, kImpulse});
  c.note("%s, %s at %g and %g", mode.name, ShapeName(shape), r, d);
  auto a = Signal(shape, 1200, 800, 1), b = Signal(shape, 1200, 800, 2);
  for (auto& x : a) x *= r;
  for (auto& x : b) x *= d;
  Run(c, mode, false, false, kAsan ? 0 : 60, a, 800, b, 800);
}
SCENARIO_T(rates, 60) {
  const std::vector<size_t> rates = {0,    1,    2,     3,     6,     7,     10,    12,    13,    25,   31,   43,   44,        50,        99,
                                     100,  101,  137,   160,   250,   441,   777,   999,   1100,  2000, 4000, 8000, 11025,     16000,     22050,
                                     44100, 48000, 96000, 192000, 1000000, 2147483647u, 2147483648u, 4294967295u, 1ull << 40, 1ull << 62, SIZE_MAX};
  const Mode& mode = kModes[c.choose("mode", c.tier(3, 4))];
  const size_t rate = c.pick("rate", rates);
  const int len = c.choose("length", 4);
  const int shape = c.pick("shape", std::vector<int>{kBursts, kTone, kSilence});
  // In windows of 80 ms.
  const double windows[] = {0.5, 5, 14, 20};
  const double n = windows[len] * std::max<size_t>(rate, 13) * 0.08;
  const size_t samples = static_cast<size_t>(std::min(n, c.tier(kAsan ? 5000.0 : 20000.0, 80000.0)));
  c.note("%s, %zu Hz, %zu samples of %s", mode.name, rate, samples, ShapeName(shape));
  auto a = Signal(shape, samples, rate ? rate : 1, 1), b = a;
  for (size_t i = 0; i < b.size(); i++) b[i] = 0.5 * b[i - i % 3];
  Run(c, mode, false, false, 60, a, rate, b, rate);
}
SCENARIO(rate_pairs) {
  const std::vector<size_t> rates = {0, 1, 800, 801, 1600, 48000, 47999, 48001, 4294968096ull};
  const Mode& mode = kModes[c.choose("mode", 2)];
  const size_t r = c.pick("ref", rates), d = c.pick("deg", rates);
  c.note("%s, %zu and %zu Hz", mode.name, r, d);
  // Long enough to be compared if the difference of the rates went unnoticed.
  const auto sig = r != d && r > 40000 && d > 40000 ? Signal(kBursts, 60000, 48000, 1) : Signal(kBursts, 1300, 800, 1);
  Run(c, mode, false, false, r == d ? 60 : 1, sig, r, sig, d);
}
// Uninitialised and failed instances.
SCENARIO(uninitialised) {
  const int how = c.choose("how", 4);
  Visqol::VisqolManager m;
  const std::string junk = c.scratch() + "/junk";
  WriteFile(junk, how == 3 ? "svm_type nu_svr\nkernel_ty" : "this is no model");
  if (how == 1) c.check(!m.Init(Visqol::FilePath("/nonexistent"), false, false, 60, false, false, false).ok(), "init", "no error");
  if (how == 2 || how == 3) c.check(!m.Init(Visqol::FilePath(junk), false, false, 60, false, false, false).ok(), "init", "no error");
  c.note("how %d", how);
  c.outcome(how);
  const AudioSignal r = Make(Signal(kBursts, 1300, 800, 1), 800);
  AudioSignal d = r;
  const auto got = m.Run(r, d);
  c.check(!got.ok() && got.status().code() == absl::StatusCode::kAborted, "uninitialised", "%s", got.ok() ? "a result" : got.status().ToString().c_str());
}
static int init = (mc::g_memory_limit = 3000ull << 20, 0);
