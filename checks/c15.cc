// variant: fast asan
// Which parts of the reference are scored: consecutive patches in audio mode,
// those with voice activity in speech mode.
#include "checks/pipeline.h"
#include "rms_vad.h"
#include "visqol.h"

using namespace vt;

namespace {
// Voice activity of consecutive frames: a frame is silent if it and the two
// before are below the threshold; the first two always count as active.
std::vector<int> Activity(const std::vector<int>& loud) {
  std::vector<int> v(loud.size(), 1);
  for (size_t i = 2; i < loud.size(); i++) v[i] = loud[i] || loud[i - 1] || loud[i - 2];
  return v;
}
std::vector<int> LoudFrames(const std::vector<double>& s, size_t start, size_t frames, size_t len) {
  const double top = *std::max_element(s.begin(), s.end());
  std::vector<int> out;
  for (size_t f = 0; f < frames; f++) {
    double sum = 0;
    for (size_t i = 0; i < len; i++) {
      double x = s[start + f * len + i] / top * 32768;
      x = trunc(std::max(-32768.0, std::min(32767.0, x)));
      sum += x * x;
    }
    out.push_back(sqrt(sum / len) >= 5000);
  }
  return out;
}
// The patches to score, when the activity is taken from sample `start` on.
std::vector<size_t> Expected(const std::vector<double>& s, size_t cols, size_t start, size_t hop, size_t size = 20) {
  const size_t first = size / 2 - 1, count = (cols - first) / size;
  const auto act = Activity(LoudFrames(s, start, count * size, hop));
  std::vector<size_t> out;
  for (size_t p = 0; p < count; p++) {
    int n = 0;
    for (size_t i = 0; i < size; i++) n += act[p * size + i];
    if (n >= 1) out.push_back(first + p * size);
  }
  return out;
}
std::string Str(const std::vector<size_t>& v) {
  std::string s;
  for (size_t x : v) s += " " + std::to_string(x);
  return s + " ";
}
struct Voice {
  size_t rate, hop, window;
  explicit Voice(size_t r) : rate(r) {
    AnalysisWindow w(r, 0.25);
    window = w.size;
    hop = static_cast<size_t>(w.size * 0.25);
  }
  size_t Cols(size_t n) const { return 1 + (n - window) / hop; }
};
std::vector<size_t> Indices(mc::Ctx& c, const std::vector<double>& s, const Voice& v) {
  const Visqol::VadPatchCreator creator(20);
  const auto r = creator.CreateRefPatchIndices(AMatrix<double>::Filled(2, v.Cols(s.size()), 1.0), ToSignal(s, v.rate), AnalysisWindow(v.rate, 0.25));
  c.check(r.ok(), "failed", "%s", r.status().ToString().c_str());
  return *r;
}
void Judge(mc::Ctx& c, const std::vector<double>& s, const Voice& v, bool strict) {
  const auto got = Indices(c, s, v);
  const size_t cols = v.Cols(s.size());
  const auto want = Expected(s, cols, 9 * v.hop, v.hop), shifted = Expected(s, cols, 9, v.hop);
  c.outcome(mc::hashv(got) + got.size());
  if (got == want) return;
  // A recorded finding: the activity is taken nine frames early.
  if (got == shifted && !strict) return;
  c.check(got != shifted, "activity-taken-early", "patches%sare scored, those with activity are%s", Str(got).c_str(), Str(want).c_str());
  c.fail("patches", "patches%sare scored, those with activity are%s", Str(got).c_str(), Str(want).c_str());
}
// One value per frame, alternating in sign.
std::vector<double> Frames(const std::vector<double>& level, const Voice& v) {
  std::vector<double> s;
  for (double l : level)
    for (size_t i = 0; i < v.hop; i++) s.push_back(i & 1 ? -l : l);
  s.resize(s.size() + v.window - v.hop, 0.0);
  return s;
}
}  // namespace

// The detector itself on all sequences of quiet and loud chunks.
SCENARIO(detector) {
  const int n = 1 + c.choose("chunks", c.tier(12, 16)), hi = c.choose("loudness", 4);
  const int16_t loud_level[] = {5000, 5001, 32767, -32768}, quiet_level[] = {4999, 0, 100, -4999};
  for (int m = 0; m < 1 << n; m++) {
    Visqol::RmsVad vad;
    std::vector<int> loud;
    for (int i = 0; i < n; i++) {
      loud.push_back(m >> i & 1);
      const int16_t x = loud[i] ? loud_level[hi] : quiet_level[hi];
      const double rms = vad.ProcessChunk(std::vector<int16_t>(7, x));
      c.check(Near(rms, std::abs(int(x)), 1e-12), "rms", "the level of a chunk of %d is %g", x, rms);
    }
    const auto r = vad.GetVadResults();
    const auto want = Activity(loud);
    c.check(r.size() == std::max(2, n), "size", "%zu results for %d chunks", r.size(), n);
    for (int i = 0; i < n; i++) c.check((r[i] == 1) == (want[i] == 1) && (r[i] == 0 || r[i] == 1), "activity", "chunk %d of pattern %x is %g", i, m, r[i]);
  }
  c.count((1 << n) - 1);
  c.note("%d chunks of %d and %d", n, loud_level[hi], quiet_level[hi]);
}
// The level of a chunk with mixed samples.
SCENARIO(levels) {
  const int n = 1 + c.choose("samples", 5);
  static const int16_t v[] = {0, 1, -1, 7071, -7071, 12247, 32767, -32768};
  std::vector<int16_t> x(n);
  double sum = 0;
  for (auto& d : x) { d = v[c.choose("sample", 8)]; sum += double(d) * d; }
  Visqol::RmsVad vad;
  const double want = sqrt(sum / n), got = vad.ProcessChunk(x);
  c.check(Near(got, want, 1e-12), "rms", "%g instead of %g", got, want);
  vad.ProcessChunk({0});
  vad.ProcessChunk({0});
  const auto r = vad.GetVadResults();
  if (std::fabs(want - 5000) > 1e-6) c.check(r.size() == 3 && r[2] == (want >= 5000), "activity", "a chunk of level %g counts as %g", want, r[2]);
  c.note("%d samples", n);
}
// Speech patches for all patterns of segments.
SCENARIO(segments) {
  const Voice v(c.pick("rate", std::vector<size_t>{800, 1000, 790}));
  const int seg = c.pick("segment", std::vector<int>{10, 4, 7});
  const int k = c.choose("set", c.tier(2, 3)), bits = c.tier(8, 9);
  const double quiet[] = {0, 0.1, 0.1525}, loud[] = {1, 0.1527, 0.5};
  for (int m = 0; m < 1 << bits; m++) {
    std::vector<double> level(29, quiet[k]);
    level.resize(29 + bits * seg);
    for (int i = 0; i < bits * seg; i++) level[29 + i - 10] = m >> (i / seg) & 1 ? loud[k] : quiet[k];
    level[0] = 1;  // the peak
    Judge(c, Frames(level, v), v, false);
  }
  c.count((1 << bits) - 1);
  c.note("%d segments of %d frames at %zu Hz", bits, seg, v.rate);
}
// One burst at every place of every length.
SCENARIO(burst) {
  const Voice v(800);
  const int total = 29 + c.choose("frames", c.tier(45, 90));
  const int at = c.choose("at", total);
  std::vector<double> level(total, 0.05);
  for (int len : {1, 2, 3, 5, 19, 20, 21}) {
    auto l = level;
    for (int i = at; i < std::min(total, at + len); i++) l[i] = 1;
    Judge(c, Frames(l, v), v, false);
    c.count(1);
  }
  c.note("a burst at frame %d of %d", at, total);
}
// Where in the signal the activity of a patch is taken from.
SCENARIO(place) {
  const Voice v(c.pick("rate", std::vector<size_t>{800, 16000}));
  const int at = c.pick("at", std::vector<int>{40, 44, 63});
  std::vector<double> level(75, 0.0);
  level[0] = level[at] = level[at + 1] = 1;
  c.note("voice in frames %d and %d of 75 at %zu Hz", at, at + 1, v.rate);
  Judge(c, Frames(level, v), v, true);
}
// Signals of any length: only the patches that fit; an error if none does.
SCENARIO(speech_lengths) {
  const Voice v(800);
  const size_t n = v.window + 1 + c.choose("samples", c.tier(2000, 4000));
  const auto s = Signal(kNoise, n, 800, 3);
  const size_t cols = v.Cols(n);
  const Visqol::VadPatchCreator creator(20);
  const auto r = creator.CreateRefPatchIndices(AMatrix<double>::Filled(2, cols, 1.0), ToSignal(s, 800), AnalysisWindow(800, 0.25));
  c.note("%zu samples, %zu frames", n, cols);
  c.outcome(static_cast<int>(cols));
  if (cols < 29) { c.check(!r.ok(), "invented", "patches for %zu frames", cols); return; }
  c.check(r.ok(), "failed", "%s", r.status().ToString().c_str());
  std::vector<size_t> want;
  for (size_t i = 9; i + 20 <= cols; i += 20) want.push_back(i);
  c.check(*r == want, "patches", "patches%sof %zu frames", Str(*r).c_str(), cols);
}
// Audio mode: every number of frames and several patch sizes.
SCENARIO(audio) {
  const size_t size = c.pick("size", std::vector<size_t>{30, 20, 2, 3, 8, 31, 60});
  const Visqol::ImagePatchCreator creator(size);
  const size_t top = c.tier(700, 3000);
  AnalysisWindow w(800, 0.25);
  for (size_t cols = 1; cols <= top; cols++) {
    const auto r = creator.CreateRefPatchIndices(AMatrix<double>::Filled(2, cols, 1.0), ToSignal({1, 2}, 800), w);
    const size_t first = size / 2 - 1;
    if (cols < size + first + 1) { c.check(!r.ok(), "invented", "patches for %zu frames", cols); continue; }
    c.check(r.ok(), "failed", "%s", r.status().ToString().c_str());
    std::vector<size_t> want = {first};
    for (size_t i = first + size; i + size + 1 < cols; i += size) want.push_back(i);
    c.check(*r == want, "patches", "patches%sof %zu frames of %zu", Str(*r).c_str(), cols, size);
    c.outcome(mc::hashv(*r));
  }
  c.count(top - 1);
  c.note("patches of %zu in 1..%zu frames", size, top);
}
// A patch holds the frames it says it holds.
SCENARIO(contents) {
  const size_t size = 1 + c.choose("size", 8), cols = size + c.choose("cols", 12);
  const int rows = 1 + c.choose("rows", 3);
  AMatrix<double> m(rows, cols);
  for (int b = 0; b < rows; b++)
    for (size_t j = 0; j < cols; j++) m(b, j) = 100 * b + j;
  const Visqol::ImagePatchCreator image(size);
  const Visqol::VadPatchCreator vad(size);
  std::vector<size_t> idx;
  for (size_t i = 0; i + size <= cols; i++) idx.push_back(cols - size - i);
  for (const Visqol::ImagePatchCreator* creator : {&image, static_cast<const Visqol::ImagePatchCreator*>(&vad)}) {
    const auto p = creator->CreatePatchesFromIndices(m, idx);
    c.check(p.size() == idx.size(), "count", "%zu patches", p.size());
    for (size_t i = 0; i < p.size(); i++) {
      c.check(p[i].NumRows() == static_cast<size_t>(rows) && p[i].NumCols() == size, "shape", "%zu x %zu", p[i].NumRows(), p[i].NumCols());
      for (int b = 0; b < rows; b++)
        for (size_t j = 0; j < size; j++) c.check(p[i](b, j) == 100.0 * b + idx[i] + j, "contents", "patch %zu holds %g", i, p[i](b, j));
    }
    c.check(creator->CreatePatchesFromIndices(m, {}).empty(), "count", "patches from nothing");
  }
  c.note("patches of %zu in %d x %zu", size, rows, cols);
}
// Long signals: every pattern of four segments of several lengths, over and over,
// through the detector, the choice of patches and the cutting of them.
SCENARIO_T(many, 60) {
  const Voice v(c.pick("rate", std::vector<size_t>{800, 16000}));
  const int seg = c.pick("segment", std::vector<int>{20, 1, 3, 7, 23}), pattern = c.choose("pattern", 16);
  const int frames = c.pick("frames", c.thorough() ? std::vector<int>{400, 1300, 2777, 5400, 20000} : std::vector<int>{400, 1300, 2777});
  if (v.rate == 16000 && frames > 2777) { c.skip(); return; }
  std::vector<double> level(frames, 0.01);
  for (int i = 0; i < frames; i++)
    if (pattern >> (i / seg % 4) & 1) level[i] = 0.7;
  level[frames / 2] = 1;
  const auto s = Frames(level, v);
  Judge(c, s, v, false);
  std::vector<int> loud;
  Visqol::RmsVad vad;
  for (int i = 0; i < frames; i++) {
    loud.push_back(level[i] > 0.5);
    (void)vad.ProcessChunk(std::vector<int16_t>(3, loud[i] ? 5000 : 4999));
  }
  const auto r = vad.GetVadResults();
  const auto want = Activity(loud);
  c.check(r.size() == loud.size(), "size", "%zu results for %d chunks", r.size(), frames);
  for (int i = 0; i < frames; i++) c.check(r[i] == want[i], "activity", "chunk %d of %d is %g", i, frames, r[i]);
  AMatrix<double> m(2, frames);
  for (int j = 0; j < frames; j++) { m(0, j) = j; m(1, j) = -2.0 * j; }
  const auto idx = Indices(c, s, v);
  const auto parts = Visqol::VadPatchCreator(20).CreatePatchesFromIndices(m, idx);
  c.check(parts.size() == idx.size(), "count", "%zu patches of %zu", parts.size(), idx.size());
  for (size_t i = 0; i < parts.size(); i++) {
    c.check(parts[i].NumRows() == 2 && parts[i].NumCols() == 20, "shape", "patch %zu of %zu is %zu x %zu", i, idx.size(), parts[i].NumRows(), parts[i].NumCols());
    for (int j = 0; j < 20; j++)
      c.check(parts[i](0, j) == double(idx[i] + j) && parts[i](1, j) == -2.0 * (idx[i] + j), "contents", "patch %zu of %zu holds %g", i, idx.size(), parts[i](0, j));
  }
  c.count(2);
  c.note("%d frames at %zu Hz in segments of %d, pattern %x", frames, v.rate, seg, pattern);
}
// Hours of speech: more frames than 16 bits count.
SCENARIO_T(hours, 60) {
  const Voice v(50);
  const int frames = c.pick("frames", std::vector<int>{32790, 65560, 70011, 132000}), pattern = c.choose("pattern", 4);
  std::vector<double> level(frames, 0.01);
  for (int i = 0; i < frames; i++)
    if (pattern == 0 ? i > frames - 300 : pattern == 1 ? i % 997 < 20 : pattern == 2 ? i < 100 || i > 65500 : i % 50 < 12) level[i] = 0.7;
  level[0] = 1;
  const auto s = Frames(level, v);
  Judge(c, s, v, false);
  Visqol::RmsVad vad;
  std::vector<int> loud;
  for (int i = 0; i < frames; i++) {
    loud.push_back(level[i] > 0.5);
    (void)vad.ProcessChunk({static_cast<int16_t>(loud[i] ? 5000 : 4999)});
  }
  const auto r = vad.GetVadResults();
  const auto want = Activity(loud);
  c.check(r.size() == loud.size(), "size", "%zu results for %d chunks", r.size(), frames);
  for (int i = 0; i < frames; i++) c.check(r[i] == want[i], "activity", "chunk %d of %d is %g", i, frames, r[i]);
  const auto a = Visqol::ImagePatchCreator(30).CreateRefPatchIndices(AMatrix<double>::Filled(1, frames, 1.0), ToSignal({1, 2}, 800), AnalysisWindow(800, 0.25));
  c.check(a.ok(), "failed", "%s", a.status().ToString().c_str());
  std::vector<size_t> audio = {14};
  for (size_t i = 44; i + 31 < static_cast<size_t>(frames); i += 30) audio.push_back(i);
  c.check(*a == audio, "patches", "%zu patches in audio mode, expected %zu", a->size(), audio.size());
  c.note("%d frames, pattern %d", frames, pattern);
}
// The result of a comparison lists exactly those patches.
SCENARIO_T(pipeline, 60) {
  const bool speech = c.flag("speech");
  const size_t rate = c.pick("rate", std::vector<size_t>{800, 1000, 8000});
  const int frames = c.pick("frames", c.thorough() ? std::vector<int>{45, 59, 76, 77, 110, 777, 2100, 4000} : std::vector<int>{45, 59, 76, 77, 110, 777, 2100});
  if (frames > 110 && rate == 8000) { c.skip(); return; }
  const int pattern = c.choose("pattern", 5);
  const Voice v(rate);
  Lcg g(pattern);
  std::vector<double> level(frames);
  for (int i = 0; i < frames; i++) level[i] = pattern == 0 ? 1 : pattern == 1 ? (i < 40) : pattern == 2 ? (i % 40 < 20) : pattern == 3 ? (i > 60) : g.uni() > 0.9;
  auto s = Frames(level, v);
  for (auto& x : s) x = x * (0.7 + 0.29 * g.sym()) + 0.001 * g.sym();
  c.note("%s, %d frames at %zu Hz, pattern %d", speech ? "speech" : "audio", frames, rate, pattern);
  const AudioSignal ref = ToSignal(s, rate);
  AudioSignal deg = ToSignal(s, rate);
  FakeMapper map;
  auto sb = Gammatone(speech);
  auto cr = Creator(speech);
  auto se = Selector();
  const auto r = Visqol::Visqol().CalculateSimilarity(ref, deg, sb.get(), AnalysisWindow(rate, 0.25), cr.get(), se.get(), &map, 1, true);
  const size_t cols = v.Cols(s.size());
  std::vector<size_t> want, other;
  if (speech) {
    want = Expected(s, cols, 9 * v.hop, v.hop);
    other = Expected(s, cols, 9, v.hop);
  } else {
    want = {14};
    for (size_t i = 44; i + 31 < cols; i += 30) want.push_back(i);
    other = want;
  }
  if (!r.ok()) { c.check(want.empty() || other.empty(), "failed", "%s", r.status().ToString().c_str()); c.trivial(); return; }
  std::vector<size_t> got;
  const double frame = v.hop / static_cast<double>(rate);
  for (auto& p : r->debug_info.patch_sims) got.push_back(lround(p.ref_patch_start_time / frame));
  c.check(got == want || got == other, "patches", "patches%sin the result, expected%s", Str(got).c_str(), Str(want).c_str());
  c.outcome(mc::hashv(got));
}
