// variant: fast asan
// Levels before patches are compared: decibels, noise floors, common zero.
#include "checks/pipeline.h"
#include "misc_audio.h"

using namespace vt;

namespace {
typedef long double R;
typedef std::vector<std::vector<R>> Table;  // [band][frame]
R Db(R x) { return 10 * log10l(x == 0 ? 2.220446049250313080847e-16L : fabsl(x)); }
// What the documentation of the floors says.
void Expected(Table* a, Table* b) {
  for (auto* t : {a, b})
    for (auto& row : *t)
      for (auto& x : row) x = std::max<R>(-45, Db(x));
  const size_t common = std::min((*a)[0].size(), (*b)[0].size());
  R low = 1e9;
  for (size_t f = 0; f < common; f++) {
    R top = -1e9;
    for (auto* t : {a, b})
      for (auto& row : *t) top = std::max(top, row[f]);
    for (auto* t : {a, b})
      for (auto& row : *t) row[f] = std::max(row[f], top - 45);
  }
  for (auto* t : {a, b})
    for (auto& row : *t)
      for (R x : row) low = std::min(low, x);
  for (auto* t : {a, b})
    for (auto& row : *t)
      for (auto& x : row) x -= low;
}
Visqol::Spectrogram Spec(const Table& t) {
  AMatrix<double> m(t.size(), t[0].size());
  for (size_t r = 0; r < t.size(); r++)
    for (size_t f = 0; f < t[0].size(); f++) m(r, f) = t[r][f];
  Visqol::Spectrogram s(std::move(m));
  s.SetCenterFreqBands(std::vector<double>(t.size(), 100.0));
  return s;
}
void Compare(mc::Ctx& c, const Visqol::Spectrogram& got, const Table& want, const char* which) {
  c.check(got.Data().NumRows() == want.size() && got.Data().NumCols() == want[0].size(), "shape", "the %s became %zux%zu", which, got.Data().NumRows(), got.Data().NumCols());
  for (size_t r = 0; r < want.size(); r++)
    for (size_t f = 0; f < want[0].size(); f++)
      c.check(fabsl(got.Data()(r, f) - want[r][f]) < 1e-10L, "level", "%s, band %zu, frame %zu: %.15g, expected %.15Lg", which, r, f, got.Data()(r, f), want[r][f]);
}
void Judge(mc::Ctx& c, const Table& a, const Table& b) {
  auto sa = Spec(a), sb = Spec(b);
  Visqol::MiscAudio::PrepareSpectrogramsForComparison(sa, sb);
  Table wa = a, wb = b;
  Expected(&wa, &wb);
  Compare(c, sa, wa, "reference");
  Compare(c, sb, wb, "degraded");
  auto ta = Spec(a), tb = Spec(b);
  Visqol::MiscAudio::PrepareSpectrogramsForComparison(tb, ta);
  c.check(ta.Data() == sa.Data() && tb.Data() == sb.Data(), "exchange", "exchanging reference and degraded changes the levels");
}
}  // namespace

// All small pairs of spectrograms, of equal and different lengths.
SCENARIO_T(small, 60) {
  struct D { int bands, ref, deg; std::vector<double> values; };
  static const std::vector<D> quick = {{1, 1, 1, {0, 1e-300, 1e-17, 1e-5, 3.1622776601683795e-05, 4e-5, 1e-3, 1, 3, 2000, 1e9}},
                                       {2, 1, 1, {0, 1e-5, 4e-5, 1e-3, 0.5, 90}},
                                       {1, 2, 1, {0, 1e-5, 5e-5, 0.01, 4, 3e4}},
                                       {1, 1, 2, {0, 1e-5, 5e-5, 0.01, 4, 3e4}},
                                       {1, 2, 2, {0, 5e-5, 0.01, 4, 3e4}},
                                       {2, 2, 1, {0, 2e-4, 30}},
                                       {2, 1, 2, {0, 2e-4, 30}},
                                       {2, 2, 2, {1e-5, 6e-5, 50}},
                                       {1, 3, 3, {0, 1e-4, 70}},
                                       {3, 1, 3, {5e-5, 90}},
                                       {3, 2, 2, {0, 90}}};
  static const std::vector<D> more = {{2, 1, 1, {0, 1e-17, 1e-5, 4e-5, 1e-3, 0.5, 3, 90, 1e7}}, {1, 2, 2, {0, 5e-5, 1e-3, 0.01, 4, 100, 3e4}}, {2, 2, 1, {0, 4e-5, 2e-4, 0.1, 30}},
                                      {2, 1, 2, {0, 4e-5, 2e-4, 0.1, 30}}, {2, 2, 2, {0, 5e-5, 0.02, 50}}, {1, 3, 3, {0, 1e-4, 1e-2, 1, 70}}, {1, 4, 2, {0, 1e-4, 1, 70}}, {3, 2, 2, {0, 1e-3, 90}}};
  const auto& set = c.thorough() ? more : quick;
  const D& d = set[c.choose("domain", set.size())];
  const int k = d.values.size(), n = d.bands * (d.ref + d.deg);
  std::vector<double> v;
  while (static_cast<int>(v.size()) < std::min(3, n)) v.push_back(c.pick("value", d.values));
  long total = 1;
  const int left = n - v.size();
  for (int i = 0; i < left; i++) total *= k;
  v.resize(n);
  for (long i = 0; i < total; i++) {
    long y = i;
    for (int j = n - left; j < n; j++) v[j] = d.values[y % k], y /= k;
    Table a(d.bands, std::vector<R>(d.ref)), b(d.bands, std::vector<R>(d.deg));
    int p = 0;
    for (auto* t : {&a, &b})
      for (auto& row : *t)
        for (auto& x : row) x = v[p++];
    Judge(c, a, b);
  }
  c.count(total);
  c.note("%d bands, %d and %d frames", d.bands, d.ref, d.deg);
}

// One value at every place of spectrograms of real size, at every level.
SCENARIO_T(place, 60) {
  const bool speech = c.flag("speech");
  const int bands = speech ? 21 : 32, ref = 50, deg = c.pick("frames", std::vector<int>{50, 46, 61});
  const double level = c.pick("level", std::vector<double>{0, 1e-7, 3e-5, 1e-4, 0.04, 20, 5e4});
  const bool in_deg = c.flag("degraded");
  const int band = c.choose("band", bands);
  Lcg g(7);
  Table a(bands, std::vector<R>(ref)), b(bands, std::vector<R>(deg));
  for (auto* t : {&a, &b})
    for (auto& row : *t)
      for (auto& x : row) x = (double)pow(10, -5 + 4.5 * g.uni());
  Table& t = in_deg ? b : a;
  for (int f = 0; f < (in_deg ? deg : ref); f += c.tier(3, 1)) {
    const R was = t[band][f];
    t[band][f] = level;
    Judge(c, a, b);
    t[band][f] = was;
    c.count(1);
  }
}

// Spectrograms of many frames.
SCENARIO_T(long_signals, 60) {
  const int bands = c.pick("bands", std::vector<int>{32, 21}), ref = c.pick("frames", c.thorough() ? std::vector<int>{130, 700, 3000, 12000} : std::vector<int>{130, 700, 3000}),
            more = c.pick("others", std::vector<int>{0, -65, 64, 500});
  const int kind = c.choose("levels", 4);
  Lcg g(kind);
  Table a(bands, std::vector<R>(ref)), b(bands, std::vector<R>(ref + more));
  for (auto* t : {&a, &b})
    for (auto& row : *t)
      for (auto& x : row) x = kind == 3 && g.uni() < 0.3 ? 0.0 : (double)pow(10, (kind == 0 ? -5 : kind == 1 ? -9 : -1) + 4.5 * g.uni());
  Judge(c, a, b);
  c.note("%d bands, %d and %d frames, levels %d", bands, ref, ref + more, kind);
}

// The single steps, over a range of values.
SCENARIO(steps) {
  const int part = c.choose("exponent", 640);
  for (int m = 0; m < 64; m++) {
    const double x = ldexp(1 + m / 64.0, part - 320);
    for (double s : {x, -x}) {
      const R want = Db(s);
      Visqol::Spectrogram sp = Spec({{s, s, 0}});
      sp.ConvertToDb();
      c.check(fabsl(sp.Data()(0) - want) < 1e-10L, "decibel", "%g is %.15g dB, expected %.15Lg", s, sp.Data()(0), want);
      c.check(fabsl(sp.Data()(2) - Db(0)) < 1e-10L, "zero", "0 is %.15g dB", sp.Data()(2));
      c.check(sp.Minimum() == std::min({sp.Data()(0), sp.Data()(1), sp.Data()(2)}), "minimum", "the minimum is %.15g", sp.Minimum());
      const double lift = -100 + m * 3;
      const double before = sp.Data()(0);
      sp.RaiseFloor(lift);
      c.check(sp.Data()(0) == std::max(before, lift), "floor", "%g with a floor of %g became %g", before, lift, sp.Data()(0));
      const double low = sp.Data()(0);
      sp.SubtractFloor(lift);
      c.check(sp.Data()(0) == low - lift, "subtract", "%g less %g is %g", low, lift, sp.Data()(0));
    }
  }
  c.count(128);
}

// The frame floor alone, for other thresholds.
SCENARIO(frame_floor) {
  const double threshold = c.pick("threshold", std::vector<double>{0, 1, 10, 45, 100});
  const int na = 1 + c.choose("frames", 3), nb = 1 + c.choose("others", 3);
  const std::vector<double> values = {-60, -12.5, -3, 40};
  const int bands = 2;
  std::vector<double> v;
  for (int i = 0; i < 2; i++) v.push_back(c.pick("value", values));
  const int n = bands * (na + nb);
  Lcg g(5);
  Table a(bands, std::vector<R>(na)), b(bands, std::vector<R>(nb));
  const int total = std::min(4096, 1 << (2 * (n - 2)));
  v.resize(n);
  for (int i = 0; i < total; i++) {
    for (int j = 2; j < n; j++) v[j] = n - 2 <= 6 ? values[i >> (2 * (j - 2)) & 3] : values[(i * (2 * j + 1) + i / 64 * j) & 3];
    int p = 0;
    for (auto* t : {&a, &b})
      for (auto& row : *t)
        for (auto& x : row) x = v[p++];
    auto sa = Spec(a), sb = Spec(b);
    sa.RaiseFloorPerFrame(threshold, sb);
    Table wa = a, wb = b;
    for (int f = 0; f < std::min(na, nb); f++) {
      R top = -1e9;
      for (auto* t : {&wa, &wb})
        for (auto& row : *t) top = std::max(top, row[f]);
      for (auto* t : {&wa, &wb})
        for (auto& row : *t) row[f] = std::max(row[f], top - threshold);
    }
    Compare(c, sa, wa, "reference");
    Compare(c, sb, wb, "degraded");
    c.check(sa.GetCenterFreqBands().size() == 2, "centres", "the centre frequencies are gone");
  }
  c.count(total);
}
