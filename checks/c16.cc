// variant: fast asan
// The similarity of two patches, band by band.
#include "checks/pipeline.h"

using namespace vt;

namespace {
typedef long double R;
struct Iv { R lo, hi; };
struct Grid {
  int rows, cols;
  std::vector<R> v;
  R at(int r, int k) const { return v[std::min(std::max(r, 0), rows - 1) * cols + std::min(std::max(k, 0), cols - 1)]; }
};
Grid FromMatrix(const ImagePatch& p) {
  Grid g{int(p.NumRows()), int(p.NumCols()), {}};
  for (int r = 0; r < g.rows; r++)
    for (int k = 0; k < g.cols; k++) g.v.push_back(p(r, k));
  return g;
}
constexpr R kW[3][3] = {{0.0113033910173052L, 0.0838251475442633L, 0.0113033910173052L},
                        {0.0838251475442633L, 0.619485845753726L, 0.0838251475442633L},
                        {0.0113033910173052L, 0.0838251475442633L, 0.0113033910173052L}};
// What the weighted neighbourhoods say, with the range rounding allows.
struct Expected {
  std::vector<R> mean, sd, energy, mean_err, sd_err;
  R sim, sim_err;
};
Expected Nsim(const Grid& a, const Grid& b) {
  const R c1 = 0.0001L, c3 = 0.00045L;
  Expected e;
  e.sim = e.sim_err = 0;
  for (int r = 0; r < a.rows; r++) {
    std::vector<R> m, err;
    R energy = 0;
    for (int k = 0; k < a.cols; k++) {
      R ma = 0, mb = 0, aa = 0, bb = 0, ab = 0;
      for (int i = -1; i <= 1; i++)
        for (int j = -1; j <= 1; j++) {
          const R w = kW[i + 1][j + 1], x = a.at(r + i, k + j), y = b.at(r + i, k + j);
          ma += w * x, mb += w * y, aa += w * x * x, bb += w * y * y, ab += w * x * y;
        }
      const R u = 4e-15L;
      const R va = aa - ma * ma, vb = bb - mb * mb, cov = ab - ma * mb;
      const R ea = u * aa, eb = u * bb, ec = u * sqrtl(aa * bb);
      const R light = (2 * ma * mb + c1) / (ma * ma + mb * mb + c1);
      const R dlo = sqrtl(std::max<R>(0, va - ea) * std::max<R>(0, vb - eb)) + c3, dhi = sqrtl(std::max<R>(0, va + ea) * std::max<R>(0, vb + eb)) + c3;
      const R nlo = cov - ec + c3, nhi = cov + ec + c3;
      const Iv s{nlo > 0 ? nlo / dhi : nlo / dlo, nhi > 0 ? nhi / dlo : nhi / dhi};
      Iv v{light * s.lo, light * s.hi};
      if (v.lo > v.hi) std::swap(v.lo, v.hi);
      m.push_back((v.lo + v.hi) / 2);
      err.push_back((v.hi - v.lo) / 2 + 1e-12L * (1 + fabsl(v.lo)));
      energy += b.at(r, k);
    }
    R sum = 0, esum = 0, sq = 0, esq = 0;
    for (int k = 0; k < a.cols; k++) sum += m[k], esum += err[k], esq += err[k] * err[k];
    const R mean = sum / a.cols;
    for (R x : m) sq += (x - mean) * (x - mean);
    e.mean.push_back(mean);
    e.mean_err.push_back(esum / a.cols);
    e.sd.push_back(a.cols > 1 ? sqrtl(sq / (a.cols - 1)) : 0);
    e.sd_err.push_back(a.cols > 1 ? sqrtl(esq / (a.cols - 1)) + 1e-10L : 0);
    e.energy.push_back(energy / a.cols);
    e.sim += mean / a.rows;
    e.sim_err += esum / a.cols / a.rows;
  }
  return e;
}
ImagePatch Patch(int rows, int cols, const std::vector<double>& row_major) {
  AMatrix<double> m(rows, cols);
  for (int r = 0; r < rows; r++)
    for (int k = 0; k < cols; k++) m(r, k) = row_major[r * cols + k];
  return m;
}
const Visqol::NeurogramSimiliarityIndexMeasure kMeasure;

bool Off(double got, R want, R err) { return !(fabsl(got - want) <= err + 1e-11L * (1 + fabsl(want))); }

PatchSimilarityResult Judge(mc::Ctx& c, const ImagePatch& a, const ImagePatch& b, const char* what) {
  const auto p = kMeasure.MeasurePatchSimilarity(a, b);
  const auto e = Nsim(FromMatrix(a), FromMatrix(b));
  const size_t n = a.NumRows();
  c.check(p.freq_band_means.NumRows() == n && p.freq_band_stddevs.NumRows() == n && p.freq_band_deg_energy.NumRows() == n && p.freq_band_means.NumCols() == 1,
          "bands", "%s: %zu bands compared, %zu reported", what, n, p.freq_band_means.NumRows());
  for (size_t r = 0; r < n; r++) {
    c.check(!Off(p.freq_band_means(r), e.mean[r], e.mean_err[r]), "mean", "%s: band %zu has similarity %.15g, expected %.15Lg (+-%.2Lg)", what, r, p.freq_band_means(r), e.mean[r], e.mean_err[r]);
    c.check(a.NumCols() < 2 || !Off(p.freq_band_stddevs(r), e.sd[r], e.sd_err[r]), "stddev", "%s: band %zu has deviation %.15g, expected %.15Lg (+-%.2Lg)", what, r, p.freq_band_stddevs(r),
            e.sd[r], e.sd_err[r]);
    c.check(!Off(p.freq_band_deg_energy(r), e.energy[r], 0), "energy", "%s: band %zu has energy %.15g, expected %.15Lg", what, r, p.freq_band_deg_energy(r), e.energy[r]);
  }
  c.check(!Off(p.similarity, e.sim, e.sim_err), "similarity", "%s: similarity %.15g, expected %.15Lg (+-%.2Lg)", what, p.similarity, e.sim, e.sim_err);
  c.check(p.similarity <= 1 + 1e-9 + (double)e.sim_err, "above-one", "%s: similarity %.17g", what, p.similarity);
  return p;
}
std::string Show(const std::vector<double>& a, const std::vector<double>& b) {
  std::string s;
  char t[40];
  for (double x : a) snprintf(t, sizeof t, "%g ", x), s += t;
  s += "| ";
  for (double x : b) snprintf(t, sizeof t, "%g ", x), s += t;
  return s;
}
// The patterns of a patch as they occur: levels above a common floor.
enum { kFlat, kZero, kRamp, kHarmonics, kOnset, kRandom, kChecker, kPatterns };
std::vector<double> Pattern(int kind, int rows, int cols, int seed) {
  std::vector<double> v(rows * cols);
  Lcg g(seed * 7 + kind);
  for (int r = 0; r < rows; r++)
    for (int k = 0; k < cols; k++) {
      double x = 0;
      switch (kind) {
        case kFlat: x = 20; break;
        case kRamp: x = 45.0 * r / rows + k * 0.3; break;
        case kHarmonics: x = r % 5 == 1 ? 40 : 4; break;
        case kOnset: x = k > cols / 3 ? 35 - 0.5 * r : 0; break;
        case kRandom: x = 45 * g.uni(); break;
        case kChecker: x = (r + k) % 2 ? 30 : 10; break;
      }
      v[r * cols + k] = x;
    }
  return v;
}
struct Shape2 { int rows, cols; };
}  // namespace

// All pairs of small patches over an alphabet of levels.
SCENARIO_T(small, 60) {
  struct D { int rows, cols; std::vector<double> a; };
  static const std::vector<D> quick = {{2, 2, {0, 1, 10, 45}}, {2, 3, {0, 30}}, {3, 2, {2, 40}}, {1, 5, {0, 0.01, 25}}, {5, 1, {0, 3, 45}}, {1, 2, {0, 1e-6, 0.5, 7, 20, 45}}, {1, 1, {0, 1e-9, 1, 20, 45, 110}}, {3, 3, {0, 20}}};
  static const std::vector<D> more = {{2, 2, {0, 1, 10, 45}}, {2, 3, {0, 10, 45}}, {3, 2, {0, 2, 40}}, {1, 5, {0, 0.01, 25, 45}}, {5, 1, {0, 3, 20, 45}}, {3, 3, {0, 20}}, {1, 7, {0, 12, 45}}, {2, 4, {3, 30}}, {4, 2, {0, 30}}, {3, 3, {5, 6}}};
  const auto& set = c.thorough() ? more : quick;
  const D& d = set[c.choose("domain", set.size())];
  const int n = d.rows * d.cols, k = d.a.size();
  // The first pixels of the reference are choices; the rest is a loop.
  int left = 2 * n, fixed = 0, code = 0;
  while (left > 0 && fixed < 5) {
    code = code * k + c.choose("pixel", k);
    fixed++;
    left--;
  }
  long total = 1;
  for (int i = 0; i < left; i++) total *= k;
  std::vector<double> all(2 * n);
  for (long i = 0; i < total; i++) {
    int x = code;
    long y = i;
    for (int j = 0; j < fixed; j++) all[j] = d.a[x % k], x /= k;
    for (int j = fixed; j < 2 * n; j++) all[j] = d.a[y % k], y /= k;
    const std::vector<double> va(all.begin(), all.begin() + n), vb(all.begin() + n, all.end());
    const auto a = Patch(d.rows, d.cols, va), b = Patch(d.rows, d.cols, vb);
    const auto p = Judge(c, a, b, "small patches");
    if (va == vb) c.check(fabs(p.similarity - 1) < 1e-7, "identity", "a patch has similarity %.17g to itself: %s", p.similarity, Show(va, vb).c_str());
    if (i % 97 == 0) c.outcome(p.similarity);
  }
  c.count(total - 1);
  c.note("%dx%d, alphabet of %d", d.rows, d.cols, k);
}

// One pixel changed, everywhere in patches of the real sizes.
SCENARIO_T(pixel, 60) {
  const Shape2 s = c.pick("size", std::vector<Shape2>{{32, 30}, {21, 20}});
  const int kind = c.choose("pattern", kPatterns);
  const double by = c.pick("by", std::vector<double>{1e-3, 1, 30});
  const auto v = Pattern(kind, s.rows, s.cols, 5);
  const auto a = Patch(s.rows, s.cols, v);
  const auto self = Judge(c, a, a, "a patch and itself");
  c.check(fabs(self.similarity - 1) < 1e-7, "identity", "similarity of a patch to itself is %.17g", self.similarity);
  for (int r = 0; r < s.rows; r++)
    for (int k = 0; k < s.cols; k++) {
      if (!c.thorough() && r > 2 && r < s.rows - 3 && k > 2 && k < s.cols - 3 && (r + k) % 3) continue;
      auto w = v;
      w[r * s.cols + k] += by;
      const auto p = Judge(c, a, Patch(s.rows, s.cols, w), "one pixel changed");
      c.count(1);
      for (int i = 0; i < s.rows; i++) {
        const bool near = abs(i - r) <= 1;
        c.check(near || p.freq_band_means(i) == self.freq_band_means(i), "far-band", "a change in band %d changes the similarity of band %d", r, i);
        c.check(i == r || p.freq_band_deg_energy(i) == self.freq_band_deg_energy(i), "far-energy", "a change in band %d changes the energy of band %d", r, i);
      }
      if (by >= 1) c.check(p.similarity < 1 - 1e-9, "unnoticed", "band %d, frame %d changed by %g goes unnoticed", r, k, by);
    }
}

// Laws on pairs of patterns.
SCENARIO_T(laws, 60) {
  const Shape2 s = c.pick("size", std::vector<Shape2>{{32, 30}, {21, 20}, {32, 20}, {5, 30}, {21, 1}, {1, 20}, {64, 70}, {3, 300}, {150, 4}});
  const int ka = c.choose("pattern", kPatterns), kb = c.choose("other", kPatterns);
  const double gain = c.pick("gain", std::vector<double>{1, 0.5, 0.02});
  if (s.rows * s.cols > 1000 && gain != 0.5 && !c.thorough()) c.skip();
  const auto va = Pattern(ka, s.rows, s.cols, 1);
  auto vb = Pattern(kb, s.rows, s.cols, 2);
  for (auto& x : vb) x *= gain;
  const auto a = Patch(s.rows, s.cols, va), b = Patch(s.rows, s.cols, vb);
  const auto p = Judge(c, a, b, "patterns"), q = Judge(c, b, a, "patterns exchanged");
  const auto e = Nsim(FromMatrix(a), FromMatrix(b));
  c.check(fabs(p.similarity - q.similarity) <= 2 * e.sim_err + 1e-11, "asymmetric", "similarity %.17g one way and %.17g the other", p.similarity, q.similarity);
  c.check(a.ToVector() == Patch(s.rows, s.cols, va).ToVector() && b.ToVector() == Patch(s.rows, s.cols, vb).ToVector(), "changed", "comparing changed a patch");
  const auto again = kMeasure.MeasurePatchSimilarity(a, b);
  c.check(again.similarity == p.similarity && again.freq_band_stddevs.ToVector().size() == p.freq_band_stddevs.ToVector().size(), "history", "comparing again gives %.17g instead of %.17g",
          again.similarity, p.similarity);
  // Turned over in time and in frequency.
  auto ta = va, tb = vb, fa = va, fb = vb;
  for (int r = 0; r < s.rows; r++)
    for (int k = 0; k < s.cols; k++) {
      ta[r * s.cols + k] = va[r * s.cols + s.cols - 1 - k], tb[r * s.cols + k] = vb[r * s.cols + s.cols - 1 - k];
      fa[r * s.cols + k] = va[(s.rows - 1 - r) * s.cols + k], fb[r * s.cols + k] = vb[(s.rows - 1 - r) * s.cols + k];
    }
  const auto t = Judge(c, Patch(s.rows, s.cols, ta), Patch(s.rows, s.cols, tb), "reversed in time");
  const auto f = Judge(c, Patch(s.rows, s.cols, fa), Patch(s.rows, s.cols, fb), "reversed in frequency");
  for (int r = 0; r < s.rows; r++) {
    const double tol = 2 * e.mean_err[r] + 1e-11;
    c.check(fabs(t.freq_band_means(r) - p.freq_band_means(r)) <= tol, "time-order", "band %d: %.17g, reversed in time %.17g", r, p.freq_band_means(r), t.freq_band_means(r));
    c.check(fabs(f.freq_band_means(s.rows - 1 - r) - p.freq_band_means(r)) <= tol, "band-order", "band %d: %.17g, with the bands reversed %.17g", r, p.freq_band_means(r), f.freq_band_means(s.rows - 1 - r));
  }
  c.outcome(p.similarity);
  c.note("pattern %d against %d x %g on %dx%d: %.6f", ka, kb, gain, s.rows, s.cols, p.similarity);
}

// Flat patches: only the level counts.
SCENARIO(level) {
  const Shape2 s = c.pick("size", std::vector<Shape2>{{32, 30}, {21, 20}, {2, 2}});
  const std::vector<double> levels = {0, 1e-6, 1e-3, 0.01, 0.1, 1, 5, 20, 45, 90, 110, 200};
  const double x = c.pick("level", levels);
  double before = 2;
  for (double y : levels) {
    if (y < x) continue;
    const auto p = Judge(c, Patch(s.rows, s.cols, std::vector<double>(s.rows * s.cols, x)), Patch(s.rows, s.cols, std::vector<double>(s.rows * s.cols, y)), "flat patches");
    const double want = (2 * x * y + 1e-4) / (x * x + y * y + 1e-4);
    c.check(fabs(p.similarity - want) < 1e-6, "flat", "levels %g and %g: %.12g, expected %.12g", x, y, p.similarity, want);
    c.check(p.similarity <= before + 1e-9, "order", "levels %g and %g: %.12g, more than at a smaller difference (%.12g)", x, y, p.similarity, before);
    before = p.similarity;
  }
  c.count(levels.size());
}
