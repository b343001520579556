// variant: fast asan
// Patch matching: among all the ways to assign degraded positions to the
// reference patches, the selector must return one with the best total.
#include "checks/pipeline.h"

using namespace vt;

namespace {
constexpr double kFar = -1e300;
struct Case {
  std::vector<size_t> at;  // where the reference patches start
  int cols, size, radius, bands = 1;
  double frame = 0.02;
  std::vector<std::vector<double>> sim;  // [patch][offset]
  int64_t Window() const { return static_cast<int64_t>(radius) * size; }
  bool In(int i, int64_t o) const {
    return o >= 0 && o < cols && o >= static_cast<int64_t>(at[i]) - Window() && o <= static_cast<int64_t>(at[i]) + Window();
  }
};
// Looks the similarity up by which patch it is given: reference patches hold
// minus their number (from 1), a degraded patch the number of its columns.
struct Lookup : Visqol::PatchSimilarityComparator {
  const Case* k;
  mutable std::string wrong;
  PatchSimilarityResult MeasurePatchSimilarity(const ImagePatch& r, const ImagePatch& d) const override {
    const int i = static_cast<int>(-r(0, 0)) - 1, o = static_cast<int>(d(0, 0)) - 1;
    PatchSimilarityResult p{};
    if (d.NumRows() != static_cast<size_t>(k->bands) || d.NumCols() != static_cast<size_t>(k->size) || o < 0 || o >= k->cols || i < 0 ||
        i >= static_cast<int>(k->at.size())) {
      wrong = "a patch of another shape or place";
      p.freq_band_means = AMatrix<double>::Filled(k->bands, 1, 0.0);
      return p;
    }
    for (int b = 0; b < k->bands; b++)
      for (int j = 0; j < k->size; j++)
        if (d(b, j) != (o + j < k->cols ? 1000 * b + o + j + 1 : 0)) wrong = "the degraded patch at " + std::to_string(o) + " has other contents";
    p.similarity = k->sim[i][o];
    p.freq_band_means = AMatrix<double>::Filled(k->bands, 1, k->sim[i][o] + 3);
    p.freq_band_stddevs = AMatrix<double>::Filled(k->bands, 1, i + 10.0);
    p.freq_band_deg_energy = AMatrix<double>::Filled(k->bands, 1, o + 20.0);
    return p;
  }
};
// Every assignment: the first patch is matched; each later one is matched
// further on, or has no counterpart, which it may have only while the position
// of the one before is in reach.
void Every(const Case& k, int n, int i, int prev, double total, double* best) {
  if (i == n) { *best = std::max(*best, total); return; }
  for (int o = prev + 1; o < k.cols; o++)
    if (k.In(i, o)) Every(k, n, i + 1, o, total + k.sim[i][o], best);
  if (i > 0 && k.In(i, prev)) Every(k, n, i + 1, prev, total, best);
}
// The same by stages, for long inputs: g[o] is the best total of the patches
// from i on when the patch before sits at o.
double Staged(const Case& k, int n) {
  std::vector<double> g(k.cols + 1, 0.0);
  for (int i = n - 1; i >= 0; i--) {
    std::vector<double> h(k.cols + 1, kFar);
    double ahead = kFar;
    for (int p = k.cols - 1; p >= -1; p--) {
      if (p + 1 < k.cols && k.In(i, p + 1)) ahead = std::max(ahead, k.sim[i][p + 1] + g[p + 2]);
      h[p + 1] = ahead;
      if (i > 0 && p >= 0 && k.In(i, p)) h[p + 1] = std::max(h[p + 1], g[p + 1]);
    }
    g = h;
  }
  return g[0];
}
void Judge(mc::Ctx& c, const Case& k, bool every = true) {
  const int all = k.at.size();
  int n = all;  // patches that begin at most half a patch past the end take part
  while (n > 0 && static_cast<int64_t>(k.at[n - 1]) - k.size / 2 > k.cols) n--;
  double best = kFar;
  if (n > 0) {
    if (every) Every(k, n, 0, -1, 0, &best);
    else best = Staged(k, n);
  }
  std::vector<ImagePatch> refs;
  for (int i = 0; i < all; i++) refs.push_back(AMatrix<double>::Filled(k.bands, k.size, -1.0 - i));
  AMatrix<double> deg(k.bands, k.cols);
  for (int b = 0; b < k.bands; b++)
    for (int j = 0; j < k.cols; j++) deg(b, j) = 1000 * b + j + 1;
  auto look = std::make_unique<Lookup>();
  look->k = &k;
  const Lookup* seen = look.get();
  const Visqol::ComparisonPatchesSelector sel(std::move(look));
  const auto r = sel.FindMostOptimalDegPatches(refs, k.at, deg, k.frame, k.radius);
  c.check(seen->wrong.empty(), "wrong-patch", "%s", seen->wrong.c_str());
  if (best <= kFar / 2) {
    c.check(!r.ok(), "invented", "a result of %zu patches where no assignment exists", r.ok() ? r->size() : size_t(0));
    c.outcome(-1);
    return;
  }
  c.check(r.ok(), "no-result", "%s, but an assignment worth %g exists", r.status().ToString().c_str(), best);
  c.check(static_cast<int>(r->size()) == n, "count", "%zu patches, %d take part", r->size(), n);
  double total = 0;
  int prev = -1, lost = 0;
  uint64_t h = 0;
  for (int i = 0; i < n; i++) {
    const auto& p = (*r)[i];
    const double len = k.size * k.frame;
    c.check(Near(p.ref_patch_start_time, k.at[i] * k.frame, 1e-9, 1e-12) && Near(p.ref_patch_end_time, k.at[i] * k.frame + len, 1e-9, 1e-12), "ref-time",
            "reference patch %d at frame %zu is said to last from %g to %g s", i, k.at[i], p.ref_patch_start_time, p.ref_patch_end_time);
    total += p.similarity;
    bool means_zero = p.freq_band_means.NumRows() == static_cast<size_t>(k.bands);
    for (double d : p.freq_band_means.ToVector()) means_zero &= d == 0;
    if (p.deg_patch_end_time == 0 && p.deg_patch_start_time == 0) {
      lost++;
      h = h * 31 + 7;
      c.check(i > 0 && p.similarity == 0 && means_zero, "lost", "patch %d without a counterpart has the similarity %g", i, p.similarity);
      c.check(k.In(i, prev), "lost-out-of-reach", "patch %d has no counterpart though the position before, %d, is not in its reach", i, prev);
      continue;
    }
    const int o = static_cast<int>(lround(p.deg_patch_start_time / k.frame));
    c.check(Near(p.deg_patch_start_time, o * k.frame, 1e-9, 1e-12) && Near(p.deg_patch_end_time, o * k.frame + len, 1e-9, 1e-12), "deg-time",
            "the degraded patch is said to last from %g to %g s", p.deg_patch_start_time, p.deg_patch_end_time);
    c.check(o >= 0 && o < k.cols && k.In(i, o), "out-of-window", "patch %d at %zu is matched at %d", i, k.at[i], o);
    c.check(o > prev, "order", "patch %d is matched at %d, the one before at %d", i, o, prev);
    c.check(p.similarity == k.sim[i][o] && p.freq_band_means(0) == k.sim[i][o] + 3 && p.freq_band_stddevs(0) == i + 10.0 && p.freq_band_deg_energy(0) == o + 20.0,
            "other-result", "patch %d at %d has the similarity %g, the comparator said %g", i, o, p.similarity, k.sim[i][o]);
    prev = o;
    h = h * 31 + o + 11;
  }
  c.outcome(h);
  c.check(Near(total, best, 1e-9, 1e-9), "not-best", "the total is %.9g (%d without counterpart), the best is %.9g", total, lost, best);
}
struct Grid {
  std::vector<size_t> at;
  int cols, size, radius;
};
const std::vector<Grid>& Layouts(bool thorough) {
  static std::vector<Grid> l = {
      {{0}, 5, 2, 9}, {{2}, 4, 1, 1}, {{0, 1}, 4, 1, 4}, {{0, 1}, 5, 1, 1}, {{1, 3}, 6, 1, 1}, {{0, 2}, 5, 2, 1}, {{2, 3}, 6, 1, 2},
      {{0, 1, 2}, 4, 1, 9}, {{0, 1, 2}, 4, 1, 1}, {{0, 2, 4}, 6, 1, 2}, {{0, 2, 4}, 5, 2, 1}, {{1, 2, 3, 4}, 6, 1, 1}, {{1, 4, 7}, 7, 3, 1},
      {{0, 1, 4, 5}, 6, 1, 1}, {{0, 0, 0}, 4, 1, 9}, {{0, 4, 5}, 5, 3, 1}};
  static std::vector<Grid> big = {{{0, 1, 2}, 5, 1, 9}, {{0, 2, 4}, 6, 2, 2}, {{1, 2, 3, 4, 5}, 7, 1, 1}, {{0, 1, 2, 3}, 4, 1, 9}};
  static std::vector<Grid> both = [] { auto b = l; b.insert(b.end(), big.begin(), big.end()); return b; }();
  static std::vector<Grid> most = [] { auto b = both; b.insert(b.end(), {{{0, 1, 2}, 6, 1, 9}, {{0, 3, 6}, 8, 2, 1}, {{1, 2, 3, 4, 5, 6}, 8, 1, 1}, {{0, 2, 4, 6}, 8, 2, 1}, {{0, 1}, 7, 1, 9}}); return b; }();
  return thorough ? most : both;
}
}  // namespace

// All tables over a few values, cell by cell, for a set of layouts.
SCENARIO_T(tables, 120) {
  const auto& ls = Layouts(c.thorough());
  const Grid& l = ls[c.choose("layout", ls.size())];
  Case k{l.at, l.cols, l.size, l.radius};
  std::vector<std::pair<int, int>> cells;
  for (int i = 0; i < static_cast<int>(k.at.size()); i++)
    for (int o = 0; o < k.cols; o++)
      if (k.In(i, o)) cells.push_back({i, o});
  const int m = cells.size();
  static const double apart[] = {-0.3, 0.7, 0.2, 1}, near[] = {-1e-7, 0.5, 0.5 + 1e-7, 0}, high[] = {1, 0.9995, 0.999999, 0.97};
  const double* sets[] = {apart, near, high};
  const double* values = m <= c.tier(10, 13) ? sets[c.choose("values", 3)] : apart;
  const int nv = m <= c.tier(8, 12) ? 4 : m <= c.tier(13, 15) ? 3 : 2;
  k.sim.assign(k.at.size(), std::vector<double>(k.cols, 50));  // out of the window: tempting
  const int outer = std::max(0, m - c.tier(6, 8));
  for (int i = 0; i < outer; i++) k.sim[cells[i].first][cells[i].second] = values[c.choose("cell", nv)];
  int inner = 1;
  for (int i = outer; i < m; i++) inner *= nv;
  for (int t = 0; t < inner; t++) {
    for (int i = outer, x = t; i < m; i++, x /= nv) k.sim[cells[i].first][cells[i].second] = values[x % nv];
    Judge(c, k);
  }
  c.count(inner - 1);
  c.note("%zu patches of %d in %d frames, radius %d: %d cells of %d values", k.at.size(), k.size, k.cols, k.radius, m, nv);
}
// All small layouts with a few tables each.
SCENARIO(layouts) {
  const int n = 1 + c.choose("patches", c.tier(3, 4));
  Case k;
  k.size = c.pick("size", std::vector<int>{1, 2, 3, 4, 7});
  size_t at = c.choose("first", 4) * 2;
  for (int i = 0; i < n; i++) {
    k.at.push_back(at);
    at += c.pick("gap", std::vector<int>{1, 2, 5, 0});
  }
  k.bands = 1 + n % 2;
  const double frames[] = {0.02, 0.019954648526077097, 1, 1.0 / 3};
  for (k.cols = 1; k.cols <= c.tier(9, 13); k.cols++)
    for (int radius : {0, 1, 2, 60, 2000000000, -1})
      for (int t = 0; t < 4; t++) {
        k.radius = radius;
        k.frame = frames[t];
        Lcg g(t + k.cols * 7 + n);
        k.sim.assign(n, std::vector<double>(k.cols));
        for (int i = 0; i < n; i++)
          for (int o = 0; o < k.cols; o++) k.sim[i][o] = t == 0 ? 1 - 0.1 * std::abs(o - 2 * i) : t == 1 ? g.sym() : t == 2 ? g.uni() : -g.uni();
        Judge(c, k);
        c.count(1);
      }
  c.note("%d patches of %d from %zu", n, k.size, k.at[0]);
}
// Inputs as large as real ones.
SCENARIO_T(long, 60) {
  const int n = c.pick("patches", c.thorough() ? std::vector<int>{1, 2, 3, 5, 10, 20, 40, 70, 150} : std::vector<int>{1, 2, 3, 5, 10, 20, 70});
  const bool speech = c.flag("speech");
  Case k;
  k.size = speech ? 20 : 30;
  for (int i = 0; i < n; i++) k.at.push_back(k.size / 2 - 1 + i * k.size);
  const int whole = k.at.back() + k.size + 15;
  k.cols = std::max(1, whole + c.pick("cols", std::vector<int>{0, -40, 55, -whole / 2}));
  k.radius = c.pick("radius", std::vector<int>{0, 1, 2, 60});
  k.frame = c.pick("frame", std::vector<double>{0.02, 0.019954648526077097});
  k.bands = 2;
  const int kind = c.choose("kind", 5);
  Lcg g(kind * 100 + n);
  const int shift = kind == 0 ? 0 : kind == 1 ? 7 : -9;
  k.sim.assign(n, std::vector<double>(k.cols));
  for (int i = 0; i < n; i++)
    for (int o = 0; o < k.cols; o++) {
      const int d = std::abs(o - static_cast<int>(k.at[i]) - shift);
      double v = kind < 3 ? 1.0 / (1 + 0.3 * d) : kind == 3 ? g.uni() : g.sym();
      if (kind == 2 && i % 3 == 1) v = -0.2 - 0.001 * d;  // lost
      k.sim[i][o] = v + 1e-4 * g.uni();
    }
  Judge(c, k, false);
  c.note("%d patches of %d in %d frames, radius %d, table %d", n, k.size, k.cols, k.radius, kind);
}
// Hours of degraded signal: places beyond 2^15 and 2^16 frames.
SCENARIO_T(far, 120) {
  Case k;
  k.size = 2;
  k.bands = 1;
  k.cols = c.pick("cols", std::vector<int>{32800, 65600, 70001});
  const int n = c.pick("patches", std::vector<int>{2, 3});
  const int step = c.pick("step", std::vector<int>{3, 5, 70});
  for (int i = 0; i < n; i++) k.at.push_back(k.cols - 40 - static_cast<size_t>(n - i) * step);
  k.radius = c.pick("radius", std::vector<int>{1, 12, 100});
  const int kind = c.choose("kind", 4);
  k.sim.assign(n, std::vector<double>(k.cols));
  Lcg g(kind + n);
  for (int i = 0; i < n; i++)
    for (int o = 0; o < k.cols; o++) {
      const int d = std::abs(o - static_cast<int>(k.at[i]) + (kind == 1 ? 2 : kind == 2 ? -2 : 0));
      k.sim[i][o] = (kind == 3 ? g.uni() : 1.0 / (1 + 0.3 * d)) + 1e-4 * g.uni();
    }
  Judge(c, k, false);
  c.note("%d patches from %zu in %d frames, radius %d, table %d", n, k.at[0], k.cols, k.radius, kind);
}
// Nothing to match.
SCENARIO(empty) {
  const Visqol::ComparisonPatchesSelector sel(std::make_unique<Lookup>());
  AMatrix<double> deg = AMatrix<double>::Filled(2, 1 + c.choose("cols", 5), 1.0);
  const auto r = sel.FindMostOptimalDegPatches({}, {}, deg, 0.02, c.pick("radius", std::vector<int>{0, 1, 60, -1}));
  c.check(!r.ok(), "invented", "a result without reference patches");
  c.note("no reference patches");
}
