// variant: fast asan
// The transform between time and frequency and the delay estimator built on it.
#include "checks/common.h"

#include "fast_fourier_transform.h"
#include "fft_manager.h"
#include "misc_math.h"
#include "xcorr.h"

using namespace vt;

namespace {
typedef std::complex<long double> C;
using Visqol::AMatrix;
using Visqol::FastFourierTransform;
using Visqol::FftManager;
typedef AMatrix<std::complex<double>> Spectrum;

size_t Pow2(size_t n) {
  size_t p = 32;
  while (p < n) p *= 2;
  return p;
}
// The transform by its definition, for one frequency.
C Bin(const std::vector<double>& x, size_t k, size_t size) {
  C s = 0;
  for (size_t i = 0; i < x.size(); i++) {
    if (x[i] == 0) continue;
    const long double a = -2 * acosl(-1) * ((k * i) % size) / size;
    s += C(x[i] * cosl(a), x[i] * sinl(a));
  }
  return s;
}
double Norm(const std::vector<double>& x) {
  double s = 0;
  for (double v : x) s += v * v;
  return sqrt(s);
}
AMatrix<double> Column(const std::vector<double>& v) { return AMatrix<double>(v); }

// `bins`: how many frequencies to compare (0: all).
void JudgeForward(mc::Ctx& c, const std::vector<double>& x, const Spectrum& got, size_t size, size_t bins) {
  c.check(got.NumRows() == size && got.NumCols() == 1, "spectrum-size", "%zu samples: %zu bins, expected %zu", x.size(), got.NumRows(), size);
  const double tol = 4e-6 * (Norm(x) * sqrt((double)size) + 1e-30);
  const size_t step = bins == 0 || bins >= size ? 1 : size / bins;
  for (size_t k = 0; k < size; k++) {
    if (k % step && k + 2 < size && k > 2 && (k < size / 2 - 2 || k > size / 2 + 2)) continue;
    const C want = Bin(x, k, size);
    const std::complex<double> g = got(k);
    c.check(fabsl(g.real() - want.real()) <= tol && fabsl(g.imag() - want.imag()) <= tol, "spectrum", "%zu samples, transform of %zu points, bin %zu: %.9g%+.9gi, expected %.9Lg%+.9Lgi", x.size(), size, k, g.real(), g.imag(), want.real(), want.imag());
  }
}
void JudgeInverse(mc::Ctx& c, const std::vector<double>& x, const AMatrix<double>& got, size_t want_size) {
  c.check(got.NumRows() == want_size && got.NumCols() == 1, "inverse-size", "%zu samples come back as %zu", x.size(), got.NumRows());
  const double tol = 4e-6 * (Norm(x) + 1e-30);
  for (size_t i = 0; i < want_size; i++) {
    const double want = i < x.size() ? x[i] : 0;
    c.check(fabs(got(i) - want) <= tol, "inverse", "%zu samples: sample %zu comes back as %.9g, was %.9g", x.size(), i, got(i), want);
  }
}
std::vector<double> Make(int kind, size_t n, int seed = 1) {
  std::vector<double> x(n);
  Lcg g(seed * 977 + n);
  for (size_t i = 0; i < n; i++) {
    switch (kind) {
      case 0: x[i] = g.sym(); break;
      case 1: x[i] = 1; break;
      case 2: x[i] = i % 2 ? -1 : 1; break;
      case 3: x[i] = i + 1 == n; break;
      case 4: x[i] = cos(2 * M_PI * 3 * i / Pow2(n)) * 1000; break;
      case 5: x[i] = g.sym() * 1e-5; break;
    }
  }
  return x;
}

// --- delays ------------------------------------------------------------------
// Judges a delay: the correlation at it is the greatest one.
void JudgeLag(mc::Ctx& c, const std::vector<double>& a, const std::vector<double>& b, const char* what) {
  const int64_t n = a.size(), m = b.size(), most = std::max(n, m) - 1;
  const int64_t got = Visqol::XCorr::FindLowestLagIndex(Column(a), Column(b));
  c.check(got >= -most && got <= most, "lag-range", "%s: delay %ld of signals of %ld and %ld samples", what, (long)got, (long)n, (long)m);
  long double best = 0, mine = 0;
  int64_t where = 0;
  bool first = true;
  for (int64_t l = -most; l <= most; l++) {
    long double s = 0;
    for (int64_t i = std::max<int64_t>(0, -l); i < m && i + l < n; i++) s += (long double)a[i + l] * b[i];
    if (first || s > best) best = s, where = l, first = false;
    if (l == got) mine = s;
  }
  const double tol = 2e-6 * (Norm(a) * Norm(b)) + 1e-30;
  c.check(mine >= best - tol, "lag", "%s (%ld and %ld samples): delay %ld with correlation %.9Lg, but it is %.9Lg at %ld", what, (long)n, (long)m, (long)got, mine, best, (long)where);
}
// The same for a pair whose best delay is known.
void ExpectLag(mc::Ctx& c, const std::vector<double>& a, const std::vector<double>& b, int64_t want, const char* what) {
  const int64_t got = Visqol::XCorr::FindLowestLagIndex(Column(a), Column(b));
  c.check(got == want, "lag", "%s (%zu and %zu samples): delay %ld, expected %ld", what, a.size(), b.size(), (long)got, (long)want);
}
std::vector<double> Digits(int code, int n) {
  std::vector<double> v;
  for (int i = 0; i < n; i++) v.push_back(code % 3 - 1), code /= 3;
  return v;
}
}  // namespace

// Every signal of a few samples from {-1, 0, 1}, against every other.
SCENARIO(all_short_pairs) {
  const int most = c.tier(4, 5);
  const int n = 1 + c.choose("samples", most), m = 1 + c.choose("samples of the other", most);
  int na = 1;
  for (int i = 0; i < n; i++) na *= 3;
  const int code = c.choose("signal", na);
  int nb = 1;
  for (int i = 0; i < m; i++) nb *= 3;
  for (int k = 0; k < nb; k++) JudgeLag(c, Digits(code, n), Digits(k, m), "samples from {-1, 0, 1}");
  c.count(nb - 1);
}

// One pulse in each signal: every pair of positions.
SCENARIO(pulses) {
  static const std::vector<int> kShort = {1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33}, kLong = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 18, 24, 30, 31, 32, 33, 34, 47, 48, 63, 64, 65, 66};
  const auto& lens = c.tier(kShort, kLong);
  const int n = c.pick("samples", lens), m = c.pick("samples of the other", lens);
  const double level = c.pick("level", std::vector<double>{1, 1e-4, 3000, 1e-9});
  for (int i = 0; i < n; i++)
    for (int k = 0; k < m; k++) {
      std::vector<double> a(n), b(m);
      a[i] = level;
      b[k] = level < 1e-6 ? level : 0.5;
      ExpectLag(c, a, b, i - k, "pulses");
    }
  c.count(n * m - 1);
}

// Noise and its shifted copy: every length, every shift up to half of it.
SCENARIO(shifted_noise) {
  const int n = 1 + c.choose("samples", c.tier(260, 700));
  const bool longer = c.flag("the second signal is longer");
  const auto x = Make(0, n * 3, 5);
  const int reach = n / 2;
  for (int s = -reach; s <= reach; s++) {
    const std::vector<double> a(x.begin() + n, x.begin() + 2 * n), b(x.begin() + n + s, x.begin() + 2 * n + s + (longer ? n / 3 : 0));
    JudgeLag(c, a, b, "noise and its shifted copy");
  }
  c.count(2 * reach);
}

// Long signals around the sizes of the transform.
SCENARIO_T(long_signals, 120) {
  static const std::vector<int> kLens = {511, 512, 513, 1024, 1025, 4096, 4097, 8191, 8192, 8193, 12000, 16384, 16385, 24001, 48000, 65536, 65537, 100000, 200001};
  const int n = c.pick("samples", kLens);
  const double frac = c.pick("shift", std::vector<double>{0, 1e-9, 0.01, 0.1, 0.25, 0.4, 0.6, 0.9, -1e-9, -0.01, -0.1, -0.25, -0.4, -0.6, -0.9});
  const int longer = c.choose("second signal", 3);
  const int64_t s = frac == 1e-9 ? 1 : frac == -1e-9 ? -1 : static_cast<int64_t>(n * frac);
  const auto x = Make(0, n * 4, 9);
  const size_t m = longer == 0 ? n : longer == 1 ? n + n / 7 : n - n / 7;
  // The common part must stand out from the noise.
  if (std::min<int64_t>(n, s + m) - std::max<int64_t>(0, s) < (std::abs(frac) > 0.5 ? 1500 : 1)) c.skip();
  const std::vector<double> a(x.begin() + n, x.begin() + 2 * n), b(x.begin() + n + s, x.begin() + n + s + m);
  ExpectLag(c, a, b, s, "noise and its shifted copy");
  c.outcome((double)s);
}

// The transform of every length.
SCENARIO(forward_and_back) {
  const int n = 1 + c.choose("samples", c.tier(300, 1100));
  FftManager probe(n);
  const size_t size = Pow2(n);
  c.check(probe.GetFftSize() == size && probe.GetSamplesPerChannel() == (size_t)n, "transform-size", "%d samples: transform of %zu points for %zu samples, expected %zu", n, probe.GetFftSize(), probe.GetSamplesPerChannel(), size);
  for (int kind = 0; kind < 6; kind++) {
    const auto x = Make(kind, n);
    const auto manager = std::make_unique<FftManager>(n);
    const auto f = FastFourierTransform::Forward1d(manager, Column(x));
    JudgeForward(c, x, f, size, kind == 0 && n <= 140 ? 0 : 12);
    JudgeInverse(c, x, FastFourierTransform::Inverse1dConjSym(manager, f), n);
    const auto back = FastFourierTransform::Inverse1d(manager, f);
    JudgeInverse(c, x, Column([&] { std::vector<double> v; for (size_t i = 0; i < back.NumRows(); i++) v.push_back(back(i).real()); return v; }()), n);
  }
  c.count(5);
}

// Every unit pulse.
SCENARIO(unit_pulses) {
  const int n = 1 + c.choose("samples", c.tier(70, 140));
  for (int i = 0; i < n; i++) {
    std::vector<double> x(n);
    x[i] = 1;
    const auto manager = std::make_unique<FftManager>(n);
    const auto f = FastFourierTransform::Forward1d(manager, Column(x));
    JudgeForward(c, x, f, Pow2(n), 0);
    JudgeInverse(c, x, FastFourierTransform::Inverse1dConjSym(manager, f), n);
  }
  c.count(n - 1);
}

// A signal padded to a given number of points.
SCENARIO(padded) {
  static const std::vector<int> kPoints = {32, 64, 128, 256, 1024};
  const int points = c.pick("points", kPoints);
  const int n = 1 + c.choose("samples", std::min(points, c.tier(128, 1024)));
  for (int kind = 0; kind < 4; kind++) {
    const auto x = Make(kind, n);
    const auto manager = std::make_unique<FftManager>(points);
    const auto in = Column(x);
    const auto f = FastFourierTransform::Forward1d(manager, in, points);
    c.check(in.ToVector() == x, "input-changed", "the transform changes its input");
    JudgeForward(c, x, f, points, kind == 0 && points <= 128 ? 0 : 8);
    JudgeInverse(c, x, FastFourierTransform::Inverse1dConjSym(manager, f), points);
  }
  c.count(3);
}

// Large transforms, which need a workspace of their own.
SCENARIO_T(large, 120) {
  static const std::vector<int> kLens = {4095, 8192, 16383, 16384, 16385, 20000, 32768, 32769, 65536, 131072, 131073};
  const int n = c.pick("samples", kLens), kind = c.choose("signal", 6);
  const auto x = Make(kind, n);
  const auto manager = std::make_unique<FftManager>(n);
  const auto f = FastFourierTransform::Forward1d(manager, Column(x));
  JudgeForward(c, x, f, Pow2(n), 8);
  JudgeInverse(c, x, FastFourierTransform::Inverse1dConjSym(manager, f), n);
}

// One manager used for any sequence of transforms gives what a new one gives.
SCENARIO(reuse) {
  const int n = c.pick("samples", std::vector<int>{1, 5, 31, 32, 33, 100, 128, 20000});
  const int depth = c.tier(3, 5);
  std::vector<int> ops;
  for (int i = 0; i < depth; i++) ops.push_back(c.choose("transform", 6));
  if (n == 20000 && ops[0] != ops[depth - 1]) c.skip();
  const auto manager = std::make_unique<FftManager>(n);
  for (int op : ops) {
    const auto x = Make(op % 3, n, 3);
    const auto fresh = std::make_unique<FftManager>(n);
    const auto want = FastFourierTransform::Forward1d(fresh, Column(x));
    if (op < 3) {
      c.check(FastFourierTransform::Forward1d(manager, Column(x)) == want, "reuse", "a transform of %d samples depends on earlier ones", n);
    } else {
      const auto fresh2 = std::make_unique<FftManager>(n);
      c.check(FastFourierTransform::Inverse1dConjSym(manager, want) == FastFourierTransform::Inverse1dConjSym(fresh2, want), "reuse", "an inverse transform of %d samples depends on earlier ones", n);
    }
  }
  c.count(depth - 1);
}

// The number of points: the next power of two, for every 32-bit number.
SCENARIO_T(next_power, 120) {
  const uint64_t part = c.choose("part", 64);
  const uint64_t first = part << 25, last = (part + 1) << 25;  // covers [0, 2^31]
  uint64_t p = 1;
  while (p < first) p *= 2;
  for (uint64_t i = std::max<uint64_t>(1, first); i <= last; i++) {
    while (p < i) p *= 2;
    if (Visqol::MiscMath::NextPowTwo(i) != p) c.fail("next-power", "the next power of two of %lu is %zu", (unsigned long)i, Visqol::MiscMath::NextPowTwo(i));
  }
  c.count(last - first);
}
