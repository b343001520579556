// variant: fast asan
// Spectrograms: what they measure, of which stretch of the signal, in which bands.
#include <complex>

#include "checks/pipeline.h"
#include "equivalent_rectangular_bandwidth.h"

using namespace vt;

namespace {
typedef long double R;
constexpr R kPi = 3.14159265358979323846264338327950288L;

// The bands as documented by Slaney (Apple TR #35), evaluated independently.
struct Band {
  R centre;
  R a[4][2];  // numerators of the four sections
  R b1, b2;
  R gain;
};
std::vector<Band> Bands(R rate, int n, R low, R high) {
  std::vector<Band> v;
  high = std::min(high, rate / 2);
  const R q = 9.26449L, bw = 24.7L;
  for (int i = n; i >= 1; i--) {
    Band b;
    b.centre = -q * bw + (high + q * bw) * expl(i * (logl(low + q * bw) - logl(high + q * bw)) / n);
    const R t = 1 / rate, erb = b.centre / q + bw, e = expl(-1.019L * 2 * kPi * erb * t), th = 2 * kPi * b.centre * t;
    const R s[4] = {sqrtl(3 + powl(2, 1.5L)), -sqrtl(3 + powl(2, 1.5L)), sqrtl(3 - powl(2, 1.5L)), -sqrtl(3 - powl(2, 1.5L))};
    b.b1 = -2 * cosl(th) * e;
    b.b2 = e * e;
    const std::complex<R> zi(cosl(th), -sinl(th));
    std::complex<R> h(1, 0);
    for (int k = 0; k < 4; k++) {
      b.a[k][0] = t;
      b.a[k][1] = -t * e * (cosl(th) + s[k] * sinl(th));
      h *= (b.a[k][0] + b.a[k][1] * zi) / (R(1) + b.b1 * zi + b.b2 * zi * zi);
    }
    b.gain = std::abs(h);
    v.push_back(b);
  }
  return v;
}
// The level of a band in a frame.
R Level(const Band& b, const double* x, int n) {
  std::vector<R> y(n);
  for (int i = 0; i < n; i++) y[i] = x[i] * (0.5L - 0.5L * cosl(2 * kPi * i / (n - 1)));
  for (int k = 0; k < 4; k++) {
    R x1 = 0, y1 = 0, y2 = 0;
    for (int i = 0; i < n; i++) {
      const R in = y[i], out = b.a[k][0] * in + b.a[k][1] * x1 - b.b1 * y1 - b.b2 * y2;
      x1 = in, y2 = y1, y1 = out;
      y[i] = out;
    }
  }
  R s = 0;
  for (R v : y) s += v * v;
  return sqrtl(s / n) / b.gain;
}
struct Kind { const char* name; bool speech; int bands; };
const Kind kKinds[] = {{"audio", false, 32}, {"speech", true, 21}};
size_t WindowSize(size_t rate) { return static_cast<size_t>(roundl(rate * 0.08L)); }
size_t Hop(size_t rate) { return WindowSize(rate) / 4; }

absl::StatusOr<Visqol::Spectrogram> Build(const Kind& k, const std::vector<double>& v, size_t rate) {
  auto b = Gammatone(k.speech);
  return b->Build(ToSignal(v, rate), AnalysisWindow(rate, 0.25));
}
}  // namespace

// Sizes of windows and hops at every rate.
SCENARIO(window) {
  const int block = c.choose("block", c.tier(200, 400));
  for (size_t rate = block * 1000; rate < (block + 1) * 1000u; rate++) {
    const AnalysisWindow w(rate, 0.25);
    const double exact = rate * 0.08;
    c.check(fabs(w.size - exact) <= 0.5 + 1e-9, "size", "at %zu Hz the window has %zu samples, 80 ms are %g", rate, w.size, exact);
    c.check(w.overlap == 0.25 && w.window_duration == 0.08, "hop", "at %zu Hz the hop is %g of the window of %g s", rate, w.overlap, w.window_duration);
  }
  c.count(999);
}

// The window's shape: applied to constant and numbered signals.
SCENARIO(hann) {
  const size_t size = 2 + c.choose("size", c.tier(700, 4000));
  AnalysisWindow w(1000, 0.25, size / 1000.0);
  c.check(w.size == size, "size", "%zu samples instead of %zu", w.size, size);
  std::valarray<double> x(size);
  for (size_t i = 0; i < size; i++) x[i] = 1 + i % 7 - 3.0 * (i % 3);
  const auto y = w.ApplyHannWindow(x);
  c.check(y.size() == size, "length", "%zu samples became %zu", size, y.size());
  for (size_t i = 0; i < size; i++) {
    const R want = x[i] * (0.5L - 0.5L * cosl(2 * kPi * i / (size - 1)));
    c.check(fabsl(y[i] - want) < 1e-12, "shape", "sample %zu of %zu is weighted %g instead of %Lg", i, size, y[i] / x[i], want / x[i]);
  }
}

// The number of frames for every length, or an error.
SCENARIO(frames) {
  const Kind& k = kKinds[c.choose("mode", 2)];
  const size_t rate = c.pick("rate", std::vector<size_t>{1, 5, 12, 40, 50, 56, 57, 62, 100, 150, 333, 800, 1000});
  const size_t win = WindowSize(rate), hop = Hop(rate);
  const int from = c.choose("lengths", c.tier(4, 12)) * 50;
  auto b = Gammatone(k.speech);
  for (size_t n = from; n < from + 50u; n++) {
    const auto s = b->Build(ToSignal(Signal(kNoise, n, rate ? rate : 1, 3), rate), AnalysisWindow(rate, 0.25));
    const bool possible = hop > 0 && n > win;
    c.check(s.ok() == possible, possible ? "refused" : "accepted", "%zu samples at %zu Hz: %s", n, rate, s.ok() ? "accepted" : s.status().ToString().c_str());
    if (!s.ok()) continue;
    c.check(s->Data().NumRows() == size_t(k.bands) && s->Data().NumCols() == 1 + (n - win) / hop, "frames", "%zu samples at %zu Hz: %zu bands, %zu frames; expected %d and %zu", n, rate,
            s->Data().NumRows(), s->Data().NumCols(), k.bands, 1 + (n - win) / hop);
  }
  c.count(49);
}

// Every value of the spectrogram, for several signals and rates.
SCENARIO_T(values, 60) {
  const Kind& k = kKinds[c.choose("mode", 2)];
  const std::vector<size_t> rates = c.thorough() ? std::vector<size_t>{200, 400, 800, 1000, 4000, 8000, 11025, 16000, 16001, 22050, 24000, 32000, 44100, 48000, 96000}
                                                 : std::vector<size_t>{400, 800, 1000, 8000, 11025, 16000, 17000, 44100, 48000, 96000};
  const size_t rate = c.pick("rate", rates);
  const int shape = c.choose("signal", kShapes);
  const size_t win = WindowSize(rate), hop = Hop(rate);
  const size_t frames = rate > 5000 ? 4 : 12;
  const size_t n = win + (frames - 1) * hop + 1 + c.pick("more", std::vector<size_t>{0, hop / 2});
  const double gain = c.pick("gain", std::vector<double>{1, 1e-4});
  auto x = Signal(shape, n, rate, 4);
  for (auto& v : x) v *= gain;
  const auto s = Build(k, x, rate);
  c.check(s.ok(), "failed", "%s", s.status().ToString().c_str());
  const auto bands = Bands(rate, k.bands, 50, k.speech ? 8000 : rate / 2.0L);
  const auto centres = s->GetCenterFreqBands();
  c.check(centres.size() == bands.size(), "centres", "%zu centre frequencies", centres.size());
  for (size_t b = 0; b < bands.size(); b++)
    c.check(fabsl(centres[b] - bands[b].centre) <= 1e-6L * (1 + bands[b].centre), "centre", "band %zu is centred at %.9g Hz instead of %.9Lg", b, centres[b], bands[b].centre);
  R top = 0;
  std::vector<std::vector<R>> want(bands.size());
  for (size_t b = 0; b < bands.size(); b++)
    for (size_t f = 0; f < s->Data().NumCols(); f++) {
      const R l = Level(bands[b], x.data() + f * hop, win);
      want[b].push_back(l);
      top = std::max(top, l);
    }
  for (size_t b = 0; b < bands.size(); b++)
    for (size_t f = 0; f < s->Data().NumCols(); f++) {
      const double got = s->Data()(b, f);
      c.check(fabsl(got - want[b][f]) <= 1e-6L * want[b][f] + 1e-10L * top, "value", "band %zu (%.1Lf Hz), frame %zu: %.12g, expected %.12Lg", b, bands[b].centre, f, got, want[b][f]);
    }
  c.outcome(s->Data()(0, 0));
  c.note("%s at %zu Hz as %s: %zu frames", ShapeName(shape), rate, k.name, s->Data().NumCols());
}

// The same for signals of many frames.
SCENARIO_T(long_signals, 120) {
  const Kind& k = kKinds[c.choose("mode", 2)];
  struct L { size_t rate, frames; };
  const L l = c.pick("signal", c.thorough() ? std::vector<L>{{800, 3000}, {8000, 700}, {16000, 300}, {48000, 130}} : std::vector<L>{{800, 1000}, {8000, 150}, {48000, 40}});
  const int shape = c.pick("shape", std::vector<int>{kNoise, kBursts, kChirp});
  const size_t win = WindowSize(l.rate), hop = Hop(l.rate);
  const auto x = Signal(shape, win + (l.frames - 1) * hop + hop / 3 + 1, l.rate, 4);
  const auto s = Build(k, x, l.rate);
  c.check(s.ok(), "failed", "%s", s.status().ToString().c_str());
  c.check(s->Data().NumCols() == l.frames, "frames", "%zu frames instead of %zu", s->Data().NumCols(), l.frames);
  const auto bands = Bands(l.rate, k.bands, 50, k.speech ? 8000 : l.rate / 2.0L);
  for (size_t b = 0; b < bands.size(); b++)
    for (size_t f = 0; f < l.frames; f++) {
      const R want = Level(bands[b], x.data() + f * hop, win);
      c.check(fabsl(s->Data()(b, f) - want) <= 1e-6L * want + 1e-10L, "value", "band %zu, frame %zu of %zu: %.12g, expected %.12Lg", b, f, l.frames, s->Data()(b, f), want);
    }
  c.outcome(s->Data()(0, 0));
  c.note("%s at %zu Hz as %s: %zu frames", ShapeName(shape), l.rate, k.name, l.frames);
}

// A sample counts in the frames it is in, and in no other.
SCENARIO_T(local, 60) {
  const Kind& k = kKinds[c.choose("mode", 2)];
  const size_t rate = c.pick("rate", std::vector<size_t>{400, 1000, 1013});
  const size_t win = WindowSize(rate), hop = Hop(rate);
  const size_t n = win + 9 * hop + hop / 3;
  const int part = c.choose("part", 8);
  const auto x = Signal(kChord, n, rate, 2);
  auto b = Gammatone(k.speech);
  const auto base = b->Build(ToSignal(x, rate), AnalysisWindow(rate, 0.25));
  c.check(base.ok(), "failed", "%s", base.status().ToString().c_str());
  const auto& m = base->Data();
  for (size_t i = part * n / 8; i < (part + 1) * n / 8; i++) {
    auto y = x;
    y[i] += 0.5;
    const auto s = b->Build(ToSignal(y, rate), AnalysisWindow(rate, 0.25));
    c.check(s.ok() && s->Data().NumCols() == m.NumCols(), "shape", "a sample changed the number of frames");
    for (size_t f = 0; f < m.NumCols(); f++) {
      const bool in = i >= f * hop && i < f * hop + win;
      const bool inside = i > f * hop && i + 1 < f * hop + win - hop / 2;  // not at the ends, where the window is near zero
      bool same = true;
      for (size_t r = 0; r < m.NumRows(); r++) same = same && s->Data()(r, f) == m(r, f);
      c.check(in || same, "leak", "sample %zu changes frame %zu, which is samples %zu to %zu", i, f, f * hop, f * hop + win);
      c.check(!inside || !same, "missed", "sample %zu does not count in frame %zu, which is samples %zu to %zu", i, f, f * hop, f * hop + win);
    }
  }
  c.count(n / 8);
}

// Shift by hops, gain, and sign.
SCENARIO_T(laws, 60) {
  const Kind& k = kKinds[c.choose("mode", 2)];
  const size_t rate = c.pick("rate", std::vector<size_t>{800, 1000, 11025, 48000});
  const int shape = c.choose("signal", kShapes);
  const int hops = 1 + c.choose("hops", 3);
  const size_t win = WindowSize(rate), hop = Hop(rate);
  const size_t n = win + 5 * hop + 1;
  const auto x = Signal(shape, n, rate, 6);
  const auto base = Build(k, x, rate);
  c.check(base.ok(), "failed", "%s", base.status().ToString().c_str());
  const auto& m = base->Data();
  for (size_t r = 0; r < m.NumRows(); r++)
    for (size_t f = 0; f < m.NumCols(); f++) c.check(std::isfinite(m(r, f)) && m(r, f) >= 0, "negative", "band %zu, frame %zu has the level %g", r, f, m(r, f));
  auto later = Signal(kNoise, hops * hop, rate, 8);
  later.insert(later.end(), x.begin(), x.end());
  const auto s = Build(k, later, rate);
  c.check(s.ok() && s->Data().NumCols() == m.NumCols() + hops, "shift-frames", "%zu frames, %zu when %d hops later", m.NumCols(), s->Data().NumCols(), hops);
  for (size_t r = 0; r < m.NumRows(); r++)
    for (size_t f = 0; f < m.NumCols(); f++)
      c.check(Near(s->Data()(r, f + hops), m(r, f), 1e-9, 1e-12), "shift", "band %zu, frame %zu: %.17g, and %.17g when %d hops later", r, f, m(r, f), s->Data()(r, f + hops), hops);
  double top = 0;
  for (size_t r = 0; r < m.NumRows(); r++)
    for (size_t f = 0; f < m.NumCols(); f++) top = std::max(top, m(r, f));
  for (double g : {0.25, 64.0, -1.0, 3.0}) {
    auto y = x;
    for (auto& v : y) v *= g;
    const auto q = Build(k, y, rate);
    for (size_t r = 0; r < m.NumRows(); r++)
      for (size_t f = 0; f < m.NumCols(); f++)
        c.check(Near(q->Data()(r, f), fabs(g) * m(r, f), 1e-8, fabs(g) * top * 1e-10), "gain", "band %zu, frame %zu: %.17g, with gain %g %.17g", r, f, m(r, f), g, q->Data()(r, f));
  }
  c.count(5);
}

// A tone is loudest in its own band.
SCENARIO(tone) {
  const Kind& k = kKinds[c.choose("mode", 2)];
  const size_t rate = c.pick("rate", std::vector<size_t>{8000, 16000, 44100, 48000});
  const auto bands = Bands(rate, k.bands, 50, k.speech ? 8000 : rate / 2.0L);
  const int band = c.choose("band", k.bands);
  const size_t n = WindowSize(rate) + Hop(rate) + 1;
  std::vector<double> x(n);
  for (size_t i = 0; i < n; i++) x[i] = 0.5 * sin(2 * M_PI * (double)bands[band].centre * i / rate + 0.3);
  const auto s = Build(k, x, rate);
  c.check(s.ok(), "failed", "%s", s.status().ToString().c_str());
  for (size_t f = 0; f < s->Data().NumCols(); f++) {
    int best = 0;
    for (int b = 1; b < k.bands; b++)
      if (s->Data()(b, f) > s->Data()(best, f)) best = b;
    c.check(best == band, "band", "a tone of %.1Lf Hz, the centre of band %d, is loudest in band %d", bands[band].centre, band, best);
  }
  c.note("%.1Lf Hz at %zu Hz: band %d", bands[band].centre, rate, band);
}

// Filters for every rate and number of bands: ascending bands between the
// limits, unit gain at each centre, no instability.
SCENARIO_T(filters, 60) {
  const int bands = 1 + c.choose("bands", c.tier(40, 80));
  const size_t rate = c.pick("rate", std::vector<size_t>{120, 200, 1000, 8000, 16000, 44100, 48000, 96000});
  const double high = c.pick("high", std::vector<double>{0, 8000, 24000});
  const double top = high == 0 ? rate / 2.0 : high;
  const auto r = Visqol::EquivalentRectangularBandwidth::MakeFilters(rate, bands, 50, top);
  const auto want = Bands(rate, bands, 50, top);
  c.check(r.centerFreqs.size() == size_t(bands) && r.filterCoeffs.size() == 10, "shape", "%zu centre frequencies and %zu coefficients for %d bands", r.centerFreqs.size(), r.filterCoeffs.size(), bands);
  for (int i = 0; i < bands; i++) {
    const auto& w = want[bands - 1 - i];  // highest first
    c.check(fabsl(r.centerFreqs[i] - w.centre) <= 1e-6L * w.centre, "centre", "band %d is centred at %.12g Hz, expected %.12Lg", i, r.centerFreqs[i], w.centre);
    const R one[10] = {w.a[0][0], w.a[0][1], w.a[1][1], w.a[2][1], w.a[3][1], 0, 1, w.b1, w.b2, w.gain};
    for (int j = 0; j < 10; j++) {
      const double got = r.filterCoeffs[j][i];
      const R scale = j >= 1 && j <= 4 ? w.a[0][0] : j == 7 ? 1 : 0;
      c.check(fabsl(got - one[j]) <= (j == 9 ? 1e-6L : 1e-11L) * (fabsl(one[j]) + scale), "coefficient", "band %d of %d at %zu Hz: coefficient %d is %.15g, expected %.15Lg", i, bands, rate, j, got, one[j]);
    }
  }
}

// A signal filtered in blocks gives what it gives as a whole, and nothing of a
// signal is left after the conditions are reset.
SCENARIO_T(blocks, 60) {
  const int bands = c.pick("bands", std::vector<int>{1, 21, 32});
  const size_t rate = c.pick("rate", std::vector<size_t>{1000, 48000});
  const int n = c.tier(9, 12);
  std::vector<int> sizes;
  int at = 0;
  while (at < n) {
    sizes.push_back(1 + c.choose("block", n - at));
    at += sizes.back();
  }
  const auto r = Visqol::EquivalentRectangularBandwidth::MakeFilters(rate, bands, 50, rate / 2.0);
  const AMatrix<double> coefficients = AMatrix<double>(r.filterCoeffs).FlipUpDown();
  Visqol::GammatoneFilterBank whole(bands, 50), split(bands, 50);
  whole.SetFilterCoefficients(coefficients);
  split.SetFilterCoefficients(coefficients);
  std::valarray<double> x(n);
  for (int i = 0; i < n; i++) x[i] = (i * 37 % 11 - 5) / 7.0;
  const auto want = whole.ApplyFilter(x);
  for (int round = 0; round < 2; round++) {
    at = 0;
    for (int s : sizes) {
      const auto got = split.ApplyFilter(std::valarray<double>(x[std::slice(at, s, 1)]));
      c.check(got.NumRows() == size_t(bands) && got.NumCols() == size_t(s), "block-shape", "%d samples gave %zux%zu", s, got.NumRows(), got.NumCols());
      for (int b = 0; b < bands; b++)
        for (int i = 0; i < s; i++) c.check(got(b, i) == want(b, at + i), round ? "not-reset" : "block", "band %d, sample %d: %.17g in blocks, %.17g as a whole", b, at + i, got(b, i), want(b, at + i));
      at += s;
    }
    split.ResetFilterConditions();
  }
}
