// variant: fast
// Global alignment: the delay between the signals is found, reported with the
// right sign and removed; nothing else happens to the signals.
#include "alignment.h"
#include "checks/pipeline.h"
#include "checks/session.h"
#include "envelope.h"
#include "xcorr.h"

using namespace vt;

namespace {
AMatrix<double> Col(const std::vector<double>& v) { return ToSignal(v, 1).data_matrix; }
// corr[k] = sum over i of a[i + k] * b[i], for k = -(n-1) .. n-1, n the longer length.
std::vector<double> Correlate(const std::vector<double>& a, const std::vector<double>& b) {
  const int n = std::max(a.size(), b.size());
  std::vector<double> r(2 * n - 1);
  for (int k = -(n - 1); k <= n - 1; k++) {
    double s = 0;
    const int lo = std::max(0, -k), hi = std::min<int>(b.size(), static_cast<int>(a.size()) - k);
    for (int i = lo; i < hi; i++) s += a[i + k] * b[i];
    r[k + n - 1] = s;
  }
  return r;
}
struct Best {
  double value;
  int at, others;  // how many other lags come within the tolerance
};
Best Peak(const std::vector<double>& r, double tol) {
  const int n = (r.size() + 1) / 2;
  Best b{-1e300, 0, -1};
  for (int i = 0; i < static_cast<int>(r.size()); i++)
    if (r[i] > b.value) b = {r[i], i - n + 1, -1};
  for (double d : r) b.others += d >= b.value - tol;
  return b;
}
double Energy(const std::vector<double>& a, const std::vector<double>& b) {
  double x = 0, y = 0;
  for (double d : a) x += d * d;
  for (double d : b) y += d * d;
  return sqrt(x * y) + 1e-300;
}
// The lag found is the (or a) best one.
void CheckLag(mc::Ctx& c, const std::vector<double>& a, const std::vector<double>& b) {
  const int64_t lag = Visqol::XCorr::FindLowestLagIndex(Col(a), Col(b));
  const auto r = Correlate(a, b);
  const int n = (r.size() + 1) / 2;
  c.check(lag > -n && lag < n, "lag-range", "a lag of %ld for %zu and %zu samples", long(lag), a.size(), b.size());
  const double tol = 3e-6 * Energy(a, b);
  const Best best = Peak(r, tol);
  c.outcome(static_cast<int>(lag));
  c.check(r[lag + n - 1] >= best.value - tol, "lag-not-best", "lag %ld correlates %.9g, lag %d %.9g (%zu and %zu samples)", long(lag), r[lag + n - 1],
          best.at, best.value, a.size(), b.size());
}
}  // namespace

// All short vectors over a small alphabet.
SCENARIO(correlation_small) {
  const int na = 1 + c.choose("na", c.tier(4, 5)), nb = 1 + c.choose("nb", c.tier(4, 5));
  static const double alphabet[] = {0, 1, -1, 2};
  std::vector<double> a(na), b(nb);
  for (auto& x : a) x = alphabet[c.choose("a", 4)];
  int total = 1;
  for (int i = 0; i < nb; i++) total *= 4;
  for (int k = 0; k < total; k++) {
    for (int i = 0, t = k; i < nb; i++, t /= 4) b[i] = alphabet[t % 4];
    CheckLag(c, a, b);
  }
  c.note("%d against all %d samples", na, nb);
  c.count(total - 1);
}
// All pairs of lengths, across several powers of two.
SCENARIO(correlation_lengths) {
  const int na = 1 + c.choose("na", c.tier(72, 140)), shape = c.pick("shape", std::vector<int>{kNoise, kChirp, kImpulse, kBursts});
  const int top = c.tier(72, 140);
  for (int nb = 1; nb <= top; nb++) CheckLag(c, Signal(shape, na, 800, 1), Signal(shape, nb, 800, 2));
  c.note("%d samples of %s against 1..%d", na, ShapeName(shape), top);
  c.count(top - 1);
}
// An impulse at every position of both signals: every lag there is.
SCENARIO(correlation_positions) {
  const int na = c.pick("na", std::vector<int>{1, 2, 5, 16, 17, 32, 33, 50}), nb = c.pick("nb", std::vector<int>{1, 3, 8, 16, 31, 32, 33, 64, 65});
  for (int i = 0; i < na; i++)
    for (int j = 0; j < nb; j++) {
      std::vector<double> a(na), b(nb);
      a[i] = 1;
      b[j] = 0.5;
      const int64_t lag = Visqol::XCorr::FindLowestLagIndex(Col(a), Col(b));
      c.check(lag == i - j, "lag-not-best", "impulses at %d of %d and %d of %d give the lag %ld", i, na, j, nb, long(lag));
    }
  c.outcome(na * 100 + nb);
  c.note("impulses in %d and %d samples", na, nb);
  c.count(na * nb - 1);
}

namespace {
// What alignment may do to a degraded signal, given the lag it reports.
int CheckAligned(mc::Ctx& c, const std::vector<double>& a, const std::vector<double>& b, size_t rate, const AudioSignal& out, double lag_s) {
  const double samples = lag_s * rate;
  const long k = lround(samples);
  c.check(std::fabs(samples - k) < 1e-6, "lag-fraction", "a lag of %.9g s is %.9g samples", lag_s, samples);
  c.check(out.sample_rate == rate, "rate", "the rate becomes %zu", out.sample_rate);
  std::vector<double> want;
  if (k > 0) want.assign(k, 0.0);
  c.check(-k < static_cast<long>(b.size()), "all-cut", "a lag of %ld for %zu samples", k, b.size());
  want.insert(want.end(), b.begin() + std::max(0l, -k), b.end());
  c.check(FromSignal(out) == want, "not-shifted", "with a lag of %ld, %zu samples became %zu, which are not those samples shifted", k, b.size(),
          FromSignal(out).size());
  c.check(2 * std::labs(k) <= static_cast<long>(a.size()), "lag-too-large", "a lag of %ld for a reference of %zu samples", k, a.size());
  return k;
}
// The same, against a brute-force search over the envelopes.
void CheckAgainstEnvelopes(mc::Ctx& c, const std::vector<double>& a, const std::vector<double>& b, size_t rate) {
  const auto sa = ToSignal(a, rate), sb = ToSignal(b, rate);
  const auto r = Visqol::Alignment::GloballyAlign(sa, sb);
  const int k = CheckAligned(c, a, b, rate, std::get<0>(r), std::get<1>(r));
  c.check(FromSignal(sa) == a && FromSignal(sb) == b, "input-changed", "an input changed");
  const auto ea = Visqol::Envelope::CalcUpperEnv(sa.data_matrix).ToVector(), eb = Visqol::Envelope::CalcUpperEnv(sb.data_matrix).ToVector();
  const double tol = 3e-6 * Energy(ea, eb);
  const auto corr = Correlate(ea, eb);
  const Best best = Peak(corr, tol);
  c.outcome(k * 1000.0 + best.at);
  if (best.others > 0) return;  // a tie
  const bool out_of_reach = 2 * std::abs(best.at) > static_cast<int>(a.size()) || -best.at >= static_cast<int>(b.size());
  c.check(k == (out_of_reach ? 0 : best.at), "wrong-lag", "lag %d, the envelopes match best at %d (%zu and %zu samples)", k, best.at, a.size(), b.size());
}
}  // namespace

SCENARIO(align_lengths) {
  const int na = 1 + c.choose("na", c.tier(64, 130));
  const int shape = c.pick("shape", std::vector<int>{kNoise, kChirp, kBursts, kDc, kImpulse});
  const int top = c.tier(80, 150);
  for (int nb = 1; nb <= top; nb++) CheckAgainstEnvelopes(c, Signal(shape, na, 800, 1), Signal(shape == kDc ? int(kNoise) : shape, nb, 800, 2), 800);
  c.note("%d samples of %s against 1..%d", na, ShapeName(shape), top);
  c.count(top - 1);
}
// Every delay and every cut of a signal, to beyond the limit.
SCENARIO_T(every_delay, 60) {
  const int shape = c.pick("shape", std::vector<int>{kNoise, kBursts, kChirp});
  const size_t n = c.pick("length", std::vector<size_t>{400, 401, 512, 1023});
  const int damage = c.pick("damage", std::vector<int>{kNoDamage, kNoiseAdded, kClip});
  const double gain = c.pick("gain", std::vector<double>{1, 0.05});
  const size_t rate = c.pick("rate", std::vector<size_t>{800, 16000, 44100});
  if (!c.thorough() && rate != 800 && (damage != kNoDamage || n != 401)) c.skip();
  const auto a = Signal(shape, n, 800, 3);
  auto base = Damaged(a, damage, 800);
  for (auto& x : base) x *= gain;
  const int step = c.tier(n > 600 ? 7 : 3, 1);
  int cases = 0;
  for (int d = -static_cast<int>(n) / 2 - 20; d <= static_cast<int>(n) / 2 + 20; d += step) {
    // A positive d cuts the start off, a negative one delays.
    auto b = base;
    if (d > 0) b.erase(b.begin(), b.begin() + d);
    else b.insert(b.begin(), -d, 0.0);
    const auto r = Visqol::Alignment::GloballyAlign(ToSignal(a, rate), ToSignal(b, rate));
    const int k = CheckAligned(c, a, b, rate, std::get<0>(r), std::get<1>(r));
    const int want = 2 * std::abs(d) > static_cast<int>(n) ? 0 : d;
    // Beyond a quarter too little of a cut signal may be left to be found again.
    if (std::abs(d) <= static_cast<int>(n) / 4 || d < 0)
      c.check(k == want, "delay-missed", "%s of %zu samples, moved by %d: lag %d", ShapeName(shape), n, -d, k);
    c.outcome(k);
    cases++;
  }
  c.note("%s, %zu samples at %zu Hz, every delay, %s", ShapeName(shape), n, rate, DamageName(damage));
  c.count(cases - 1);
}
// Long signals.
SCENARIO_T(long_delays, 120) {
  const int shape = c.pick("shape", std::vector<int>{kNoise, kChirp});
  const int n = c.pick("length", c.thorough() ? std::vector<int>{5001, 33000, 65536, 131072, 200000, 480000, 1500000} : std::vector<int>{5001, 33000, 131072, 200000, 1200001});
  const int damage = c.pick("damage", std::vector<int>{kNoDamage, kNoiseAdded, kClip});
  const auto a = Signal(shape, n, 16000, 3), base = Damaged(a, damage, 16000);
  const bool equal = c.flag("equal lengths");
  int cases = 0;
  if (!c.thorough() && n > 1000000 && (shape != kNoise || damage != kNoDamage)) c.skip();
  for (int d : {0, 1, -1, 777, -778, n / 10, -n / 10, n / 5, -n / 4, -static_cast<int>(n * 0.45), -static_cast<int>(n * 0.55)}) {
    if (!c.thorough() && n > 1000000 && d != 1 && d != -778 && d != n / 5) continue;
    auto b = base;
    if (d > 0) b.erase(b.begin(), b.begin() + d);
    else b.insert(b.begin(), -d, 0.0);
    if (equal) b.resize(n, 0.0);
    const auto r = Visqol::Alignment::GloballyAlign(ToSignal(a, 16000), ToSignal(b, 16000));
    const int k = CheckAligned(c, a, b, 16000, std::get<0>(r), std::get<1>(r));
    const int want = 2 * std::abs(d) > n ? 0 : d;
    c.check(k == want || (equal && 20 * std::abs(d) > 9 * n), "delay-missed", "%s of %d samples, moved by %d: lag %d", ShapeName(shape), n, -d, k);
    c.outcome(k);
    cases++;
  }
  c.note("%s, %d samples, %s", ShapeName(shape), n, DamageName(damage));
  c.count(cases - 1);
}
// Alignment with truncation: equally long stretches of the same instants.
SCENARIO(truncate) {
  const int na = c.pick("na", std::vector<int>{1, 2, 3, 16, 30, 31, 64, 100, 129}), shape = c.pick("shape", std::vector<int>{kNoise, kBursts, kChirp, kImpulse});
  const int related = c.choose("related", 3);
  const size_t rate = c.pick("rate", std::vector<size_t>{800, 16000, 44100, 48000});
  const int top = c.tier(140, 260);
  const auto a = Signal(shape, na, 800, 1);
  for (int nb = 1; nb <= top; nb++) {
    std::vector<double> b(nb);
    if (related == 0) b = Signal(shape, nb, 800, 2);
    else
      for (int i = 0; i < nb; i++) {
        const int j = related == 1 ? i + nb % 17 : i - nb % 23;  // a cut or delayed copy
        b[i] = j >= 0 && j < na ? a[j] : 0;
      }
    const auto g = Visqol::Alignment::GloballyAlign(ToSignal(a, rate), ToSignal(b, rate));
    const auto t = Visqol::Alignment::AlignAndTruncate(ToSignal(a, rate), ToSignal(b, rate));
    const double lag = std::get<2>(t);
    c.check(lag == std::get<1>(g), "lag", "a lag of %g and of %g", lag, std::get<1>(g));
    const auto x = FromSignal(std::get<0>(t)), y = FromSignal(std::get<1>(t)), full = FromSignal(std::get<0>(g));
    c.check(std::get<0>(t).sample_rate == rate && std::get<1>(t).sample_rate == rate, "rate", "the rate changed");
    c.check(x.size() == y.size() && !x.empty(), "lengths", "%zu and %zu samples", x.size(), y.size());
    const int k = static_cast<int>(lround(lag * rate));
    bool ok = false;
    for (int from : full.size() > a.size() && k > 0 ? std::vector<int>{k, k - 1} : std::vector<int>{0}) {
      const size_t end = std::min(a.size(), full.size());
      ok = ok || (x == std::vector<double>(a.begin() + from, a.begin() + end) && y == std::vector<double>(full.begin() + from, full.begin() + end));
    }
    c.check(ok, "not-the-same-instants", "%d and %d samples with lag %d gave %zu samples which are not the common stretch", na, nb, k, x.size());
    c.outcome(k * 1000 + static_cast<int>(x.size()));
  }
  c.note("%d samples of %s, relation %d, against 1..%d", na, ShapeName(shape), related, top);
  c.count(top - 1);
}
// The whole pipeline reports and removes the delay; without alignment it does neither.
SCENARIO_T(pipeline, 60) {
  const Mode& m = c.pick("mode", Modes());
  const int shape = c.pick("shape", std::vector<int>{kNoise, kBursts, kChirp});
  const size_t rate = c.pick("rate", std::vector<size_t>{800, 1000});
  const int d = c.pick("shift", std::vector<int>{0, 1, -1, 13, -13, 60, -60, 199, -200, 350, -420});
  const bool ng = c.flag("no_global");
  const auto a = Signal(shape, 1400, rate, 3);
  auto b = a;
  if (d > 0) b.erase(b.begin(), b.begin() + d);
  else b.insert(b.begin(), -d, 0.0);
  const auto ref = Sig(a, rate);
  auto deg = Sig(b, rate);
  const auto r = Manager(m, ng).Run(ref, deg);
  c.note("%s, %s moved by %d samples, %s", m.name, ShapeName(shape), -d, ng ? "no global alignment" : "aligned");
  c.check(r.ok(), "failed", "%s", r.status().ToString().c_str());
  c.check(FromSignal(ref) == a, "input-changed", "the reference changed");
  c.outcome(r->moslqo());
  const double want = ng ? 0 : d / static_cast<double>(rate);
  c.check(Near(r->alignment_lag_s(), want, 0, 1e-9), "lag-reported", "the lag is reported as %.9g s, not %.9g s", r->alignment_lag_s(), want);
  if (ng) return;
  // The delay costs nothing; a cut costs only the patches it touches.
  const auto self = Compare(Manager(m), a, a, rate);
  if (d <= 0) c.check(Near(r->vnsim(), 1, 0, 0.02), "not-removed", "vnsim %.9g after removing a delay", r->vnsim());
  if (d <= 0) c.check(Near(r->moslqo(), self->moslqo(), 0, 0.12), "not-removed", "MOS %.9g after removing a delay, %.9g without one", r->moslqo(), self->moslqo());
  c.check(r->patch_sims_size() == self->patch_sims_size(), "patches-lost", "%d patches, %d without the shift", r->patch_sims_size(), self->patch_sims_size());
}
