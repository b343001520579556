// Managers by configuration, kept for the life of the process.
#ifndef VERIF_CHECKS_SESSION_H_
#define VERIF_CHECKS_SESSION_H_
#include <map>
#include <memory>

#include "checks/common.h"
#include "src/proto/similarity_result.pb.h"
#include "visqol_manager.h"

namespace vt {
struct Mode {
  const char* name;
  bool speech, unscaled, lattice;
};
inline const std::vector<Mode>& Modes() {
  static const std::vector<Mode> m = {{"audio", false, false, false},
                                      {"speech lattice", true, false, true},
                                      {"speech scaled", true, false, false},
                                      {"speech unscaled", true, true, false}};
  return m;
}
inline std::string ModelOf(const Mode& m) { return m.speech ? LatticeModel() : SvrModel(); }
inline absl::Status InitAs(Visqol::VisqolManager* v, const Mode& m, bool no_global = false, bool no_realign = false, int radius = 60) {
  return v->Init(Visqol::FilePath(ModelOf(m)), m.speech, m.unscaled, radius, m.lattice, no_global, no_realign);
}
inline Visqol::VisqolManager& Manager(const Mode& m, bool no_global = false, bool no_realign = false, int radius = 60) {
  static std::map<std::string, std::unique_ptr<Visqol::VisqolManager>> cache;
  auto& slot = cache[std::string(m.name) + (no_global ? "g" : "") + (no_realign ? "r" : "") + std::to_string(radius)];
  if (!slot) {
    slot = std::make_unique<Visqol::VisqolManager>();
    if (!InitAs(slot.get(), m, no_global, no_realign, radius).ok()) abort();
  }
  return *slot;
}
inline Visqol::AudioSignal Sig(const std::vector<double>& v, size_t rate) {
  Visqol::AMatrix<double> m(v.size(), 1);
  for (size_t i = 0; i < v.size(); i++) m(i) = v[i];
  return Visqol::AudioSignal{m, rate};
}
inline absl::StatusOr<Visqol::SimilarityResultMsg> Compare(Visqol::VisqolManager& m, const std::vector<double>& ref,
                                                          const std::vector<double>& deg, size_t rate) {
  const auto r = Sig(ref, rate);
  auto d = Sig(deg, rate);
  return m.Run(r, d);
}
// A few ways to damage a signal.
enum Damage { kNoDamage, kHold, kNoiseAdded, kClip, kLowPass, kDropout, kDelay, kEarly, kOtherSignal, kDamages };
inline const char* DamageName(int d) {
  static const char* n[] = {"no damage", "sample and hold", "added noise", "clipping", "low pass", "dropout", "delay", "cut start", "another signal"};
  return n[d];
}
inline std::vector<double> Damaged(const std::vector<double>& a, int d, double rate) {
  std::vector<double> b = a;
  const size_t n = a.size();
  Lcg g(99);
  switch (d) {
    case kHold: for (size_t i = 0; i < n; i++) b[i] = a[i - i % 3]; break;
    case kNoiseAdded: for (auto& x : b) x += 0.03 * g.sym(); break;
    case kClip: for (auto& x : b) x = std::max(-0.08, std::min(0.08, x)); break;
    case kLowPass: for (size_t i = 1; i < n; i++) b[i] = 0.35 * a[i] + 0.65 * b[i - 1]; break;
    case kDropout: for (size_t i = n / 2; i < n / 2 + n / 10; i++) b[i] = 0; break;
    case kDelay: b.insert(b.begin(), static_cast<size_t>(rate * 0.05), 0.0); break;
    case kEarly: b.erase(b.begin(), b.begin() + std::min(n, static_cast<size_t>(rate * 0.03))); break;
    case kOtherSignal: b = Signal(kNoise, n, rate, 77); break;
  }
  return b;
}
}  // namespace vt
#endif
