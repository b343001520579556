// Shared helpers of the harnesses: deterministic signals, WAV files, temporary
// files, tolerant comparison.
#ifndef VERIF_CHECKS_COMMON_H_
#define VERIF_CHECKS_COMMON_H_
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>

#include "mc/explorer.h"

namespace vt {

inline std::string Repo() { const char* r = getenv("VERIF_REPO"); return r ? r : "/repo"; }
inline std::string BinDir() { const char* r = getenv("VERIF_BIN"); return r ? r : "/verif/_build/bin"; }
inline std::string SvrModel() { return Repo() + "/model/libsvm_nu_svr_model.txt"; }
inline std::string LatticeModel() {
  return Repo() + "/model/lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_learn.005_ep2400"
                  "_train1_7_raw.tflite";
}

// A fixed pseudo-random sequence; nothing is drawn at run time.
struct Lcg {
  uint64_t s;
  explicit Lcg(uint64_t seed) : s(seed * 2862933555777941757ull + 3037000493ull) { next(); next(); }
  uint64_t next() { s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 33; }
  double uni() { return next() / 2147483648.0; }          // [0,1)
  double sym() { return 2 * uni() - 1; }                   // [-1,1)
};

// Signal shapes.  All stay within (-1, 1).
enum Shape { kTone, kChord, kNoise, kBursts, kChirp, kSilence, kDc, kImpulse, kShapes };
inline const char* ShapeName(int s) {
  static const char* n[] = {"tone", "chord", "noise", "bursts", "chirp", "silence", "dc", "impulse"};
  return n[s];
}
inline std::vector<double> Signal(int shape, size_t n, double rate, uint64_t seed = 1) {
  std::vector<double> v(n);
  Lcg g(seed * 31 + shape);
  double ph = 0;
  for (size_t i = 0; i < n; i++) {
    const double t = i / rate;
    switch (shape) {
      case kTone: v[i] = 0.5 * sin(2 * M_PI * 0.11 * rate * t + seed); break;
      case kChord:
        v[i] = 0.25 * sin(2 * M_PI * 0.07 * rate * t + seed) + 0.2 * sin(2 * M_PI * 0.19 * rate * t) +
               0.15 * sin(2 * M_PI * 0.31 * rate * t) * (1 + 0.5 * sin(2 * M_PI * 3 * t)) / 1.5;
        break;
      case kNoise: v[i] = 0.4 * g.sym(); break;
      case kBursts: {
        const double e = fmod(t * 2.5 + 0.1 * seed, 1.0);
        v[i] = (e < 0.6 ? 0.5 * (0.6 - e) / 0.6 : 0.002) * (g.sym() + sin(2 * M_PI * 0.13 * rate * t)) * 0.8;
        break;
      }
      case kChirp: ph += 2 * M_PI * (0.02 + 0.4 * i / n); v[i] = 0.5 * sin(ph); break;
      case kSilence: v[i] = 0; break;
      case kDc: v[i] = 0.25; break;
      case kImpulse: v[i] = i == n / 3 ? 0.9 : 0; break;
    }
  }
  return v;
}

// --- WAV files -------------------------------------------------------------
inline void P16(std::string* s, uint32_t v) { s->push_back(v & 255); s->push_back(v >> 8 & 255); }
inline void P32(std::string* s, uint32_t v) { P16(s, v & 0xffff); P16(s, v >> 16); }
inline std::string Chunk(const std::string& id, const std::string& body) {
  std::string s = id;
  P32(&s, body.size());
  s += body;
  if (body.size() & 1) s.push_back(0);
  return s;
}
enum Layout { kPlain, kFmt18, kExtensible, kFmtExtBytes, kLayouts };
struct WavSpec {
  int channels = 1;
  uint32_t rate = 48000;
  int layout = kPlain;
  int bits = 16;
  std::vector<std::pair<std::string, std::string>> before, after;  // extra chunks
};
inline std::string FmtBody(const WavSpec& w) {
  std::string f;
  P16(&f, w.layout == kExtensible ? 0xfffe : 1);
  P16(&f, w.channels);
  P32(&f, w.rate);
  P32(&f, w.rate * w.channels * (w.bits / 8));
  P16(&f, w.channels * (w.bits / 8));
  P16(&f, w.bits);
  if (w.layout == kFmt18) P16(&f, 0);
  if (w.layout == kFmtExtBytes) { P16(&f, 30); f += "abcdefghijklmnopqrstuvwxyzabcd"; }
  if (w.layout == kExtensible) {
    P16(&f, 22);
    P16(&f, 16);
    P32(&f, 0);
    P16(&f, 1);
    f += std::string("\x00\x00\x00\x00\x10\x00\x80\x00\x00\xaa\x00\x38\x9b\x71", 14);
  }
  return f;
}
// `samples` is interleaved.
inline std::string Wav(const WavSpec& w, const std::vector<int16_t>& samples, size_t* data_at = nullptr) {
  std::string body = "WAVE" + Chunk("fmt ", FmtBody(w));
  if (w.layout == kExtensible) {
    std::string n;
    P32(&n, w.channels ? samples.size() / w.channels : 0);
    body += Chunk("fact", n);
  }
  for (auto& c : w.before) body += Chunk(c.first, c.second);
  std::string d;
  for (int16_t s : samples) P16(&d, static_cast<uint16_t>(s));
  if (data_at) *data_at = body.size() + 8 + 8;
  body += Chunk("data", d);
  for (auto& c : w.after) body += Chunk(c.first, c.second);
  std::string out = "RIFF";
  P32(&out, body.size());
  return out + body;
}
inline std::vector<int16_t> Quantise(const std::vector<double>& v) {
  std::vector<int16_t> o;
  for (double d : v) o.push_back(static_cast<int16_t>(std::max(-32768.0, std::min(32767.0, std::floor(d * 32768)))));
  return o;
}
inline void WriteFile(const std::string& p, const std::string& s) {
  std::ofstream f(p, std::ios::binary);
  f.write(s.data(), s.size());
}
inline std::string ReadFile(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream b;
  b << f.rdbuf();
  return b.str();
}
inline bool Near(double a, double b, double rel, double abs = 0) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
inline std::string Str(const std::vector<int>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + std::to_string(v[i]);
  return s + "]";
}
}  // namespace vt
#endif
