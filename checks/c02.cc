// variant: asan fast
// Malformed WAV files: every truncation, every value of every header byte,
// every pair of boundary values of the header fields.  The oracle is an
// independent walk over the RIFF structure.
#include "checks/common.h"
#include "misc_audio.h"
#include "wav_reader.h"

using namespace vt;
using Visqol::MiscAudio;

namespace {
uint32_t U32(const std::string& s, size_t i) {
  uint32_t v = 0;
  for (int k = 3; k >= 0; k--) v = v << 8 | static_cast<unsigned char>(s[i + k]);
  return v;
}
uint32_t U16(const std::string& s, size_t i) {
  return static_cast<unsigned char>(s[i]) | static_cast<unsigned char>(s[i + 1]) << 8;
}
struct Base {
  std::string name, bytes;
  size_t data_at;                                   // first byte of the audio
  std::vector<std::pair<size_t, int>> fields;       // offset, width
};
std::vector<Base> Bases() {
  std::vector<Base> out;
  auto add = [&](const std::string& name, WavSpec w, int frames) {
    std::vector<int16_t> s;
    for (int i = 0; i < frames * w.channels; i++) s.push_back(static_cast<int16_t>(1000 + 37 * i * (i % 2 ? -1 : 1)));
    Base b;
    b.name = name;
    b.bytes = Wav(w, s, &b.data_at);
    b.fields = {{4, 4}, {16, 4}, {20, 2}, {22, 2}, {24, 4}, {28, 4}, {32, 2}, {34, 2}};
    const size_t fmt_end = 20 + U32(b.bytes, 16);
    if (fmt_end > 36) b.fields.push_back({36, 2});
    for (size_t at = fmt_end; at + 8 <= b.bytes.size();) {
      b.fields.push_back({at + 4, 4});
      at += 8 + U32(b.bytes, at + 4) + (U32(b.bytes, at + 4) & 1);
    }
    out.push_back(b);
  };
  WavSpec w;
  add("mono", w, 6);
  w.channels = 2;
  w.before = {{"LIST", "odd"}};
  w.after = {{"LIST", "tail"}};
  add("stereo with odd chunk and trailer", w, 5);
  w = WavSpec();
  w.channels = 3;
  w.layout = kExtensible;
  add("3 channels extensible", w, 4);
  w = WavSpec();
  w.layout = kFmtExtBytes;
  w.before = {{"fake", "data\x02\x00\x00\x00zz"}};
  w.after = {{"data", "second"}};
  add("decoy data chunks", w, 3);
  return out;
}
const std::vector<Base>& B() {
  static const std::vector<Base> b = Bases();
  return b;
}
// The audio a strict reader finds, if the file is well formed up to its
// (possibly shortened) first data chunk.
bool StrictWalk(const std::string& f, size_t* at, size_t* len, int* ch, uint32_t* rate) {
  if (f.size() < 12 || f.compare(0, 4, "RIFF") || f.compare(8, 4, "WAVE")) return false;
  bool fmt = false;
  for (size_t i = 12; i + 8 <= f.size();) {
    const uint32_t n = U32(f, i + 4);
    if (f.compare(i, 4, "fmt ") == 0 && !fmt) {
      if (n < 16 || i + 8 + n > f.size()) return false;
      if (U16(f, i + 8) != 1 && U16(f, i + 8) != 0xfffe) return false;
      *ch = U16(f, i + 10);
      *rate = U32(f, i + 12);
      if (U16(f, i + 22) != 16 || *ch == 0) return false;
      // The size of the chunk and the size of its extension must agree, or
      // there are two readings of the file.
      if (i != 12 || (n != 16 && (n < 18 || n != 18 + U16(f, i + 24)))) return false;
      fmt = true;
    } else if (f.compare(i, 4, "data") == 0) {
      *at = i + 8;
      *len = std::min<size_t>(n, f.size() - *at);
      return fmt;
    }
    i += 8 + static_cast<size_t>(n) + (n & 1);
  }
  return false;
}
// What is loaded must be audio that is in the file: whole frames, taken from
// the front of a data chunk, no more than the chunk declares.
void Judge(mc::Ctx& c, const std::string& f) {
  std::stringstream in(f, std::ios::in | std::ios::binary);
  const Visqol::AudioSignal a = MiscAudio::LoadAsMono(&in, std::string("x.wav"));
  const size_t rows = a.data_matrix.NumRows();
  size_t at, len;
  int ch = 0;
  uint32_t rate = 0;
  const bool strict = StrictWalk(f, &at, &len, &ch, &rate);
  c.outcome(rows * 1000003 + a.sample_rate * 2 + strict);
  if (rows == 0) return;  // refused: allowed for anything this scenario makes
  c.check(a.data_matrix.NumCols() == 1, "mono", "%zu columns", a.data_matrix.NumCols());
  // Header facts.
  c.check(f.size() >= 44 && !f.compare(0, 4, "RIFF") && !f.compare(8, 4, "WAVE") && !f.compare(12, 4, "fmt "),
          "accepted-garbage", "audio from something that is no WAV file");
  const int channels = U16(f, 22);
  const uint32_t tag = U16(f, 20);
  c.check(tag == 1 || tag == 0xfffe, "accepted-format", "audio from format tag %u", tag);
  c.check(channels > 0 && U16(f, 34) == 16, "accepted-format", "audio from %d channels of %u bits", channels, U16(f, 34));
  c.check(static_cast<uint32_t>(a.sample_rate) == U32(f, 24), "rate", "rate %zu, header says %u", a.sample_rate, U32(f, 24));
  // Which data chunk?
  bool found = false;
  std::string why = "no data chunk";
  for (size_t i = 36; i + 8 <= f.size() && !found; i++) {
    if (f.compare(i, 4, "data") != 0) continue;
    const size_t have = std::min<size_t>(U32(f, i + 4), f.size() - i - 8);
    if (rows > have / 2 / channels) { why = "more frames than the data chunk holds"; continue; }
    bool same = true;
    for (size_t r = 0; r < rows && same; r++) {
      double m = 0;
      for (int k = 0; k < channels; k++)
        m += static_cast<int16_t>(U16(f, i + 8 + 2 * (r * channels + k))) / 32768.0;
      if (!Near(m / channels, a.data_matrix(r, 0), 0, 1e-12)) same = false;
    }
    if (same) found = true; else why = "the samples are not those of the data chunk";
  }
  c.check(found, "invented-samples", "%zu frames at %zu Hz were loaded from %zu bytes: %s", rows, a.sample_rate, f.size(), why.c_str());
  if (strict && channels == ch) {
    c.check(rows == len / 2 / ch, "lost-samples", "%zu frames were loaded, %zu are in the file", rows, len / 2 / ch);
  }
}
void Put(std::string* f, size_t at, int width, uint32_t v) {
  for (int k = 0; k < width && at + k < f->size(); k++) (*f)[at + k] = static_cast<char>(v >> (8 * k));
}
const std::vector<uint32_t> kBoundary = {0, 1, 2, 3, 8, 15, 16, 17, 18, 24, 40, 0x7fff, 0x8000, 0xfffe, 0xffff,
                                         0x10000, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
}  // namespace

SCENARIO(truncate) {
  const Base& b = c.pick("file", B());
  const int n = c.choose("length", b.bytes.size() + 1);
  c.note("%s cut to %d of %zu bytes", b.name.c_str(), n, b.bytes.size());
  const std::string f = b.bytes.substr(0, n);
  Judge(c, f);
  // A cut within the audio must keep the frames in front of it.
  const int ch = U16(b.bytes, 22);
  if (n >= static_cast<int>(b.data_at) + 2 * ch) {
    std::stringstream in(f, std::ios::in | std::ios::binary);
    const auto a = MiscAudio::LoadAsMono(&in, std::string("x.wav"));
    const size_t have = std::min<size_t>(n - b.data_at, U32(b.bytes, b.data_at - 4)) / 2 / ch;
    c.check(a.data_matrix.NumRows() == have, "truncated-lost", "%zu frames of %zu present were loaded",
            a.data_matrix.NumRows(), have);
  }
}
SCENARIO(byte) {
  const Base& b = c.pick("file", B());
  const int at = c.choose("offset", b.data_at);
  const int v = c.choose("value", 256);
  std::string f = b.bytes;
  f[at] = static_cast<char>(v);
  c.note("%s with byte %d set to 0x%02x", b.name.c_str(), at, v);
  Judge(c, f);
}
SCENARIO(field_pair) {
  const Base& b = c.pick("file", B());
  const int i = c.choose("field1", b.fields.size());
  const uint32_t v1 = c.pick("value1", kBoundary);
  const int j = c.choose("field2", b.fields.size());
  if (j < i) c.skip();
  const uint32_t v2 = j == i ? 0 : c.pick("value2", kBoundary);
  std::string f = b.bytes;
  Put(&f, b.fields[i].first, b.fields[i].second, v1);
  if (j != i) Put(&f, b.fields[j].first, b.fields[j].second, v2);
  c.note("%s with field at %zu = 0x%x and field at %zu = 0x%x", b.name.c_str(), b.fields[i].first, v1, b.fields[j].first, v2);
  Judge(c, f);
}
SCENARIO(field_truncate) {
  const Base& b = c.pick("file", B());
  const int i = c.choose("field", b.fields.size());
  const uint32_t v = c.pick("value", kBoundary);
  const int n = c.choose("length", b.bytes.size() + 1);
  std::string f = b.bytes;
  Put(&f, b.fields[i].first, b.fields[i].second, v);
  f.resize(n);
  c.note("%s with field at %zu = 0x%x, cut to %d bytes", b.name.c_str(), b.fields[i].first, v, n);
  Judge(c, f);
}
// Not a WAV file at all, and no file.
SCENARIO(not_wav) {
  const std::vector<std::string> junk = {"", "x", "RIFF", std::string(44, '\0'), std::string(4096, 'A'), "RIFX" + std::string(40, 0),
                                         std::string("fLaC") + std::string(200, 7), std::string(65536, '\xff')};
  const int k = c.choose("junk", junk.size() + 2);
  const std::string p = c.scratch() + "/x.wav";
  Visqol::AudioSignal a;
  if (k < static_cast<int>(junk.size())) {
    WriteFile(p, junk[k]);
    a = MiscAudio::LoadAsMono(Visqol::FilePath(p));
  } else if (k == static_cast<int>(junk.size())) {
    a = MiscAudio::LoadAsMono(Visqol::FilePath(p));  // missing
  } else {
    a = MiscAudio::LoadAsMono(Visqol::FilePath(c.scratch()));  // a directory
  }
  c.note("junk %d", k);
  c.check(a.data_matrix.NumElements() == 0, "accepted-garbage", "%zu samples from junk %d", a.data_matrix.NumElements(), k);
  c.outcome(k);
}
static int init = (mc::g_memory_limit = 1200ull << 20, 0);
