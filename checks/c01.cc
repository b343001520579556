// variant: fast
// WAV decoding: every combination of channel count, frame count, sampling rate,
// header layout, chunks before and after the audio, and sample pattern.
#include "checks/common.h"
#include "misc_audio.h"
#include "wav_reader.h"

using namespace vt;
using Visqol::MiscAudio;
using Visqol::WavReader;

namespace {
struct File {
  WavSpec w;
  std::vector<int16_t> s;
  size_t frames;
  std::string bytes;
};
const std::vector<std::pair<std::string, std::string>> kExtra[] = {
    {},
    {{"LIST", "INFOabcd"}},
    {{"bext", "odd"}},                        // odd length: one pad byte follows
    {{"LIST", std::string(301, 'x')}, {"cue ", ""}, {"junk", "data"}},
};
int16_t Sample(int pattern, size_t i) {
  static const int16_t ext[] = {-32768, 32767, 0, -1, 1, 256, -256, 0x6164, 0x0a0d, 0x1a};
  switch (pattern) {
    case 0: return ext[i % 10];
    case 1: return static_cast<int16_t>((i * 7919 + 13) & 0xffff);
    default: return static_cast<int16_t>(i % 2 ? -32768 : 32767);
  }
}
File Make(mc::Ctx& c, bool big) {
  File f;
  f.w.channels = c.pick<int>("channels", big ? std::vector<int>{1, 2, 3, 6} : std::vector<int>{1, 2, 3, 6, 17, 64});
  f.frames = c.pick<int>("frames", big ? std::vector<int>{65535, 65536, 65537, 200001}
                                       : std::vector<int>{1, 2, 3, 7, 64, 1000});
  f.w.rate = c.pick<uint32_t>("rate", big ? std::vector<uint32_t>{48000}
                                          : std::vector<uint32_t>{1, 8000, 22050, 44100, 48000, 192000, 1000000});
  f.w.layout = c.choose("layout", kLayouts);
  f.w.before = kExtra[c.choose("before", big ? 2 : 4)];
  f.w.after = kExtra[c.choose("after", big ? 2 : 4)];
  const int pat = c.choose("pattern", 3);
  for (size_t i = 0; i < f.frames * f.w.channels; i++) f.s.push_back(Sample(pat, i));
  f.bytes = Wav(f.w, f.s);
  c.note("%d ch x %zu frames at %u Hz, layout %d, %zu chunks before and %zu after, pattern %d", f.w.channels,
         f.frames, f.w.rate, f.w.layout, f.w.before.size(), f.w.after.size(), pat);
  return f;
}
void CheckMono(mc::Ctx& c, const File& f, const Visqol::AudioSignal& a, const char* how) {
  c.check(a.sample_rate == f.w.rate, "rate", "%s: sample rate %zu, expected %u", how, a.sample_rate, f.w.rate);
  c.check(a.data_matrix.NumCols() == 1, "mono", "%s: %zu columns", how, a.data_matrix.NumCols());
  c.check(a.data_matrix.NumRows() == f.frames, "length", "%s: %zu frames, expected %zu", how,
          a.data_matrix.NumRows(), f.frames);
  for (size_t i = 0; i < f.frames; i++) {
    double m = 0;
    for (int k = 0; k < f.w.channels; k++) m += f.s[i * f.w.channels + k] / 32768.0;
    m /= f.w.channels;
    c.check(Near(a.data_matrix(i, 0), m, 0, 1e-12), "sample", "%s: frame %zu is %.17g, expected %.17g", how, i,
            a.data_matrix(i, 0), m);
  }
  c.check(Near(a.GetDuration(), f.frames / static_cast<double>(f.w.rate), 1e-12), "duration", "%s: %g s", how,
          a.GetDuration());
}
void Decode(mc::Ctx& c, bool big) {
  const File f = Make(c, big);
  std::stringstream in(f.bytes, std::ios::in | std::ios::binary);
  WavReader r(&in);
  c.check(r.IsHeaderValid(), "rejected", "a well-formed 16-bit PCM file was rejected");
  c.check(r.GetNumChannels() == static_cast<size_t>(f.w.channels), "channels", "%zu", r.GetNumChannels());
  c.check(r.GetSampleRateHz() == static_cast<int>(f.w.rate), "rate", "%d", r.GetSampleRateHz());
  c.check(r.GetNumTotalSamples() == f.s.size(), "total", "%zu of %zu", r.GetNumTotalSamples(), f.s.size());
  c.check(Near(r.GetDuration(), f.frames / static_cast<double>(f.w.rate), 1e-12), "duration", "%g", r.GetDuration());
  std::vector<int16_t> got(f.s.size());
  const size_t n = r.ReadSamples(f.s.size(), got.data());
  c.check(n == f.s.size() && got == f.s, "samples", "the samples read differ (%zu read)", n);
  std::stringstream in2(f.bytes, std::ios::in | std::ios::binary);
  CheckMono(c, f, MiscAudio::LoadAsMono(&in2, std::string("x.wav")), "stream");
  const std::string p = c.scratch() + "/a.wav";
  WriteFile(p, f.bytes);
  CheckMono(c, f, MiscAudio::LoadAsMono(Visqol::FilePath(p)), "file");
  c.outcome(mc::hashv(f.s) ^ f.w.rate);
}
}  // namespace

SCENARIO(decode) { Decode(c, false); }
SCENARIO(decode_long) { Decode(c, true); }

// Any number of other chunks, of any size, before the audio.
SCENARIO(chunks) {
  File f;
  f.w.channels = 1 + c.choose("channels", 2);
  f.frames = 5;
  f.w.rate = 48000;
  f.w.layout = c.choose("layout", kLayouts);
  const bool many = c.flag("many");
  const size_t n = many ? c.pick<size_t>("number", {5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 5000}) : 1;
  const size_t size = many ? c.pick<size_t>("size", {0, 1, 10})
                           : c.pick<size_t>("size", {127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131071, 131072,
                                                     1 << 20, (1 << 20) + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 3});
  // The contents look like audio, or like a chunk.
  const std::string body = c.flag("lookalike") ? "data" : "\x01\x7f";
  std::string filler;
  while (filler.size() < size) filler += body;
  filler.resize(size);
  for (size_t i = 0; i < n; i++) f.w.before.push_back({"LIST", filler});
  for (size_t i = 0; i < f.frames * f.w.channels; i++) f.s.push_back(Sample(1, i));
  f.bytes = Wav(f.w, f.s);
  c.note("%zu chunks of %zu bytes before the audio, layout %d", n, size, f.w.layout);
  std::stringstream in(f.bytes, std::ios::in | std::ios::binary);
  WavReader r(&in);
  c.check(r.IsHeaderValid(), "rejected", "a well-formed 16-bit PCM file was rejected");
  std::vector<int16_t> got(f.s.size() + 8);
  const size_t k = r.ReadSamples(f.s.size() + 8, got.data());
  got.resize(k);
  c.check(got == f.s, "samples", "the samples read differ (%zu read)", k);
  std::stringstream in2(f.bytes, std::ios::in | std::ios::binary);
  CheckMono(c, f, MiscAudio::LoadAsMono(&in2, std::string("x.wav")), "stream");
  c.outcome(static_cast<double>(n * 100000007 + size));
}

// Reading in pieces: every sequence of request sizes, including requests past
// the end, against the sample list; the buffer has a guard behind the request.
SCENARIO(piecewise) {
  File f;
  f.w.channels = c.pick<int>("channels", {1, 2, 3});
  f.frames = c.pick<int>("frames", {1, 2, 5});
  f.w.after = kExtra[c.choose("after", 4)];
  f.w.layout = c.flag("extensible") ? kExtensible : kPlain;
  for (size_t i = 0; i < f.frames * f.w.channels; i++) f.s.push_back(Sample(1, i));
  f.bytes = Wav(f.w, f.s);
  std::stringstream in(f.bytes, std::ios::in | std::ios::binary);
  WavReader r(&in);
  c.check(r.IsHeaderValid(), "rejected", "a well-formed file was rejected");
  const size_t total = f.s.size();
  const std::vector<size_t> sizes = {1, 2, 0, 3, total, total + 1, total + 40};
  size_t at = 0;
  std::string ops;
  const int depth = c.tier(4, 5);
  for (int i = 0; i < depth; i++) {
    const size_t ask = c.pick("ask", sizes);
    const int16_t kGuard = 0x5a5a;
    std::vector<int16_t> buf(total + 64, kGuard);
    const size_t want = std::min(ask, total - at);
    ops += std::to_string(ask) + " ";
    const size_t n = r.ReadSamples(ask, buf.data());
    c.note("%d ch x %zu frames, %zu chunks after, requests %s", f.w.channels, f.frames, f.w.after.size(), ops.c_str());
    c.check(n == want, "piece-count", "request %s: returned %zu samples, expected %zu of the %zu left", ops.c_str(), n,
            want, total - at);
    for (size_t k = 0; k < n; k++)
      c.check(buf[k] == f.s[at + k], "piece-sample", "requests %s: sample %zu differs", ops.c_str(), at + k);
    for (size_t k = n; k < buf.size(); k++)
      c.check(buf[k] == kGuard, "piece-overrun", "requests %s: wrote %zu samples past the %zu it returned",
              ops.c_str(), k - n + 1, n);
    at += n;
  }
  c.outcome(ops + std::to_string(total));
}
