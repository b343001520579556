// variant: fast
// Result files and console output: all small sequences of results, written to
// fresh and to existing files, read back by independent parsers.
#include <google/protobuf/util/json_util.h>

#include <iostream>

#include "checks/common.h"
#include "sim_results_writer.h"

using namespace vt;
using Visqol::FilePath;
using Visqol::SimilarityResultMsg;
using Visqol::SimilarityResultsWriter;

namespace {
// Values that stress formatting.
const double kValues[] = {0.123456789, 1.0, 0.0, 4.999999999, 1.0 / 3, 1e-7, 12345.6789, 0.15, 3.14159265358979, 2e-10, 100, 0.999999994,
                          1.23456789e-105, 1.23456789e-11, 123456789012.0, 7.6543219e210};
const int kNumValues = sizeof kValues / sizeof *kValues;

SimilarityResultMsg Make(int bands, int patches, int offset, const std::string& ref, const std::string& deg) {
  SimilarityResultMsg m;
  int k = offset;
  auto v = [&] { return kValues[k++ % kNumValues]; };
  m.set_moslqo(1 + 4 * (v() / 20000));
  m.set_vnsim(v());
  for (int i = 0; i < bands; i++) {
    m.add_fvnsim(v());
    m.add_fvnsim10(v());
    m.add_fstdnsim(v());
    m.add_fvdegenergy(0 - v());
    m.add_center_freq_bands(50.5 * (i + 1));
  }
  for (int p = 0; p < patches; p++) {
    auto* q = m.add_patch_sims();
    q->set_similarity(v());
    for (int i = 0; i < bands; i++) q->add_freq_band_means(v());
    q->set_ref_patch_start_time(0.6 * p + 0.28);
    q->set_ref_patch_end_time(0.6 * p + 0.88);
    q->set_deg_patch_start_time(0.6 * p + 0.3);
    q->set_deg_patch_end_time(0.6 * p + 0.9);
  }
  m.set_reference_filepath(ref);
  m.set_degraded_filepath(deg);
  m.set_alignment_lag_s(0 - 0.0125 * offset);
  return m;
}
std::vector<std::string> Split(const std::string& s, char d) {
  std::vector<std::string> v(1);
  for (char ch : s)
    if (ch == d) v.emplace_back();
    else v.back() += ch;
  return v;
}
// Redirects std::cout for one call.
std::string Write(bool verbose, const std::string& csv, const std::string& json, const SimilarityResultMsg& m, bool speech, bool lattice) {
  std::stringstream out;
  std::streambuf* old = std::cout.rdbuf(out.rdbuf());
  SimilarityResultsWriter::Write(verbose, FilePath(csv), FilePath(json), m, speech, lattice);
  std::cout.rdbuf(old);
  return out.str();
}
// The rows of a CSV text (RFC 4180).
std::vector<std::vector<std::string>> Csv(const std::string& s) {
  std::vector<std::vector<std::string>> rows;
  for (size_t i = 0; i < s.size();) {
    rows.push_back({""});
    for (;;) {
      auto& f = rows.back().back();
      if (i < s.size() && s[i] == '"') {
        for (i++; i < s.size(); i++) {
          if (s[i] == '"' && (i + 1 == s.size() || s[i + 1] != '"')) break;
          if (s[i] == '"') i++;
          f += s[i];
        }
        i++;
      }
      while (i < s.size() && s[i] != ',' && s[i] != '\n') f += s[i++];
      if (i >= s.size() || s[i++] == '\n') break;
      rows.back().emplace_back();
    }
  }
  return rows;
}
void CheckCsv(mc::Ctx& c, const std::string& text, size_t skip, const std::vector<SimilarityResultMsg>& msgs, bool header) {
  c.check(text.empty() ? msgs.empty() : text.back() == '\n', "csv-eol", "the file does not end with a line end");
  const auto lines = Csv(text.substr(skip));
  c.check(lines.size() == msgs.size() + header, "csv-lines", "%zu lines for %zu results", lines.size(), msgs.size());
  size_t at = 0;
  std::vector<std::string> want = {"reference", "degraded", "moslqo"};
  if (!msgs.empty()) {
    const int b = msgs[0].fvnsim_size();
    for (const char* n : {"fvnsim", "fvnsim10_", "fstdnsim", "fvdegenergy"})
      for (int i = 0; i < b; i++) want.push_back(n + std::to_string(i));
  }
  if (header) c.check(lines[at++] == want, "csv-header", "header of %zu fields, %s, ...", lines[0].size(), lines[0][0].c_str());
  for (const auto& m : msgs) {
    const auto& f = lines[at++];
    c.check(f.size() == 3 + 4u * m.fvnsim_size(), "csv-columns", "%zu fields", f.size());
    c.check(f[0] == m.reference_filepath() && f[1] == m.degraded_filepath(), "csv-paths", "%s,%s", f[0].c_str(), f[1].c_str());
    std::vector<double> v = {m.moslqo()};
    for (double d : m.fvnsim()) v.push_back(d);
    for (double d : m.fvnsim10()) v.push_back(d);
    for (double d : m.fstdnsim()) v.push_back(d);
    for (double d : m.fvdegenergy()) v.push_back(d);
    for (size_t k = 0; k < v.size(); k++) {
      char* end;
      const double got = strtod(f[k + 2].c_str(), &end);
      c.check(*end == 0 && !f[k + 2].empty() && Near(got, v[k], 1e-8), "csv-value", "column %s: %s for %.12g", want[k + 2].c_str(), f[k + 2].c_str(), v[k]);
    }
  }
}
void CheckJson(mc::Ctx& c, const std::string& text, size_t skip, const std::vector<SimilarityResultMsg>& msgs) {
  size_t at = skip, n = 0;
  while (at < text.size()) {
    // The shortest prefix with balanced braces outside strings.
    int depth = 0;
    bool str = false;
    size_t e = at;
    for (; e < text.size(); e++) {
      if (str) {
        if (text[e] == '\\') e++;
        else if (text[e] == '"') str = false;
      } else if (text[e] == '"') str = true;
      else if (text[e] == '{') depth++;
      else if (text[e] == '}' && --depth == 0) break;
    }
    if (e >= text.size()) {
      c.check(text.find_first_not_of(" \n\r\t", at) == std::string::npos, "json-rest", "%.80s", text.c_str() + at);
      break;
    }
    SimilarityResultMsg m;
    c.check(google::protobuf::util::JsonStringToMessage(text.substr(at, e + 1 - at), &m).ok(), "json-parse", "object %zu: %.100s", n, text.c_str() + at);
    c.check(n < msgs.size(), "json-count", "more than %zu objects", msgs.size());
    c.check(m.SerializeAsString() == msgs[n].SerializeAsString(), "json-value", "object %zu: %.300s", n, m.ShortDebugString().c_str());
    n++;
    at = e + 1;
  }
  c.check(n == msgs.size(), "json-count", "%zu objects for %zu results", n, msgs.size());
}
void CheckConsole(mc::Ctx& c, const std::string& out, const SimilarityResultMsg& m, bool verbose, bool speech, bool lattice) {
  auto has = [&](const std::string& s) { return out.find(s) != std::string::npos; };
  const size_t at = out.find("MOS-LQO:");
  c.check(at != std::string::npos && out.find("MOS-LQO:", at + 1) == std::string::npos, "console-mos", "%s", out.c_str());
  c.check(Near(atof(out.c_str() + at + 8), m.moslqo(), 1e-5), "console-mos", "%.200s for %.10g", out.c_str() + at, m.moslqo());
  c.check(has(speech ? "Speech mode" : "Audio mode") && !has(speech ? "Audio mode" : "Speech mode"), "console-mode", "%s", out.c_str());
  const char* model = !speech ? "support vector" : lattice ? "lattice" : "exponential";
  for (const char* s : {"support vector", "lattice", "exponential"})
    c.check(has(s) == (s == std::string(model)), "console-model", "%s", out.c_str());
  c.check(has("Degraded Filepath:\t" + m.degraded_filepath() + "\n") == verbose && has("Reference Filepath:\t" + m.reference_filepath() + "\n") == verbose, "console-paths", "%s", out.c_str());
  // The tables.
  std::vector<std::vector<double>> rows;
  for (const auto& l : Split(out, '\n')) {
    if (l.empty() || l[0] != '|') continue;
    std::vector<double> v;
    bool num = true;
    std::string cell;
    for (char ch : l + " ") {
      if (ch == '|' || ch == ' ') {
        if (!cell.empty() && cell != "-") {
          if (cell.size() > 2 && cell.substr(cell.size() - 2) == "Hz") cell.resize(cell.size() - 2);
          char* end;
          v.push_back(strtod(cell.c_str(), &end));
          if (*end) num = false;
        }
        cell.clear();
      } else cell += ch;
    }
    if (num && !v.empty()) rows.push_back(v);
  }
  const size_t b = m.fvnsim_size(), p = m.patch_sims_size();
  c.check(rows.size() == (verbose ? b + p : 0), "console-table", "%zu rows for %zu bands and %zu patches", rows.size(), b, p);
  if (!verbose) return;
  for (size_t i = 0; i < b; i++) {
    c.check(rows[i].size() == 3 && Near(rows[i][0], m.fvnsim(i), 0, 6e-7) && Near(rows[i][1], m.fvnsim10(i), 0, 6e-7) &&
                Near(rows[i][2], m.center_freq_bands(i), 0, 0.06), "console-band", "band %zu", i);
  }
  for (size_t i = 0; i < p; i++) {
    const auto& q = m.patch_sims(i);
    const auto& r = rows[b + i];
    c.check(r.size() == 6 && r[0] == i && Near(r[1], q.similarity(), 0, 6e-7) && Near(r[2], q.ref_patch_start_time(), 0, 6e-4) &&
                Near(r[3], q.ref_patch_end_time(), 0, 6e-4) && Near(r[4], q.deg_patch_start_time(), 0, 6e-4) &&
                Near(r[5], q.deg_patch_end_time(), 0, 6e-4), "console-patch", "patch %zu", i);
  }
}
const std::vector<std::pair<std::string, std::string>> kPaths = {
    {"ref.wav", "deg.wav"}, {"/a b/r\xc3\xa9" "f.wav", "../d (1).wav"}, {"q\"uote.wav", "back\\slash.wav"}, {"x{y}.wav", "tab\tname.wav"},
    {"a,b.wav", ""}, {",\",\n.wav", "\"d,\".wav"}};
}  // namespace

SCENARIO(sequence) {
  const int n = c.choose("results", c.tier(4, 5));
  const int bands = c.pick("bands", std::vector<int>{21, 32, 1});
  const bool speech = c.flag("speech"), lattice = c.flag("lattice"), verbose = c.flag("verbose");
  const int csv = c.choose("csv", 3), json = c.choose("json", 3);  // none, fresh, existing
  std::vector<SimilarityResultMsg> msgs;
  const std::string pc = c.scratch() + "/r.csv", pj = c.scratch() + "/r.json";
  const std::string oldc = "reference,degraded,moslqo\nold,old,3.5\n", oldj = "{\"moslqo\":1.5}";
  if (csv == 2) WriteFile(pc, oldc);
  if (json == 2) WriteFile(pj, oldj);
  for (int i = 0; i < n; i++) {
    const int paths = c.choose("paths", i ? 2 : 6);
    msgs.push_back(Make(bands, i == 0 ? 3 : i, 5 * i + paths, kPaths[paths].first, kPaths[paths].second));
    const std::string out = Write(verbose, csv ? pc : "", json ? pj : "", msgs.back(), speech, lattice);
    CheckConsole(c, out, msgs.back(), verbose, speech, lattice);
  }
  c.note("%d results, %d bands, csv %d, json %d, verbose %d", n, bands, csv, json, verbose);
  const std::string gc = ReadFile(pc), gj = ReadFile(pj);
  c.outcome(mc::hash(gc + gj));
  if (csv == 2) c.check(gc.compare(0, oldc.size(), oldc) == 0, "csv-overwritten", "earlier contents changed");
  if (json == 2) c.check(gj.compare(0, oldj.size(), oldj) == 0, "json-overwritten", "earlier contents changed");
  if (!csv) c.check(gc.empty(), "csv-unasked", "a results file was written");
  else CheckCsv(c, gc, csv == 2 ? oldc.size() : 0, msgs, csv == 1 && n > 0);
  if (!json) c.check(gj.empty(), "json-unasked", "a debug file was written");
  else CheckJson(c, gj, json == 2 ? oldj.size() : 0, msgs);
}
// Every value in every column.
SCENARIO(values) {
  const int bands = 1 + c.choose("bands", 40), offset = c.choose("offset", kNumValues), patches = c.choose("patches", 4);
  const bool verbose = c.flag("verbose");
  const auto m = Make(bands, patches, offset, "r", "d");
  const std::string pc = c.scratch() + "/r.csv", pj = c.scratch() + "/r.json";
  const std::string out = Write(verbose, pc, pj, m, true, true);
  c.note("%d bands, values from %d, %d patches", bands, offset, patches);
  c.outcome(mc::hash(ReadFile(pc)));
  CheckConsole(c, out, m, verbose, true, true);
  CheckCsv(c, ReadFile(pc), 0, {m}, true);
  CheckJson(c, ReadFile(pj), 0, {m});
}
// Large results.
SCENARIO(large) {
  const int patches = c.pick("patches", std::vector<int>{0, 1, 10, 100, 5000});
  const auto m = Make(32, patches, 1, std::string(4000, 'r'), std::string(4000, 'd'));
  const std::string pc = c.scratch() + "/r.csv", pj = c.scratch() + "/r.json";
  const std::string out = Write(true, pc, pj, m, false, false);
  c.note("%d patches", patches);
  c.outcome(patches);
  CheckConsole(c, out, m, true, false, false);
  CheckCsv(c, ReadFile(pc), 0, {m}, true);
  CheckJson(c, ReadFile(pj), 0, {m});
}
