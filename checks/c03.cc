// variant: fast
// Command line and batch list: every combination of flags, every small batch
// file, against the documented meaning.
#include <unistd.h>

#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
#include "absl/strings/string_view.h"
#include "checks/common.h"
#include "commandline_parser.h"

using namespace vt;
using Visqol::CommandLineArgs;
using Visqol::FilePath;
using Visqol::VisqolCommandLineParser;

ABSL_DECLARE_FLAG(std::string, reference_file);
ABSL_DECLARE_FLAG(std::string, degraded_file);
ABSL_DECLARE_FLAG(std::string, batch_input_csv);
ABSL_DECLARE_FLAG(std::string, results_csv);
ABSL_DECLARE_FLAG(bool, verbose);
ABSL_DECLARE_FLAG(std::string, output_debug);
ABSL_DECLARE_FLAG(std::string, similarity_to_quality_model);
ABSL_DECLARE_FLAG(bool, use_speech_mode);
ABSL_DECLARE_FLAG(bool, use_lattice_model);
ABSL_DECLARE_FLAG(bool, use_unscaled_speech_mos_mapping);
ABSL_DECLARE_FLAG(int, search_window_radius);
ABSL_DECLARE_FLAG(bool, disable_global_alignment);
ABSL_DECLARE_FLAG(bool, disable_realignment);

// The library's own version may be called once per process only; takes the
// place of the one in the shared library.
namespace absl {
ABSL_NAMESPACE_BEGIN
void SetProgramUsageMessage(absl::string_view) {}
ABSL_NAMESPACE_END
}  // namespace absl

namespace {
const bool d_verbose = absl::GetFlag(FLAGS_verbose), d_speech = absl::GetFlag(FLAGS_use_speech_mode),
           d_lattice = absl::GetFlag(FLAGS_use_lattice_model),
           d_unscaled = absl::GetFlag(FLAGS_use_unscaled_speech_mos_mapping),
           d_global = absl::GetFlag(FLAGS_disable_global_alignment), d_realign = absl::GetFlag(FLAGS_disable_realignment);
const int d_radius = absl::GetFlag(FLAGS_search_window_radius);

void ResetFlags() {
  absl::SetFlag(&FLAGS_reference_file, "");
  absl::SetFlag(&FLAGS_degraded_file, "");
  absl::SetFlag(&FLAGS_batch_input_csv, "");
  absl::SetFlag(&FLAGS_results_csv, "");
  absl::SetFlag(&FLAGS_output_debug, "");
  absl::SetFlag(&FLAGS_similarity_to_quality_model, "");
  absl::SetFlag(&FLAGS_verbose, d_verbose);
  absl::SetFlag(&FLAGS_use_speech_mode, d_speech);
  absl::SetFlag(&FLAGS_use_lattice_model, d_lattice);
  absl::SetFlag(&FLAGS_use_unscaled_speech_mos_mapping, d_unscaled);
  absl::SetFlag(&FLAGS_search_window_radius, d_radius);
  absl::SetFlag(&FLAGS_disable_global_alignment, d_global);
  absl::SetFlag(&FLAGS_disable_realignment, d_realign);
}
absl::StatusOr<CommandLineArgs> Parse(const std::vector<std::string>& args) {
  ResetFlags();
  std::vector<std::string> store = {"visqol"};
  store.insert(store.end(), args.begin(), args.end());
  std::vector<char*> argv;
  for (auto& s : store) argv.push_back(s.data());
  argv.push_back(nullptr);
  return VisqolCommandLineParser::Parse(static_cast<int>(store.size()), argv.data());
}
std::string Join(const std::vector<std::string>& a) {
  std::string s;
  for (auto& x : a) s += " " + x;
  return s;
}
// The files the scenarios name: created once per worker.
struct Files {
  std::string dir;
  std::string with_models, with_audio_model, without_models;
  explicit Files(const std::string& parent) {
    dir = parent + "-files";
    for (const char* d : {"", "/both", "/both/model", "/audio", "/audio/model", "/none"}) {
      const std::string p = dir + d;
      if (system(("mkdir -p " + p).c_str()) != 0) abort();
    }
    for (const char* f : {"/ref.wav", "/deg.wav", "/batch.csv", "/my.model"}) WriteFile(dir + f, "h\nr1,d1\nr2,d2\n");
    with_models = dir + "/both";
    with_audio_model = dir + "/audio";
    without_models = dir + "/none";
    WriteFile(with_models + Visqol::kDefaultAudioModelFile, "x");
    WriteFile(with_models + Visqol::kDefaultSpeechModelFile, "x");
    WriteFile(with_audio_model + Visqol::kDefaultAudioModelFile, "x");
  }
};
Files& F(mc::Ctx& c) {
  static Files f(c.scratch());
  return f;
}
enum Given { kUnset, kPresent, kMissing };

void CheckParse(mc::Ctx& c, int batch, int ref, int deg, int model, int speech, int lattice, int unscaled, int radius,
                bool results, bool debug, bool verbose, bool no_global, bool no_realign, int cwd, int spelling) {
  Files& f = F(c);
  std::vector<std::string> a;
  auto str = [&](const std::string& flag, int given, const std::string& name) {
    if (given == kUnset) return;
    const std::string v = f.dir + (given == kPresent ? "/" + name : "/missing-" + name);
    if (spelling) { a.push_back("--" + flag); a.push_back(v); } else a.push_back("--" + flag + "=" + v);
  };
  auto tri = [&](const std::string& flag, int given) {  // 0 unset, 1 true, 2 false
    if (given == 0) return;
    if (spelling) a.push_back(given == 1 ? "--" + flag : "--no" + flag);
    else a.push_back("--" + flag + (given == 1 ? "=true" : "=false"));
  };
  str("batch_input_csv", batch, "batch.csv");
  str("reference_file", ref, "ref.wav");
  str("degraded_file", deg, "deg.wav");
  str("similarity_to_quality_model", model, "my.model");
  tri("use_speech_mode", speech);
  tri("use_lattice_model", lattice);
  tri("use_unscaled_speech_mos_mapping", unscaled);
  const int radii[] = {60, 1, 0, 7, 2147483647, 40000, -1, 1000, 65536};
  if (radius) a.push_back("--search_window_radius=" + std::to_string(radii[radius]));
  str("results_csv", results ? kMissing : kUnset, "out.csv");
  str("output_debug", debug ? kMissing : kUnset, "out.json");
  tri("verbose", verbose ? 1 : 0);
  tri("disable_global_alignment", no_global ? 1 : 0);
  tri("disable_realignment", no_realign ? 1 : 0);
  const std::string dir = cwd == 0 ? f.with_models : cwd == 1 ? f.without_models : f.with_audio_model;
  if (chdir(dir.c_str()) != 0) abort();
  const auto r = Parse(a);
  c.note("visqol%s", Join(a).c_str());
  const bool is_speech = speech == 1;
  bool want_ok = batch != kUnset ? batch == kPresent : ref == kPresent && deg == kPresent;
  if (model == kMissing && !is_speech) want_ok = false;
  if (model == kUnset && (cwd == 1 || (cwd == 2 && is_speech))) want_ok = false;
  c.outcome(r.ok());
  if (model == kMissing && is_speech) {
    // The flag is not looked at before the model is loaded: either answer.
    if (!r.ok()) return;
  } else {
    c.check(r.ok() == want_ok, want_ok ? "rejected" : "accepted", "%s (%s)", r.ok() ? "accepted" : "rejected",
            r.ok() ? "" : r.status().ToString().c_str());
  }
  if (!r.ok()) {
    c.check(r.status().code() == absl::StatusCode::kInvalidArgument, "code", "%s", r.status().ToString().c_str());
    return;
  }
  const CommandLineArgs& g = *r;
  auto want_path = [&](const char* what, const FilePath& got, const std::string& want) {
    c.check(got.Path() == want, what, "%s is '%s', not '%s'", what, got.Path().c_str(), want.c_str());
  };
  auto want_bool = [&](const char* what, bool got, bool want) { c.check(got == want, what, "%s is %d, not %d", what, got, want); };
  want_path("batch", g.batch_input_csv, batch == kPresent ? f.dir + "/batch.csv" : "");
  if (batch == kUnset) {
    want_path("reference", g.reference_signal_path, f.dir + "/ref.wav");
    want_path("degraded", g.degraded_signal_path, f.dir + "/deg.wav");
  }
  want_path("results", g.results_output_csv, results ? f.dir + "/missing-out.csv" : "");
  want_path("debug", g.debug_output_path, debug ? f.dir + "/missing-out.json" : "");
  want_path("model", g.similarity_to_quality_mapper_model,
            model == kPresent   ? f.dir + "/my.model"
            : model == kMissing ? f.dir + "/missing-my.model"
            : is_speech         ? dir + Visqol::kDefaultSpeechModelFile
                                : dir + Visqol::kDefaultAudioModelFile);
  want_bool("verbose", g.verbose, verbose);
  want_bool("speech", g.use_speech_mode, is_speech);
  want_bool("lattice", g.use_lattice_model, lattice != 2);
  want_bool("unscaled", g.use_unscaled_speech_mos_mapping, unscaled == 1);
  want_bool("no_global", g.disable_global_alignment, no_global);
  want_bool("no_realign", g.disable_realignment, no_realign);
  c.check(g.search_window_radius == radii[radius], "radius", "radius %d, not %d", g.search_window_radius, radii[radius]);
  // What gets compared.
  const auto pairs = VisqolCommandLineParser::BuildFilePairPaths(g);
  if (batch == kPresent) {
    c.check(pairs.size() == 2 && pairs[0].reference.Path() == "r1" && pairs[1].degraded.Path() == "d2", "pairs",
            "%zu pairs from the batch file", pairs.size());
  } else {
    c.check(pairs.size() == 1 && pairs[0].reference.Path() == f.dir + "/ref.wav" && pairs[0].degraded.Path() == f.dir + "/deg.wav",
            "pairs", "%zu pairs from the two files", pairs.size());
  }
}
}  // namespace

// Which files are accepted, and where the model comes from.
SCENARIO(files) {
  const int batch = c.choose("batch", 3), ref = c.choose("ref", 3), deg = c.choose("deg", 3), model = c.choose("model", 3),
            speech = c.choose("speech", 3), lattice = c.choose("lattice", 3), cwd = c.choose("cwd", 3),
            spelling = c.choose("spelling", 2);
  CheckParse(c, batch, ref, deg, model, speech, lattice, 0, 0, false, false, false, false, false, cwd, spelling);
}
// Every option reaches its own argument and no other.
SCENARIO(options) {
  const bool batch = c.flag("batch");
  const int model = c.choose("model", 2), speech = c.choose("speech", 3), lattice = c.choose("lattice", 3),
            unscaled = c.choose("unscaled", 3), radius = c.choose("radius", c.tier(6, 9));
  const bool results = c.flag("results"), debug = c.flag("debug"), verbose = c.flag("verbose"), ng = c.flag("no_global"),
             nr = c.flag("no_realign");
  const int spelling = c.choose("spelling", 2);
  CheckParse(c, batch ? kPresent : kUnset, batch ? kUnset : kPresent, batch ? kUnset : kPresent, model, speech, lattice, unscaled,
             radius, results, debug, verbose, ng, nr, 0, spelling);
}

// Batch files: all sequences of rows.
namespace {
struct Row {
  std::string text;
  bool pair;
  std::string ref, deg;
};
const std::vector<Row>& Rows() {
  static const std::vector<Row> r = {
      {"a.wav,b.wav", true, "a.wav", "b.wav"},
      {"", false, "", ""},
      {"/data/x y/ref 1.wav,../deg (1).wav", true, "/data/x y/ref 1.wav", "../deg (1).wav"},
      {"lonely.wav", false, "", ""},
      {"c,d,4.5,more", true, "c", "d"},
      {"reference,degraded", true, "reference", "degraded"},
      {" s , t ", true, " s ", " t "},
      {std::string(5000, 'p') + "," + std::string(3000, 'q'), true, std::string(5000, 'p'), std::string(3000, 'q')},
      {"\xc3\xa9t\xc3\xa9.wav,\xe2\x82\xac.wav", true, "\xc3\xa9t\xc3\xa9.wav", "\xe2\x82\xac.wav"},
      {"a.wav,a.wav", true, "a.wav", "a.wav"},
      {"#1\t.wav,\"q.wav\"", true, "#1\t.wav", "\"q.wav\""},
      {",c.wav,d.wav", true, "", "c.wav"},
      {"a.wav,,d.wav", true, "a.wav", ""},
  };
  return r;
}
std::vector<std::pair<std::string, std::string>> Read(mc::Ctx& c, const std::string& bytes) {
  const std::string p = c.scratch() + "/batch.csv";
  WriteFile(p, bytes);
  CommandLineArgs g;
  g.batch_input_csv = FilePath(p);
  // Given besides the batch, these are to be ignored.
  g.reference_signal_path = FilePath(p);
  g.degraded_signal_path = FilePath(p);
  std::vector<std::pair<std::string, std::string>> out;
  for (auto& x : VisqolCommandLineParser::BuildFilePairPaths(g)) out.push_back({x.reference.Path(), x.degraded.Path()});
  return out;
}
void Compare(mc::Ctx& c, const std::vector<std::pair<std::string, std::string>>& got,
             const std::vector<std::pair<std::string, std::string>>& want) {
  uint64_t h = got.size();
  for (auto& p : got) h = mc::hash(p.first + "\n" + p.second, h);
  c.outcome(h);
  c.check(got.size() == want.size(), "row-count", "%zu pairs from %zu rows with a pair", got.size(), want.size());
  for (size_t i = 0; i < want.size(); i++)
    c.check(got[i] == want[i], "row", "pair %zu is '%.60s','%.60s', not '%.60s','%.60s'", i, got[i].first.c_str(),
            got[i].second.c_str(), want[i].first.c_str(), want[i].second.c_str());
}
}  // namespace

SCENARIO(batch_rows) {
  const int n = c.choose("rows", c.tier(5, 6));
  const bool crlf = c.flag("crlf"), last = c.flag("final_newline");
  const int header = c.choose("header", 3);
  const std::string eol = crlf ? "\r\n" : "\n";
  std::string bytes = header == 0 ? "reference,degraded" : header == 1 ? "ref,deg,mos" : "";
  std::vector<std::pair<std::string, std::string>> want;
  std::string desc;
  for (int i = 0; i < n; i++) {
    const Row& r = c.pick("row", Rows());
    bytes += eol + r.text;
    desc += " | " + r.text.substr(0, 20);
    if (r.pair) want.push_back({r.ref, r.deg});
  }
  if (last) bytes += eol;
  c.note("header %d%s%s, final newline %d", header, desc.c_str(), crlf ? " (CRLF)" : "", last);
  Compare(c, Read(c, bytes), want);
}
// Mixed line ends, per row.
SCENARIO(batch_eol) {
  const int n = 5;
  std::string bytes = "reference,degraded";
  std::vector<std::pair<std::string, std::string>> want;
  std::vector<int> e;
  for (int i = 0; i <= n; i++) {
    const int k = c.choose("eol", i == n ? 4 : 3);
    e.push_back(k);
    bytes += k == 0 ? "\n" : k == 1 ? "\r\n" : k == 2 ? "\n\n" : "";
    if (i < n) {
      bytes += "r" + std::to_string(i) + ".wav,d" + std::to_string(i) + ".wav";
      want.push_back({"r" + std::to_string(i) + ".wav", "d" + std::to_string(i) + ".wav"});
    }
  }
  c.note("line ends %s", Str(e).c_str());
  Compare(c, Read(c, bytes), want);
}
// Every number of rows, and long files.
SCENARIO(batch_size) {
  const int k = c.choose("rows", 70);
  const int n = k < 60 ? k : (k - 59) * 997;
  std::string bytes = "reference,degraded\n";
  std::vector<std::pair<std::string, std::string>> want;
  for (int i = 0; i < n; i++) {
    want.push_back({"ref" + std::to_string(i), "deg" + std::to_string(i * 7)});
    bytes += want.back().first + "," + want.back().second + "\n";
  }
  c.note("%d rows", n);
  Compare(c, Read(c, bytes), want);
}
