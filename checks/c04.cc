// variant: fast
// The command line program on batches: every sequence of good and bad pairs up
// to a length, in every mode.  One row per successful comparison, in order,
// equal to what the pair gives on its own and to what the library computes.
#include <google/protobuf/util/json_util.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

#include <map>

#include "checks/common.h"
#include "src/proto/similarity_result.pb.h"
#include "visqol_manager.h"

using namespace vt;
using Visqol::SimilarityResultMsg;

namespace {
struct Item {
  const char* name;
  bool good;  // in audio mode and in speech mode
};
const std::vector<Item> kItems = {{"good1", true},    {"good2", true},    {"good3", true},  {"missing", false}, {"corrupt", false},
                                  {"short", false},   {"rates", false},   {"empty", false}, {"silent", false /* unknown */},
                                  {"same", true},     {"brief", true /* but without a window */}};
const int kSilent = 8, kSame = 9, kBrief = 10;
struct Mode {
  const char* name;
  std::vector<std::string> flags;
  bool speech, unscaled, lattice, no_global, no_realign;
  int radius;
};
const std::vector<Mode> kModes = {
    {"audio", {}, false, false, true, false, false, 60},
    {"speech lattice", {"--use_speech_mode"}, true, false, true, false, false, 60},
    {"speech exponential", {"--use_speech_mode", "--nouse_lattice_model"}, true, false, false, false, false, 60},
    {"speech unscaled", {"--use_speech_mode", "--nouse_lattice_model", "--use_unscaled_speech_mos_mapping"}, true, true, false, false, false, 60},
    {"audio radius 0", {"--search_window_radius=0"}, false, false, true, false, false, 0},
    {"audio without global alignment", {"--disable_global_alignment"}, false, false, true, true, false, 60},
    {"audio without realignment", {"--disable_realignment"}, false, false, true, false, true, 60},
};
struct Ran {
  int status;
  std::string out;
};
Ran RunTool(const std::vector<std::string>& args, const std::string& out) {
  std::vector<std::string> all = {BinDir() + "/visqol_fast"};
  all.insert(all.end(), args.begin(), args.end());
  std::vector<char*> argv;
  for (auto& s : all) argv.push_back(s.data());
  argv.push_back(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    if (chdir(Repo().c_str()) != 0) _exit(98);
    const int f = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), n = open("/dev/null", O_WRONLY);
    dup2(f, 1);
    dup2(n, 2);
    execv(argv[0], argv.data());
    _exit(99);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return {st, ReadFile(out)};
}
std::vector<std::string> Lines(const std::string& s) {
  std::vector<std::string> v;
  std::istringstream in(s);
  for (std::string l; std::getline(in, l);) v.push_back(l);
  return v;
}
// Splits concatenated JSON objects.
std::vector<std::string> Objects(const std::string& s) {
  std::vector<std::string> v;
  int depth = 0;
  bool str = false;
  size_t start = 0;
  for (size_t i = 0; i < s.size(); i++) {
    if (str) {
      if (s[i] == '\\') i++;
      else if (s[i] == '"') str = false;
    } else if (s[i] == '"') {
      str = true;
    } else if (s[i] == '{') {
      if (depth++ == 0) start = i;
    } else if (s[i] == '}' && --depth == 0) {
      v.push_back(s.substr(start, i - start + 1));
    }
  }
  return v;
}
struct World {
  std::string dir;
  std::string Ref(int i) const { return dir + "/" + kItems[i].name + "_ref.wav"; }
  std::string Deg(int i) const { return dir + "/" + (i == kSame ? "same_ref" : std::string(kItems[i].name) + "_deg") + ".wav"; }
  struct Alone {
    bool ok;
    std::string header, row;
    SimilarityResultMsg msg;
  };
  std::map<int, Alone> alone;

  explicit World(const std::string& parent) {
    dir = parent + "-files";
    if (system(("mkdir -p " + dir).c_str()) != 0) abort();
    auto put = [&](const std::string& p, int ch, int rate, int layout, const std::vector<double>& v) {
      WavSpec w;
      w.channels = ch;
      w.rate = rate;
      w.layout = layout;
      std::vector<double> inter;
      for (double x : v)
        for (int k = 0; k < ch; k++) inter.push_back(x * (k ? 0.5 : 1));
      WriteFile(p, Wav(w, Quantise(inter)));
    };
    auto degrade = [](std::vector<double> v, int hold, int delay) {
      std::vector<double> o(delay, 0.0);
      for (size_t i = 0; i < v.size(); i++) o.push_back(v[i - i % hold] * 0.7);
      return o;
    };
    const auto a = Signal(kBursts, 2200, 1000, 1), b = Signal(kChord, 2500, 900, 2), d = Signal(kBursts, 2300, 1000, 3);
    put(Ref(0), 1, 1000, kPlain, a);
    put(Deg(0), 1, 1000, kPlain, degrade(a, 2, 0));
    put(Ref(1), 1, 900, kFmt18, b);
    put(Deg(1), 1, 900, kPlain, degrade(b, 4, 40));
    put(Ref(2), 2, 1000, kExtensible, d);
    put(Deg(2), 1, 1000, kPlain, degrade(d, 3, 7));
    put(Ref(3), 1, 1000, kPlain, a);
    WriteFile(Ref(4), std::string(3000, 'j'));
    put(Deg(4), 1, 1000, kPlain, a);
    put(Ref(5), 1, 1000, kPlain, std::vector<double>(a.begin(), a.begin() + 90));
    put(Deg(5), 1, 1000, kPlain, a);
    put(Ref(6), 1, 1000, kPlain, a);
    put(Deg(6), 1, 900, kPlain, b);
    put(Ref(7), 1, 1000, kPlain, a);
    put(Deg(7), 1, 1000, kPlain, {});
    put(Ref(9), 1, 1000, kPlain, d);
    put(Ref(10), 1, 1000, kPlain, a);
    put(Deg(10), 1, 1000, kPlain, std::vector<double>(a.begin() + 1500, a.begin() + 1620));
    put(Ref(8), 1, 1000, kPlain, a);
    put(Deg(8), 1, 1000, kPlain, std::vector<double>(a.size(), 0.0));
  }
  // The pair compared on its own.
  const Alone& Stand(int mode, int item, const std::string& scratch) {
    const int key = mode * 100 + item;
    auto it = alone.find(key);
    if (it != alone.end()) return it->second;
    Alone& r = alone[key];
    const std::string csv = dir + "/alone.csv", json = dir + "/alone.json";
    remove(csv.c_str());
    remove(json.c_str());
    std::vector<std::string> args = {"--reference_file", Ref(item), "--degraded_file", Deg(item), "--results_csv", csv, "--output_debug", json};
    args.insert(args.end(), kModes[mode].flags.begin(), kModes[mode].flags.end());
    RunTool(args, dir + "/alone.out");
    const auto l = Lines(ReadFile(csv));
    r.ok = l.size() == 2;
    if (r.ok) {
      r.header = l[0];
      r.row = l[1];
      const auto o = Objects(ReadFile(json));
      if (o.size() != 1 || !google::protobuf::util::JsonStringToMessage(o[0], &r.msg).ok()) r.ok = false;
    }
    return r;
  }
};
World& W(mc::Ctx& c) {
  static World w(c.scratch());
  return w;
}
void CompareMsg(mc::Ctx& c, const SimilarityResultMsg& a, const SimilarityResultMsg& b, const char* what) {
  // JSON carries doubles exactly.
  c.check(a.SerializeAsString() == b.SerializeAsString(), what, "%.300s instead of %.300s", a.ShortDebugString().c_str(),
          b.ShortDebugString().c_str());
}
}  // namespace

// On its own, through the program and through the library.
SCENARIO_T(alone, 60) {
  const int m = c.choose("mode", kModes.size()), i = c.choose("item", kItems.size());
  World& w = W(c);
  const Mode& mode = kModes[m];
  const auto& a = w.Stand(m, i, c.scratch());
  c.note("%s, %s", mode.name, kItems[i].name);
  Visqol::VisqolManager v;
  const std::string model = !mode.speech ? SvrModel() : LatticeModel();
  if (!v.Init(model, mode.speech, mode.unscaled, mode.radius, mode.lattice, mode.no_global, mode.no_realign).ok()) abort();
  auto r = v.Run(Visqol::FilePath(w.Ref(i)), Visqol::FilePath(w.Deg(i)));
  c.outcome(r.ok() ? r->moslqo() : -1.0);
  c.check(r.ok() == a.ok, "program-differs", "the library %s, the program %s", r.ok() ? "succeeds" : "fails", a.ok ? "succeeds" : "fails");
  if (i == kBrief && mode.radius == 0) c.check(!a.ok, "wrong-verdict", "%s gives a result", kItems[i].name);
  else if (i != kSilent) c.check(a.ok == kItems[i].good, "wrong-verdict", "%s gives %s", kItems[i].name, a.ok ? "a result" : "no result");
  if (!a.ok) return;
  CompareMsg(c, a.msg, *r, "program-differs");
  c.check(a.row.compare(0, w.Ref(i).size() + w.Deg(i).size() + 2, w.Ref(i) + "," + w.Deg(i) + ",") == 0, "paths", "row %.200s", a.row.c_str());
  const double mos = atof(a.row.c_str() + w.Ref(i).size() + w.Deg(i).size() + 2);
  c.check(Near(mos, r->moslqo(), 1e-8), "row-mos", "row says %.10g, the library %.10g", mos, r->moslqo());
  c.check(std::count(a.row.begin(), a.row.end(), ',') == std::count(a.header.begin(), a.header.end(), ','), "columns", "header and row differ");
}

// Runs the program on the pairs and judges everything it writes.
static void RunBatch(mc::Ctx& c, int m, const std::vector<int>& items, int previous) {
  World& w = W(c);
  std::string batch = "reference,degraded\n";
  for (int i : items) batch += w.Ref(i) + "," + w.Deg(i) + "\n";
  std::string want_csv;
  std::vector<const SimilarityResultMsg*> want;
  for (int rep = 0; rep <= previous; rep++) {
    for (int i : items) {
      const auto& a = w.Stand(m, i, c.scratch());
      if (!a.ok) continue;
      if (want.empty()) want_csv = a.header + "\n";
      want.push_back(&a.msg);
      want_csv += a.row + "\n";
    }
  }
  const std::string csv = c.scratch() + "/r.csv", json = c.scratch() + "/r.json", in = c.scratch() + "/b.csv";
  WriteFile(in, batch);
  std::vector<std::string> args = {"--batch_input_csv", in, "--results_csv", csv, "--output_debug", json, "--verbose"};
  args.insert(args.end(), kModes[m].flags.begin(), kModes[m].flags.end());
  Ran r;
  for (int rep = 0; rep <= previous; rep++) {
    r = RunTool(args, c.scratch() + "/out");
    c.check(WIFEXITED(r.status), "crash", "the program was killed by signal %d", WTERMSIG(r.status));
  }
  const std::string got = ReadFile(csv);
  c.outcome(mc::hash(got));
  if (got != want_csv) {
    const auto g = Lines(got), e = Lines(want_csv);
    for (size_t k = 0; k < std::max(g.size(), e.size()); k++)
      c.check(k < g.size() && k < e.size() && g[k] == e[k], "rows", "results line %zu is %.150s instead of %.150s", k,
              k < g.size() ? g[k].c_str() : "missing", k < e.size() ? e[k].c_str() : "no line");
    c.fail("rows", "the results file differs");
  }
  const auto o = Objects(ReadFile(json));
  c.check(o.size() == want.size(), "debug-count", "%zu debug objects for %zu results", o.size(), want.size());
  for (size_t k = 0; k < o.size(); k++) {
    SimilarityResultMsg msg;
    c.check(google::protobuf::util::JsonStringToMessage(o[k], &msg).ok(), "debug-json", "object %zu does not parse", k);
    CompareMsg(c, msg, *want[k], "debug-differs");
  }
  // The console of the last run names the pairs and scores in order.
  std::vector<std::string> con;
  for (auto& l : Lines(r.out))
    if (l.compare(0, 8, "Degraded") == 0 || l.compare(0, 7, "MOS-LQO") == 0) con.push_back(l);
  const size_t per_run = want.size() / (previous + 1);
  c.check(con.size() == 2 * per_run, "console", "%zu lines for %zu results", con.size(), per_run);
  for (size_t k = 0; k < per_run; k++) {
    const auto& msg = *want[want.size() - per_run + k];
    c.check(con[2 * k].find(msg.degraded_filepath()) != std::string::npos, "console", "%s", con[2 * k].c_str());
    c.check(Near(atof(con[2 * k + 1].c_str() + con[2 * k + 1].find_last_of("\t ") + 1), msg.moslqo(), 1e-5), "console", "%s", con[2 * k + 1].c_str());
  }
}

SCENARIO_T(batch, 60) {
  const int m = c.choose("mode", kModes.size());
  const int n = c.choose("length", m == 0 ? c.tier(4, 5) : c.tier(3, 4));
  const int previous = n <= 2 && m == 0 ? c.choose("previous_results", 2) : 0;
  std::vector<int> items;
  std::string desc;
  for (int k = 0; k < n; k++) {
    items.push_back(c.choose("item", kItems.size()));
    desc += std::string(" ") + kItems[items.back()].name;
  }
  c.note("%s:%s%s", kModes[m].name, desc.c_str(), previous ? " (second run)" : "");
  RunBatch(c, m, items, previous);
}

// Long batches: every step through the kinds, and long rows of the same kind.
SCENARIO_T(long_batch, 200) {
  const int m = c.choose("mode", c.tier(4, static_cast<int>(kModes.size())));
  const int n = c.pick("length", c.thorough() ? std::vector<int>{17, 70, 300} : std::vector<int>{17, 70});
  const int k = kItems.size(), step = c.choose("step", k), run = c.pick("run", std::vector<int>{1, 9});
  std::vector<int> items;
  for (int i = 0; i < n; i++) items.push_back((i / run * (step + 1)) % k);
  c.note("%s: %d pairs, every %d kinds in runs of %d", kModes[m].name, n, step + 1, run);
  RunBatch(c, m, items, 0);
}
