// variant: fast
// The published scores of the conformance set, by every way to get them.
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include "checks/session.h"
#include "misc_audio.h"
#include "visqol_api.h"
#include "src/proto/visqol_config.pb.h"

using namespace vt;

namespace {
struct Published {
  const char *reference, *degraded;
  int mode;  // of Modes()
  double score;
};
// The comparisons and scores of conformance version 333.
const std::vector<Published>& Set() {
#define CONF "conformance_testdata_subset/"
  static const std::vector<Published> v = {
      {"clean_speech/CA01_01.wav", "clean_speech/transcoded_CA01_01.wav", 1, 3.3129234313964844},
      {"clean_speech/CA01_01.wav", "clean_speech/transcoded_CA01_01.wav", 2, 3.374505555111911},
      {"clean_speech/CA01_01.wav", "clean_speech/CA01_01.wav", 1, 4.505550384521484},
      {"clean_speech/CA01_01.wav", "clean_speech/CA01_01.wav", 3, 4.015861169223797},
      {CONF "guitar48_stereo.wav", "clean_speech/CA01_01.wav", 1, 1.4982070922851562},
      {CONF "guitar48_stereo.wav", "clean_speech/CA01_01.wav", 2, 1.269675546824064},
      {"alignment/reference.wav", "alignment/degraded.wav", 1, 1.19293212890625},
      {"alignment/reference.wav", "alignment/degraded.wav", 2, 1.357521678867611},
      {CONF "strauss48_stereo.wav", CONF "strauss48_stereo_lp35.wav", 0, 1.3888791489130758},
      {CONF "steely48_stereo.wav", CONF "steely48_stereo_lp7.wav", 0, 2.2501683734385183},
      {CONF "sopr48_stereo.wav", CONF "sopr48_stereo_256kbps_aac.wav", 0, 4.68228969737946},
      {CONF "ravel48_stereo.wav", CONF "ravel48_stereo_128kbps_opus.wav", 0, 4.465141897255348},
      {CONF "moonlight48_stereo.wav", CONF "moonlight48_stereo_128kbps_aac.wav", 0, 4.684292801646114},
      {CONF "harpsichord48_stereo.wav", CONF "harpsichord48_stereo_96kbps_mp3.wav", 0, 4.22374532766003},
      {CONF "guitar48_stereo.wav", CONF "guitar48_stereo_64kbps_aac.wav", 0, 4.349722308064298},
      {CONF "glock48_stereo.wav", CONF "glock48_stereo_48kbps_aac.wav", 0, 4.332452943882108},
      {CONF "contrabassoon48_stereo.wav", CONF "contrabassoon48_stereo_24kbps_aac.wav", 0, 2.346868205375293},
      {CONF "castanets48_stereo.wav", CONF "castanets48_stereo.wav", 0, 4.732101253042348},
      {CONF "guitar48_stereo.wav", "short_duration/5_second/guitar48_stereo_5_sec.wav", 0, 4.314508583690198},
      {"short_duration/5_second/guitar48_stereo_5_sec.wav", CONF "guitar48_stereo.wav", 0, 4.550791119387646},
  };
  return v;
#undef CONF
}
std::string File(const char* n) { return Repo() + "/testdata/" + n; }
void Judge(mc::Ctx& c, const Published& p, const absl::StatusOr<Visqol::SimilarityResultMsg>& got, const char* how) {
  c.check(got.ok(), "refused", "%s and %s, %s: %s", p.reference, p.degraded, how, std::string(got.status().message()).c_str());
  c.check(fabs(got->moslqo() - p.score) <= 1e-4, "score", "%s and %s (%s), %s: %.9g, published %.9g", p.reference, p.degraded, Modes()[p.mode].name, how, got->moslqo(), p.score);
  c.outcome(got->moslqo());
}
}  // namespace


// Every comparison by every way into the library, and by the program.
SCENARIO_T(every_way, 300) {
  static const char* const kWays[] = {"by path", "by signal", "through the library interface", "by the program", "by the program in a batch"};
  const Published& p = c.pick("comparison", Set());
  const int way = c.choose("way", c.tier(4, 5));
  const Mode& mode = Modes()[p.mode];
  c.note("%s and %s (%s), %s", p.reference, p.degraded, mode.name, kWays[way]);
  const std::string ref = File(p.reference), deg = File(p.degraded);
  if (way < 2) {
    Visqol::VisqolManager m;
    if (!InitAs(&m, mode).ok()) c.fail("init", "the manager is not initialised");
    if (way == 0) {
      Judge(c, p, m.Run(Visqol::FilePath(ref), Visqol::FilePath(deg)), kWays[way]);
      return;
    }
    const auto a = Visqol::MiscAudio::LoadAsMono(Visqol::FilePath(ref));
    auto b = Visqol::MiscAudio::LoadAsMono(Visqol::FilePath(deg));
    Judge(c, p, m.Run(a, b), kWays[way]);
    return;
  }
  if (way == 2) {
    const auto a = Visqol::MiscAudio::LoadAsMono(Visqol::FilePath(ref)), b = Visqol::MiscAudio::LoadAsMono(Visqol::FilePath(deg));
    Visqol::VisqolConfig config;
    config.mutable_audio()->set_sample_rate(a.sample_rate);
    config.mutable_options()->set_use_speech_scoring(mode.speech);
    config.mutable_options()->set_use_unscaled_speech_mos_mapping(mode.unscaled);
    config.mutable_options()->set_use_lattice_model(mode.lattice);
    config.mutable_options()->set_svr_model_path(ModelOf(mode));
    Visqol::VisqolApi api;
    c.check(api.Create(config).ok(), "init", "the configuration is refused");
    auto x = a.data_matrix.ToVector(), y = b.data_matrix.ToVector();
    Judge(c, p, api.Measure(absl::Span<double>(x), absl::Span<double>(y)), kWays[way]);
    return;
  }
  const std::string csv = c.scratch() + "/out.csv", batch = c.scratch() + "/batch.csv";
  std::vector<std::string> args = {BinDir() + "/visqol_fast", "--results_csv", csv};
  if (mode.speech) args.push_back("--use_speech_mode");
  if (mode.speech && !mode.lattice) args.push_back("--nouse_lattice_model");
  if (mode.unscaled) args.push_back("--use_unscaled_speech_mos_mapping");
  if (way == 3) {
    args.insert(args.end(), {"--reference_file", ref, "--degraded_file", deg});
  } else {
    std::ofstream(batch) << "reference,degraded\n" << ref << "," << deg << "\n";
    args.insert(args.end(), {"--batch_input_csv", batch});
  }
  std::vector<char*> argv;
  for (auto& s : args) argv.push_back(s.data());
  argv.push_back(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    if (chdir(Repo().c_str()) != 0) _exit(98);
    const int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    dup2(n, 2);
    execv(argv[0], argv.data());
    _exit(99);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "program", "the program ended with %d", st);
  std::ifstream f(csv);
  std::string line, cell;
  std::vector<std::string> rows;
  while (getline(f, line)) rows.push_back(line);
  c.check(rows.size() == 2, "rows", "%zu rows of results", rows.size());
  std::istringstream row(rows[1]);
  for (int i = 0; i < 3; i++) getline(row, cell, ',');
  const double got = strtod(cell.c_str(), nullptr);
  c.check(fabs(got - p.score) <= 1e-4, "score", "%s and %s (%s), %s: %.9g, published %.9g", p.reference, p.degraded, mode.name, kWays[way], got, p.score);
  c.outcome(got);
}

// Every comparison after every other one of the mode, on one instance.
SCENARIO_T(in_sequence, 600) {
  const int mode = c.choose("mode", 4);
  std::vector<const Published*> set;
  for (auto& p : Set())
    if (p.mode == mode) set.push_back(&p);
  // In the quick tier audio comparisons follow the short one only, and not all of them.
  const bool all = c.thorough() || mode != 0;
  const Published& first = all ? *c.pick("first", set) : *set.back();
  const int k = c.choose("second", set.size());
  if (!all && k % 3 != 2) c.skip();
  const Published& second = *set[k];
  Visqol::VisqolManager m;
  if (!InitAs(&m, Modes()[mode]).ok()) c.fail("init", "the manager is not initialised");
  c.note("%s, then %s (%s)", first.degraded, second.degraded, Modes()[mode].name);
  Judge(c, first, m.Run(Visqol::FilePath(File(first.reference)), Visqol::FilePath(File(first.degraded))), "first");
  Judge(c, second, m.Run(Visqol::FilePath(File(second.reference)), Visqol::FilePath(File(second.degraded))), "after another comparison");
}
