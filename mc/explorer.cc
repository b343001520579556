#include "mc/explorer.h"

#include <errno.h>

#include <dirent.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <exception>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <typeinfo>

#if defined(__SANITIZE_ADDRESS__)
#define VERIF_ASAN 1
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:max_allocation_size_mb=3000:"
         "allocator_may_return_null=0:handle_abort=0:detect_stack_use_after_return=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:abort_on_error=1"; }
#endif

namespace mc {
uint64_t g_memory_limit = 6ull << 30;
bool g_fresh_process = false;

static std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> v;
  return v;
}
Register::Register(const char* n, void (*f)(Ctx&), double t) { scenarios().push_back({n, f, t}); }

uint64_t hash(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}

namespace {
constexpr int kDepth = 400;      // choices per execution
constexpr int kQueue = 1 << 15;  // pending prefixes
constexpr int kHist = 1 << 16;
constexpr int kOutcomes = 1 << 21;
constexpr int kMsg = 2000;
constexpr int kWorkers = 64;

struct Item {
  int scenario;
  int len;        // fixed choices before the range
  int lo, hi;     // alternatives [lo, hi) of choice `len`; hi<0: just the prefix
  int32_t c[kDepth];
};
struct Slot {  // what a worker is doing
  std::atomic<int> busy;
  std::atomic<int> prefix_len;  // choices fixed by the item of this execution
  std::atomic<double> start;
  std::atomic<int> n;
  int scenario;
  int32_t c[kDepth];
  int32_t k[kDepth];
  std::atomic<int> failed;  // a violation is stored here
  char key[200];
  char msg[kMsg];
  char note[500];
  std::atomic<uint64_t> history;  // executions this process ran so far
};
struct Shared {
  pthread_mutex_t mu;
  std::atomic<long> pending;  // queued items + executions in flight
  int top;
  Item q[kQueue];
  std::atomic<int> stop;
  std::atomic<int> overflow, capped, known_seen;
  std::atomic<uint64_t> execs, skipped, nodes, edges, trivial, inner, depth_max;
  std::atomic<uint64_t> outcome[kOutcomes];
  std::atomic<uint64_t> outcomes;
  std::atomic<uint64_t> per_scenario[64];
  std::atomic<int> nsamples;
  char sample[64][700];
  Slot slot[kWorkers];
};
Shared* S;
bool g_thorough = false;
std::map<std::string, std::string> g_known;  // recorded findings: "scenario key" -> text
std::string g_scratch_root;

double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
struct Lock {
  Lock() {
    if (pthread_mutex_lock(&S->mu) == EOWNERDEAD) pthread_mutex_consistent(&S->mu);
  }
  ~Lock() { pthread_mutex_unlock(&S->mu); }
};
}  // namespace

struct Run {
  Slot* slot;
  int scenario;
  std::vector<int> prefix;
  std::string scratch;
  bool is_trivial = false;
  uint64_t inner = 0;
};

int Ctx::choose(const char* name, int n) {
  Slot* s = r_->slot;
  const int i = s->n.load();
  if (n <= 0) { fprintf(stderr, "explorer: choose(%s, %d)\n", name, n); _exit(97); }
  if (i >= kDepth) { fprintf(stderr, "explorer: too many choices\n"); _exit(97); }
  int v = 0;
  if (i < static_cast<int>(r_->prefix.size())) {
    v = r_->prefix[i];
    if (v >= n) {  // the replayed prefix diverged: nondeterminism we do not own
      fprintf(stderr, "explorer: divergence at %s (%d of %d)\n", name, v, n);
      _exit(96);
    }
  }
  s->c[i] = v;
  s->k[i] = n;
  s->n.store(i + 1);
  return v;
}
static std::string vfmt(const char* fmt, va_list ap) {
  char b[kMsg];
  vsnprintf(b, sizeof b, fmt, ap);
  return b;
}
void Ctx::fail(const std::string& key, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::string m = vfmt(fmt, ap);
  va_end(ap);
  throw Violation{key, m};
}
void Ctx::check(bool ok, const std::string& key, const char* fmt, ...) {
  if (ok) return;
  va_list ap;
  va_start(ap, fmt);
  std::string m = vfmt(fmt, ap);
  va_end(ap);
  throw Violation{key, m};
}
void Ctx::outcome(uint64_t h) {
  h ^= 0x9e3779b97f4a7c15ull * (r_->scenario + 1);
  if (!h) h = 1;
  for (uint64_t i = h % kOutcomes, n = 0; n < 64; i = (i + 1) % kOutcomes, n++) {
    uint64_t cur = S->outcome[i].load(std::memory_order_relaxed);
    if (cur == h) return;
    if (!cur) {
      if (S->outcome[i].compare_exchange_strong(cur, h)) { S->outcomes++; return; }
      if (cur == h) return;
    }
  }
}
void Ctx::outcome(const std::string& s) { outcome(hash(s)); }
void Ctx::note(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(r_->slot->note, sizeof r_->slot->note, fmt, ap);
  va_end(ap);
}
void Ctx::trivial() { r_->is_trivial = true; }
void Ctx::count(uint64_t n) { r_->inner += n; }
bool Ctx::thorough() const { return g_thorough; }
const std::string& Ctx::scratch() {
  if (r_->scratch.empty()) {
    r_->scratch = g_scratch_root + "/w" + std::to_string(getpid());
    std::filesystem::create_directories(r_->scratch);
  }
  return r_->scratch;
}

namespace {
void PushSiblings(const Slot& s, int from) {
  const int n = s.n.load();
  Lock l;
  for (int i = from; i < n; i++) {
    if (s.k[i] <= 1) continue;
    if (S->top >= kQueue) { S->overflow = 1; return; }
    Item& it = S->q[S->top++];
    it.scenario = s.scenario;
    it.len = i;
    it.lo = 1;
    it.hi = s.k[i];
    memcpy(it.c, s.c, sizeof(int32_t) * i);
    S->pending++;
  }
}
bool Pop(int* scenario, std::vector<int>* prefix) {
  Lock l;
  if (!S->top) return false;
  Item& it = S->q[S->top - 1];
  *scenario = it.scenario;
  prefix->assign(it.c, it.c + it.len);
  if (it.hi < 0) {
    S->top--;  // its pending count passes to the execution
    return true;
  }
  prefix->push_back(it.lo);
  if (++it.lo >= it.hi) S->top--;
  else S->pending++;
  return true;
}
void EmptyDir(const std::string& d) {
  if (d.empty() || d.compare(0, g_scratch_root.size(), g_scratch_root) != 0) return;
  std::error_code ec;
  for (auto& e : std::filesystem::directory_iterator(d, ec)) std::filesystem::remove_all(e.path(), ec);
}
// Returns true when the execution was fine.
bool Execute(Slot* s, int scenario, const std::vector<int>& prefix, std::string* scratch) {
  Run r;
  r.slot = s;
  r.scenario = scenario;
  r.prefix = prefix;
  r.scratch = *scratch;
  s->scenario = scenario;
  s->n = 0;
  s->prefix_len = static_cast<int>(prefix.size());
  s->failed = 0;
  s->note[0] = 0;
  s->start = now();
  s->busy = 1;
  Ctx c(&r);
  bool ok = true;
  auto bad = [&](const std::string& k, const std::string& m) {
    snprintf(s->key, sizeof s->key, "%s", k.c_str());
    snprintf(s->msg, sizeof s->msg, "%s", m.c_str());
    ok = false;
  };
  bool skipped = false;
  try {
    scenarios()[scenario].fn(c);
  } catch (const Skip&) {
    skipped = true;
  } catch (const Violation& v) {
    bad(v.key, v.msg);
  } catch (const std::exception& e) {
    int st = 0;
    char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    bad("uncaught-exception", std::string("uncaught ") + (d ? d : "exception") + ": " + e.what());
    free(d);
  } catch (...) {
    bad("uncaught-exception", "uncaught exception");
  }
  *scratch = r.scratch;
  if (!r.scratch.empty()) EmptyDir(r.scratch);
  const int n = s->n.load();
  if (static_cast<int>(prefix.size()) > n && !skipped && ok) {
    fprintf(stderr, "explorer: divergence: only %d of %zu choices\n", n, prefix.size());
    _exit(96);
  }
  if (skipped) S->skipped++;
  else S->execs++;
  S->per_scenario[scenario]++;
  const int fresh = n - static_cast<int>(prefix.size()) + (prefix.empty() ? 0 : 1);
  S->edges += fresh > 0 ? fresh : 0;
  S->nodes += 1 + (fresh > 0 ? fresh : 0) - (prefix.empty() ? 0 : 1);
  if (r.is_trivial) S->trivial++;
  S->inner += r.inner;
  if (static_cast<uint64_t>(n) > S->depth_max) S->depth_max = n;
  // Keep a few samples per scenario, spread out.
  const uint64_t k = S->per_scenario[scenario];
  if (s->note[0] && !skipped && (k == 2 || k == 40)) {
    const int i = S->nsamples++;
    if (i < 64) snprintf(S->sample[i], sizeof S->sample[i], "%s: %s", scenarios()[scenario].name, s->note);
  }
  s->failed = ok ? 0 : 1;
  return ok;
}
void Limits() {
#if !defined(VERIF_ASAN) && !defined(__SANITIZE_THREAD__)
  rlimit rl{g_memory_limit, g_memory_limit};
  setrlimit(RLIMIT_AS, &rl);
#endif
  rlimit z{0, 0};
  setrlimit(RLIMIT_CORE, &z);
}
void Redirect(const std::string& path) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); if (fd > 2) close(fd); }
}
[[noreturn]] void Worker(int w) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  Redirect(getenv("MC_STDERR") ? getenv("MC_STDERR") : "/dev/null");
  Limits();
  Slot* s = &S->slot[w];
  s->history = 0;
  std::string scratch;
  // The executions of this process, for failures that need their history.
  FILE* hist = fopen((g_scratch_root + "/hist" + std::to_string(w)).c_str(), "wb");
  for (;;) {
    if (S->stop) _exit(0);
    int scenario;
    std::vector<int> prefix;
    if (!Pop(&scenario, &prefix)) {
      if (S->pending == 0) _exit(0);
      usleep(500);
      continue;
    }
    if (hist && !g_fresh_process && s->history < kHist) {
      int32_t h[2] = {scenario, static_cast<int32_t>(prefix.size())};
      fwrite(h, 4, 2, hist);
      fwrite(prefix.data(), 4, prefix.size(), hist);
      fflush(hist);
    }
    bool ok;
    if (g_fresh_process) {
      s->start = now();
      s->scenario = scenario;
      s->n = 0;
      s->prefix_len = static_cast<int>(prefix.size());
      s->busy = 1;
      const pid_t p = fork();
      if (!p) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        const bool fine = Execute(s, scenario, prefix, &scratch);
        if (!scratch.empty()) {
          std::error_code ec;
          std::filesystem::remove_all(scratch, ec);
        }
        _exit(fine ? 0 : 95);
      }
      int st = 0;
      while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
      if (WIFSIGNALED(st)) {
        signal(WTERMSIG(st), SIG_DFL);
        kill(getpid(), WTERMSIG(st));
        _exit(99);
      }
      if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 95) _exit(WEXITSTATUS(st));
      ok = WEXITSTATUS(st) == 0;
    } else {
      ok = Execute(s, scenario, prefix, &scratch);
      s->history++;
    }
    PushSiblings(*s, static_cast<int>(prefix.size()));
    s->busy = 0;
    if (!ok) {
      // A recorded finding is confirmed a few times; it must not end the search.
      const bool listed = g_known.count(std::string(scenarios()[scenario].name) + " " + s->key);
      if (!listed || S->known_seen.fetch_add(1) < 16) _exit(95);  // the master picks the failure up
    }
    S->pending--;
  }
}

struct Failure {
  int scenario = 0;
  std::vector<int> choices;
  std::vector<std::pair<int, std::vector<int>>> history;  // earlier executions of the process
  std::string key, msg, note, log;
};
std::string SigName(int st) {
  if (WIFSIGNALED(st)) return std::string("killed by signal ") + strsignal(WTERMSIG(st));
  return "exit status " + std::to_string(WEXITSTATUS(st));
}
std::string Slurp(const std::string& p, size_t max = 6000) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream b;
  b << f.rdbuf();
  std::string s = b.str();
  if (s.size() > max) s = s.substr(0, max);
  return s;
}
// Runs the history and then the choices in a fresh process; true if it fails.
bool Rerun(const Failure& f, size_t skip_history, Failure* out, double timeout) {
  Slot* s = &S->slot[kWorkers - 1];
  s->busy = 0;
  s->failed = 0;
  const std::string log = g_scratch_root + "/confirm.log";
  fflush(stdout);
  pid_t p = fork();
  if (!p) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    Redirect(log);
    Limits();
    std::string scratch;
    for (size_t i = skip_history; i < f.history.size(); i++)
      Execute(s, f.history[i].first, f.history[i].second, &scratch);
    _exit(Execute(s, f.scenario, f.choices, &scratch) ? 0 : 95);
  }
  const double t0 = now();
  int st = 0;
  bool timed_out = false;
  while (waitpid(p, &st, WNOHANG) == 0) {
    if (now() - t0 > timeout) {
      timed_out = true;
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      break;
    }
    usleep(2000);
  }
  *out = f;
  out->log = Slurp(log);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  if (s->note[0]) out->note = s->note;
  if (timed_out) {
    out->key = "hang";
    out->msg = "did not finish within " + std::to_string(static_cast<int>(timeout)) + " s";
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 95) {
    out->key = s->key;
    out->msg = s->msg;
  } else if (WIFEXITED(st) && (WEXITSTATUS(st) == 96 || WEXITSTATUS(st) == 97)) {
    fprintf(stdout, "explorer error: %s\n", out->log.c_str());
    exit(3);
  } else {
    out->key = "crash";
    out->msg = SigName(st);
    const size_t e = out->log.find("ERROR: AddressSanitizer");
    const size_t u = out->log.find("runtime error:");
    size_t b = std::string::npos;
    if (e != std::string::npos) b = e; else if (u != std::string::npos) b = out->log.rfind('\n', u) == std::string::npos ? 0 : out->log.rfind('\n', u) + 1;
    if (b != std::string::npos) out->msg += ": " + out->log.substr(b, out->log.find('\n', b) - b);
    else if (!out->log.empty()) out->msg += ": " + out->log.substr(out->log.size() > 200 ? out->log.size() - 200 : 0);
    for (char& ch : out->msg) if (ch == '\n') ch = ' ';
  }
  return true;
}
std::string Esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
int ScenarioByName(const std::string& n) {
  for (size_t i = 0; i < scenarios().size(); i++) if (n == scenarios()[i].name) return i;
  return -1;
}
void WriteReplay(const std::string& path, const Failure& f, const std::string& prop, const char* self) {
  std::ofstream o(path);
  o << "# property " << prop << "\n# " << f.key << ": " << f.msg << "\n# " << f.note << "\n";
  o << "# replay: " << self << " --replay " << path << "\n";
  for (auto& h : f.history) {
    o << "history " << scenarios()[h.first].name;
    for (int c : h.second) o << ' ' << c;
    o << "\n";
  }
  o << "run " << scenarios()[f.scenario].name;
  for (int c : f.choices) o << ' ' << c;
  o << "\n";
  std::istringstream l(f.log);
  std::string line;
  while (std::getline(l, line)) o << "# | " << line << "\n";
}
}  // namespace

static std::vector<void (*)()>& preludes() {
  static std::vector<void (*)()> v;
  return v;
}
Prelude::Prelude(void (*fn)()) { preludes().push_back(fn); }
std::string InChild(const std::function<std::string()>& fn) {
  int p[2];
  if (pipe(p)) return "";
  fflush(nullptr);
  const pid_t child = fork();
  if (child == 0) {
    close(p[0]);
    const int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    std::string s;
    try { s = "=" + fn(); } catch (...) {}
    size_t at = 0;
    while (at < s.size()) {
      const ssize_t w = write(p[1], s.data() + at, s.size() - at);
      if (w <= 0) break;
      at += w;
    }
    _exit(0);
  }
  close(p[1]);
  std::string got;
  char buf[1 << 16];
  for (ssize_t r; (r = read(p[0], buf, sizeof buf)) > 0;) got.append(buf, r);
  close(p[0]);
  int st;
  waitpid(child, &st, 0);
  return got.empty() ? got : got.substr(1);
}

static int Main(int argc, char** argv) {
  std::string property = "C00", json, replay, replay_dir = ".", only, known;
  double budget = 400;
  int jobs = static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN));
  for (int i = 1; i < argc; i++) {
    const std::string a = argv[i];
    auto next = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--property") property = next();
    else if (a == "--tier") g_thorough = next() == "thorough";
    else if (a == "--json") json = next();
    else if (a == "--replay") replay = next();
    else if (a == "--replay-dir") replay_dir = next();
    else if (a == "--scenario") only = next();
    else if (a == "--known") known = next();
    else if (a == "--budget") budget = atof(next().c_str());
    else if (a == "--jobs") jobs = atoi(next().c_str());
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
  }
  if (const char* j = getenv("VERIF_JOBS")) jobs = atoi(j);
  jobs = std::max(1, std::min(jobs, kWorkers - 2));
  if (scenarios().size() > 64) return 3;
  S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (S == MAP_FAILED) return 3;
  pthread_mutexattr_t at;
  pthread_mutexattr_init(&at);
  pthread_mutexattr_setpshared(&at, PTHREAD_PROCESS_SHARED);
  pthread_mutexattr_setrobust(&at, PTHREAD_MUTEX_ROBUST);
  pthread_mutex_init(&S->mu, &at);
  char tmpl[] = "/tmp/verif_mc_XXXXXX";
  g_scratch_root = mkdtemp(tmpl);
  struct Cleaner { ~Cleaner() { std::error_code ec; std::filesystem::remove_all(g_scratch_root, ec); } } cleaner;

  for (auto f : preludes()) f();
  if (!replay.empty()) {
    std::ifstream in(replay);
    std::string line;
    Failure f;
    bool have = false;
    while (std::getline(in, line)) {
      std::istringstream l(line);
      std::string kind, name;
      l >> kind >> name;
      if (kind != "run" && kind != "history") continue;
      const int sc = ScenarioByName(name);
      if (sc < 0) { printf("no scenario %s\n", name.c_str()); return 3; }
      std::vector<int> c;
      int v;
      while (l >> v) c.push_back(v);
      if (kind == "run") { f.scenario = sc; f.choices = c; have = true; }
      else f.history.push_back({sc, c});
    }
    if (!have) { printf("not a replay file: %s\n", replay.c_str()); return 3; }
    Failure out;
    const bool bad = Rerun(f, 0, &out, 600);
    printf("%s\n", out.log.c_str());
    if (bad) printf("VIOLATION property=%s replay=%s\n  %s: %s\n  %s\n", property.c_str(), replay.c_str(), out.key.c_str(), out.msg.c_str(), out.note.c_str());
    else printf("no violation\n");
    return bad ? 1 : 0;
  }

  auto& known_keys = g_known;
  {
    std::ifstream k(known);
    std::string line;
    while (std::getline(k, line)) {
      std::istringstream l(line);
      std::string tag, p, sc, key, rest;
      l >> tag >> p >> sc >> key;
      std::getline(l, rest);
      if (tag == "KNOWN" && p == "property=" + property) known_keys[sc + " " + key] = rest;
    }
  }
  // Stdout stays ours; the code under test writes to the log file only.
  const double t0 = now();
  for (int i = static_cast<int>(scenarios().size()) - 1; i >= 0; i--) {
    if (!only.empty() && only != scenarios()[i].name) continue;
    Item& it = S->q[S->top++];
    it.scenario = i;
    it.len = 0;
    it.hi = -1;
    S->pending++;
  }
  fflush(stdout);
  std::vector<pid_t> pid(jobs, 0);
  std::vector<bool> done(jobs, false);
  auto spawn = [&](int w) {
    S->slot[w].busy = 0;
    S->slot[w].failed = 0;
    pid_t p = fork();
    if (!p) Worker(w);
    pid[w] = p;
  };
  for (int w = 0; w < jobs; w++) spawn(w);
  std::vector<Failure> cand;
  int deaths = 0;
  std::set<std::string> cand_keys;
  bool infra = false;
  std::string infra_msg;
  auto take = [&](int w, const std::string& key, const std::string& msg) {
    Slot& s = S->slot[w];
    Failure f;
    f.scenario = s.scenario;
    f.choices.assign(s.c, s.c + s.n.load());
    f.key = key;
    f.msg = msg;
    f.note = s.note;
    FILE* h = fopen((g_scratch_root + "/hist" + std::to_string(w)).c_str(), "rb");
    if (h) {
      int32_t hd[2];
      while (fread(hd, 4, 2, h) == 2) {
        std::vector<int> c(hd[1]);
        if (hd[1] && fread(c.data(), 4, hd[1], h) != static_cast<size_t>(hd[1])) break;
        f.history.push_back({hd[0], c});
      }
      fclose(h);
      if (!f.history.empty()) f.history.pop_back();
    }
    cand.push_back(f);
    cand_keys.insert(std::string(scenarios()[f.scenario].name) + " " + key);
  };
  bool budget_hit = false;
  for (;;) {
    bool alive = false;
    for (int w = 0; w < jobs; w++) {
      if (done[w]) continue;
      int st = 0;
      const pid_t r = waitpid(pid[w], &st, WNOHANG);
      Slot& s = S->slot[w];
      if (r == 0) {
        alive = true;
        if (s.busy && now() - s.start > scenarios()[s.scenario].timeout_s) kill(pid[w], SIGKILL), s.failed = 2;
        continue;
      }
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { done[w] = true; continue; }
      if (WIFEXITED(st) && (WEXITSTATUS(st) == 96 || WEXITSTATUS(st) == 97)) {
        infra = true;
        infra_msg = "explorer error (divergence) in scenario " + std::string(scenarios()[s.scenario].name);
        S->stop = 1;
        done[w] = true;
        continue;
      }
      deaths++;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 95) {
        take(w, s.key, s.msg);
      } else if (s.busy) {
        const bool hang = s.failed == 2;
        take(w, hang ? "hang" : "crash", hang ? "time limit" : SigName(st));
        S->execs++;
        PushSiblings(s, s.prefix_len);
      } else {
        infra = true;
        infra_msg = "a worker died outside an execution: " + SigName(st);
        S->stop = 1;
      }
      S->pending--;
      bool unlisted = false;
      for (auto& k : cand_keys) if (!known_keys.count(k)) unlisted = true;
      if (deaths >= 400 || (unlisted && deaths >= 6)) S->stop = 1;
      if (S->stop) { done[w] = true; continue; }
      spawn(w);
      alive = true;
    }
    if (!alive) break;
    if (now() - t0 > budget) { budget_hit = true; S->stop = 1; }
    usleep(1000);
  }
  const bool finished = S->pending == 0 && !S->overflow && !S->stop;

  // Replay before report.
  std::vector<Failure> confirmed;
  std::vector<Failure> unsure;
  std::map<std::string, Failure> known_hit;
  std::set<std::string> seen;
  int unreproduced = 0, tried = 0;
  std::stable_sort(cand.begin(), cand.end(), [](const Failure& a, const Failure& b) {
    return a.choices.size() < b.choices.size();
  });
  for (auto& f : cand) {
    const std::string id = std::string(scenarios()[f.scenario].name) + " " + f.key;
    if (seen.count(id) || tried > 20) continue;
    tried++;
    Failure alone = f, out;
    alone.history.clear();
    const double to = scenarios()[f.scenario].timeout_s * 4;
    bool bad = false;
    for (int k = 0; k < 3 && !bad; k++) bad = Rerun(alone, 0, &out, to);
    if (!bad && !f.history.empty()) {
      // The failure needs what the process ran before: shared state.
      bad = Rerun(f, 0, &out, 300);
      if (bad) {  // keep the shortest suffix that still fails
        size_t lo = 0, hi = f.history.size();
        double t = now();
        while (lo + 1 < hi && now() - t < 60) {
          const size_t mid = (lo + hi) / 2;
          Failure o2;
          if (Rerun(f, mid, &o2, 120)) lo = mid; else hi = mid;
        }
        f.history.erase(f.history.begin(), f.history.begin() + lo);
        Failure o2;
        if (Rerun(f, 0, &o2, 120)) out = o2;
        out.msg += " (only after earlier executions in the same process)";
      }
    }
    if (!bad) { if (f.key != "hang" && f.msg.find("Killed") == std::string::npos && !known_keys.count(id)) unreproduced++, unsure.push_back(f); printf("note: not reproduced: %s: %s [%s]\n", id.c_str(), f.msg.c_str(), f.note.c_str()); continue; }
    seen.insert(id);
    const std::string id2 = std::string(scenarios()[out.scenario].name) + " " + out.key;
    seen.insert(id2);
    if (known_keys.count(id2)) known_hit[id2] = out;
    else confirmed.push_back(out);
  }
  for (auto& k : known_hit)
    printf("KNOWN-FINDING: property=%s %s %s\n", property.c_str(), k.first.c_str(), known_keys[k.first].c_str());
  // Failures that come and go: the executions are the same, so what they depend on is
  // none of their business (stale or uninitialised memory, addresses).
  if (confirmed.empty() && unreproduced > 1) {
    Failure f = unsure.front();
    f.msg += " (seen in " + std::to_string(unreproduced) + " executions, not every time they are repeated)";
    confirmed.push_back(f);
  }
  int nv = 0;
  for (auto& f : confirmed) {
    std::error_code ec;
    std::filesystem::create_directories(replay_dir, ec);
    const std::string path = replay_dir + "/" + property + "-" + scenarios()[f.scenario].name + "-" + std::to_string(nv++) + ".replay";
    WriteReplay(path, f, property, argv[0]);
    printf("VIOLATION property=%s replay=%s\n  scenario %s: %s: %s\n  %s\n", property.c_str(), path.c_str(),
           scenarios()[f.scenario].name, f.key.c_str(), f.msg.c_str(), f.note.c_str());
  }
  if (confirmed.empty() && unreproduced) { infra = true; infra_msg = "a failure did not reproduce"; }
  if (S->overflow) { infra = true; infra_msg = "explorer queue overflow"; }
  if (!json.empty()) {
    std::ofstream o(json);
    o << "{\"executions\": " << S->execs << ", \"skipped\": " << S->skipped << ", \"inner\": " << S->inner
      << ", \"nodes\": " << S->nodes << ", \"edges\": " << S->edges << ", \"trivial\": " << S->trivial
      << ", \"outcomes\": " << S->outcomes << ", \"max_depth\": " << S->depth_max
      << ", \"finished\": " << (finished ? "true" : "false")
      << ", \"budget_hit\": " << (budget_hit ? "true" : "false") << ", \"violations\": " << confirmed.size()
      << ", \"known\": " << known_hit.size() << ", \"wall_s\": " << now() - t0 << ", \"scenarios\": {";
    for (size_t i = 0; i < scenarios().size(); i++)
      o << (i ? ", " : "") << '"' << scenarios()[i].name << "\": " << S->per_scenario[i];
    o << "}, \"samples\": [";
    const int ns = std::min(64, S->nsamples.load());
    for (int i = 0; i < ns; i++) o << (i ? ", " : "") << '"' << Esc(S->sample[i]) << '"';
    o << "]}\n";
  }
  printf("%s: %llu executions (%llu inner cases, %llu skipped), %llu nodes, %llu distinct outcomes, %s, %.1f s\n",
         argv[0], (unsigned long long)S->execs, (unsigned long long)S->inner, (unsigned long long)S->skipped,
         (unsigned long long)S->nodes, (unsigned long long)S->outcomes,
         finished ? "complete" : budget_hit ? "time cap hit" : "stopped", now() - t0);
  for (size_t i = 0; i < scenarios().size(); i++)
    if (only.empty()) printf("  %-28s %llu\n", scenarios()[i].name, (unsigned long long)S->per_scenario[i]);
  if (!confirmed.empty()) return 1;
  if (infra) { printf("error: %s\n", infra_msg.c_str()); return 3; }
  return 0;
}
}  // namespace mc

int main(int argc, char** argv) {
  // Fresh memory holds garbage and freed memory is spoilt at once, here and in the
  // programs started from here: nothing may depend on what either of them holds.
  if (!getenv("GLIBC_TUNABLES")) {
    setenv("GLIBC_TUNABLES", "glibc.malloc.perturb=190:glibc.malloc.tcache_count=0", 1);
    execv("/proc/self/exe", argv);
  }
  return mc::Main(argc, argv);
}
