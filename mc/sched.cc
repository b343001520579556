#include "mc/sched.h"

#include <pthread.h>

#include <exception>

#include "mc/sched_rt.h"

namespace {
mc::Ctx* g_ctx;
const std::vector<std::function<void()>>* g_bodies;
void* Main(void* p) {
  const int tid = static_cast<int>(reinterpret_cast<long>(p));
  mc_rt_thread_start(tid);
  try {
    (*g_bodies)[tid]();
  } catch (const mc::Violation& v) {
    mc_rt_fail(v.key.c_str(), v.msg.c_str());
  } catch (const std::exception& e) {
    mc_rt_fail("uncaught-exception", e.what());
  } catch (...) {
    mc_rt_fail("uncaught-exception", "uncaught exception");
  }
  mc_rt_thread_end(tid);
  return nullptr;
}
}  // namespace

extern "C" int mc_rt_choose(int n) { return g_ctx->choose("sched", n); }

namespace mc {
SchedStats RunThreads(Ctx& c, const std::vector<std::function<void()>>& bodies, int preemptions) {
  g_ctx = &c;
  g_bodies = &bodies;
  const int n = bodies.size();
  mc_rt_begin(n, preemptions);
  std::vector<pthread_t> t(n);
  for (int i = 0; i < n; i++) {
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 64 << 20);
    pthread_create(&t[i], &a, Main, reinterpret_cast<void*>(static_cast<long>(i)));
    pthread_attr_destroy(&a);
  }
  mc_rt_run();
  const McRtReport* r = mc_rt_report();
  if (!r->deadlock)
    for (auto& x : t) pthread_join(x, nullptr);
  if (r->failed) throw Violation{r->key, r->msg};
  SchedStats s;
  s.points = r->points;
  s.switches = r->switches;
  s.preemptions = r->preemptions;
  s.accesses = r->accesses;
  return s;
}
void SchedPoint() { mc_rt_point(); }
void EnterExclusive(int section, const char* name) { mc_rt_enter(section, name); }
void LeaveExclusive(int section) { mc_rt_leave(section); }
}  // namespace mc
