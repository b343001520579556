// Interface between the runtime (sched_rt.cc, compiled without
// instrumentation and without the standard library) and sched.cc.
#ifndef VERIF_MC_SCHED_RT_H_
#define VERIF_MC_SCHED_RT_H_
extern "C" {
enum { kMaxThreads = 6 };
// Chooses one of n; provided by sched.cc.
int mc_rt_choose(int n);
void mc_rt_begin(int threads, int preemptions);
// Called by each thread around its body.
void mc_rt_thread_start(int tid);
void mc_rt_thread_end(int tid);
void mc_rt_fail(const char* key, const char* msg);  // first one wins
// Called by the main thread: lets the first thread run; returns when all ended
// or a deadlock was found.
void mc_rt_run();
struct McRtReport {
  int failed, deadlock, points, switches, preemptions;
  unsigned long accesses;
  char key[64];
  char msg[900];
};
const McRtReport* mc_rt_report();
void mc_rt_point();
void mc_rt_enter(int section, const char* name);
void mc_rt_leave(int section);
}
#endif
