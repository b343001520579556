// A controlled scheduler for real threads of the code under test, with a
// happens-before race detector.
//
// The code under test is compiled with -fsanitize=thread but linked with this
// runtime instead of ThreadSanitizer's.  One thread runs at a time.  Before
// every synchronisation operation that another thread can see (mutexes, static
// initialisation guards, call_once, atomics, the non-reentrant libsvm loader)
// the explorer chooses who runs next; all choices with at most the given
// number of preemptions are explored.  Every memory access is checked against
// vector clocks that know only the program's own synchronisation (switching
// threads orders nothing), so a data race shows in any schedule that has both
// accesses, however far apart they ran.
#ifndef VERIF_MC_SCHED_H_
#define VERIF_MC_SCHED_H_
#include <functional>
#include <string>
#include <vector>

#include "mc/explorer.h"

namespace mc {
struct SchedStats {
  int points = 0, switches = 0, preemptions = 0;
  unsigned long accesses = 0;
};
// Runs the bodies as threads under the scheduler; reports races, deadlocks and
// uncaught exceptions as violations.
SchedStats RunThreads(Ctx& c, const std::vector<std::function<void()>>& bodies, int preemptions);
// A scheduling point placed by the harness.
void SchedPoint();
// Enters/leaves a section that is not reentrant (of a library without
// instrumentation); overlapping is a violation.
void EnterExclusive(int section, const char* name);
void LeaveExclusive(int section);
}  // namespace mc
#endif
