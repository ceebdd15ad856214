// Controlled OpenMP runtime: the library objects' GOMP_*/omp_* calls and (gcc -fsanitize=thread)
// memory accesses are bound to this runtime by objcopy --redefine-sym. Threads of a team are fibers
// of one OS thread; the scheduler decides at every visible operation which fiber continues.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
namespace sched {
enum Mode { SERIAL, ASC, DESC, EXPLORE, RR };
struct Config {
  Mode mode = SERIAL;
  int max_threads = 1;     // what omp_get_max_threads() says
  int limit = 1;           // most threads the runtime provides
  int preemptions = 0;     // EXPLORE: bound on deviations from the default schedule (run on; lowest next)
  std::function<int(int)> choose;   // EXPLORE
};
struct Stats { long regions = 0, threads = 0, accesses = 0, conflicts = 0, sync_ops = 0, conflict_accesses = 0, hot_sync = 0, switches = 0, points = 0; bool deadlock = false; std::string what; };
void start(const Config&);       // begin one run; ASC forgets and records conflicts, EXPLORE/RR use them
Stats stop();
bool conflicts_found();
std::string schedule();          // the schedule of the last run, short text
std::string conflict_text();
}
