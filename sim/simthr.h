// Extra API of the threaded flavour.
#pragma once
#include "sim.h"
namespace sim {
int  thread_id();
void yield_point();        // an explicit schedule point in a workload
void sleep_ms(u64 ms);     // virtual sleep of the calling thread
void report_races(bool on);
void allow_thread_leak(bool on);
int  live_threads();       // simulated threads that have not ended (main excluded)
void flush_stats();
}  // namespace sim
