// Controlled scheduler: one thread of the program runs at a time; every access to memory used by more than one
// thread and every synchronisation operation is a point where the scheduler may switch threads.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
struct SchedEvent { int tid; const char* ev; const void* obj; long a, b, c; };
extern "C" {
// policy: 0 random (parameter = inverse switch probability), 1 priorities with `param` change points, 2 run to block, 3 priorities redrawn at accesses to a `param`-th of the shared addresses
void sched_begin(uint64_t seed, int policy, int param);
void sched_end();
void sched_pause(int d);                   // +1/-1: harness bookkeeping, not part of the program under test
int sched_tid();
int sched_active();
void sched_log(const char* ev, const void* obj, long a, long b, long c);
long sched_steps();
long sched_switches();
void sched_point();                       // explicit visible step
const char* sched_uaf();                  // description of the first access to freed memory, or NULL
uint64_t sched_hash();                    // hash of the schedule
}
std::vector<SchedEvent>& sched_trace();
struct Quietly { Quietly() { sched_pause(1); } ~Quietly() { sched_pause(-1); } };
