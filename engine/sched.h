// Controlled scheduler: the threads of a concurrent run are coroutines of one OS thread; control moves only at
// synchronisation operations and system calls of the code under test, and every move is a branch of the search.
// Plain memory accesses are reported by the compiler's instrumentation (-fsanitize=thread with the runtime in sched.cc)
// and checked for data races with vector clocks, which is what makes switching only at those points sufficient.
#pragma once
#include "mc.h"
#include <functional>
#include <set>
#include <string>
#include <vector>

namespace sched {
constexpr int MAXT = 6;
struct VC { u32 c[MAXT] = {0}; void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

extern int preemptions;               // switches away from a thread that could go on, still allowed
extern bool atomic_points, all_syscalls;
extern std::vector<u8> thread_tls;    // TLS image new threads start with
extern int n_threads, cur;            // cur: -1 outside the threads
extern u64 n_points, n_switches;
extern std::string race_prop;
extern std::function<int(int)> chooser;          // who decides (default: the search)
// locks that two threads take; acquiring any other lock commutes with everything other threads do
extern bool lock_filter; extern std::set<u64> hot_locks, shared_locks; extern u64 late_locks;

// run the bodies under every schedule (choices through mc::choose); returns when all finished.  Must be called inside env::run_.
void run(const std::vector<std::function<void()>> &bodies);
void op_point();                      // start of an operation of the current thread
void wait_until(const std::function<bool()> &pred);
bool others_stuck(int me);                                   // no other thread can go on
void solo(bool on);                   // only the current thread runs (child of a fork)
bool in_solo();
void release(VC &v); void acquire(const VC &v);   // synchronisation made by the program itself
void user_access(u64 a, u64 n, bool write);
void as_thread(int t, const std::function<void()> &f);   // after run(): run f with the thread-local data of thread t
std::string where();                  // what every thread is doing
extern std::vector<std::string> doing;
void deadlock_is(const char *prop);
void abandon();                       // after an escape from a thread (fatal error, fault)
} // namespace sched
