// Bounded exhaustive explorer over the real allocator.
#pragma once
#include "env.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace mc {

struct Violation { std::string clause, msg; };
struct Prune {};                      // legal end of this branch

extern std::string prop;              // property under check
extern bool thorough;
extern u64 seed;

// nondeterministic choice inside an operation: returns 0..n-1, every value is explored
int choose(int n);

// Report a broken clause of property p.  Ignored unless p is the property under check or "*" (a failure nothing can
// excuse: crash, spurious abort, hang inside a legitimate call).
void fail(const char *p, const char *clause, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
void set_also(const std::vector<std::string> &families);   // clause families evaluated besides prop's ("all": every one)
bool want(const char *p);             // is clause family p evaluated in this run?

struct Op { u32 k = 0; u32 a = 0; u64 x = 0, y = 0; };
typedef std::vector<std::pair<int, int>> Script;  // (value, arity)
struct Step { Op op; Script s; };

struct World {
    virtual ~World() {}
    virtual void init() = 0;                       // build the base state (in the master), before fork
    virtual void ops(std::vector<Op> &out) = 0;    // operations enabled in the current state
    virtual void run(const Op &op) = 0;            // perform with all step checks
    virtual void probe() {}                        // extra experiments in a new state; must restore()
    virtual u64 hash() = 0;                        // model part of the state
    virtual std::shared_ptr<void> save() = 0;
    virtual void load(const std::shared_ptr<void> &) = 0;
    virtual std::string show(const Op &op) = 0;    // printed in traces, after the operation ran
    virtual std::string params() { return ""; }
};

struct Limits { int max_depth = 4; double wall = 60; u64 max_states = ~0ull; int workers = 8; int start_depth = 0; };
struct Stats {
    u64 states = 0, transitions = 0, execs = 0, probes = 0, oracle = 0; int depth = 0; bool complete = true; double wall = 0;
    std::vector<std::string> samples; std::map<std::string, u64> cov;
    bool violated = false; std::string clause, msg, trace;
    std::vector<Step> path;
    bool other_fail = false;
};

// explicit-state search; base state is env::base()/model after init()
Stats explore(World &w, const Limits &l);
// replay one path from the base state; returns the clause violated ("" if none)
std::string replay(World &w, const std::vector<Step> &path, std::string *msg, std::vector<std::string> *log);

// run one script-driven body exhaustively without states: body is re-run from the base state for every choice sequence
Stats enumerate(World &w, const std::vector<Op> &roots, const Limits &l);

void count(const char *what, u64 n = 1);   // coverage counters, summed over workers
void note_probe(u64 n = 1);
void note_oracle(u64 n = 1);
std::string encode(const std::vector<Step> &);
std::vector<Step> decode(const std::string &);
double now();
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
extern std::string last_show;

// parallel loop over [0,n): each index runs in a worker; body throws Violation.  Returns stats with violation's index.
struct LoopResult { bool violated = false; std::string clause, msg; u64 index = 0; u64 done = 0; bool complete = true;
                    std::map<std::string, u64> cov; u64 probes = 0, oracle = 0; };
LoopResult parallel_for(u64 n, u64 chunk, const std::function<void(u64)> &body, double wall, int workers = 8);
} // namespace mc
