#pragma once
#include "../engine/mc.h"
#include <functional>
#include <map>
#include <string>
#include <vector>
struct Args {
    std::multimap<std::string, std::string> kv;
    std::vector<std::string> list(const char *k) const; std::vector<u64> nums(const char *k) const;
    std::string str(const char *k, const char *d = "") const; long num(const char *k, long d) const; bool has(const char *k) const;
};
extern Args args;
std::string json_str(const std::string &s);
void emit(const mc::Stats &s, const std::string &extra = "");
void emit_loop(const mc::LoopResult &r, const std::string &extra = "", u64 states = 0);
mc::LoopResult run_loop(u64 n, u64 chunk, const std::function<void(u64)> &body, double wall);
void run_world(mc::World &w, const mc::Limits &l);
mc::Limits limits();
namespace seq { struct Seq; }
void setup_seq(seq::Seq &w);
struct Driver { const char *name; int (*fn)(); };
extern Driver driver_list[];
