// Helpers shared by the harnesses: history recording, linearizability checking, thread spawning.
#pragma once
#include "sim.h"
#include <cstdio>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <unordered_set>
#include <utility>
#include <vector>

namespace hl {

// Operations of one history. inv / ret are global event sequence numbers; ret == 0 means still pending.
struct Op {
  int thread = 0, kind = 0;
  long arg = 0, res = 0;
  bool ok = false;
  uint64_t inv = 0, ret = 0;
};

// Wing & Gong / Lowe search with memoisation. Model: struct with copyable State, apply(State &, const Op &) -> bool,
// hash(const State &) -> uint64_t. Pending operations are left out by the caller. Returns true when a linearization exists.
template <typename Model> class Checker {
  std::vector<Op> ops;
  std::unordered_set<uint64_t> seen;
  uint64_t budget = 400000;
  public: bool exhausted = false;
  public: explicit Checker(std::vector<Op> o) : ops(std::move(o)) {}
  public: bool run(const typename Model::State & init, typename Model::State * finalState = nullptr) {
    if (ops.size() > 62) { exhausted = true; return true; }
    typename Model::State s = init;
    return go(0, s, finalState);
  }
  private: bool go(uint64_t mask, typename Model::State & s, typename Model::State * fin) {
    size_t n = ops.size();
    if (mask == (n == 0 ? 0 : (~0ull >> (64 - n)))) { if (fin) *fin = s; return true; }
    if (budget-- == 0) { exhausted = true; return true; }
    uint64_t h = (mask * 0x9E3779B97F4A7C15ull) ^ Model::hash(s);
    h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ull;
    if (!seen.insert(h).second) return false;
    uint64_t minRet = ~0ull;
    for (size_t i = 0; i < n; ++i) if (!(mask >> i & 1) && ops[i].ret < minRet) minRet = ops[i].ret;
    for (size_t i = 0; i < n; ++i) {
      if (mask >> i & 1 || ops[i].inv > minRet) continue;
      typename Model::State t = s;
      if (Model::apply(t, ops[i]) && go(mask | 1ull << i, t, fin)) return true;
      if (exhausted) return true;
    }
    return false;
  }
};

// Runs the bodies as simulated threads and joins them all.
inline void runThreads(std::vector<std::function<void ()>> bodies) {
  std::vector<std::thread> t;
  for (auto & b : bodies) t.emplace_back([&b] { b(); });
  for (auto & x : t) x.join();
}

#define HL_TRY(body, msg_) \
  try { body; } \
  catch (const std::exception & e_) { ::sim::fail("unexpected-exception", "%s threw: %.300s", msg_, e_.what()); } \
  catch (...) { ::sim::fail("unexpected-exception", "%s threw", msg_); }

} // namespace hl
