// Exploration driver shared by every harness.
//
// A harness enumerates its whole bounded space deterministically. For every
// element it builds a case (a printable string naming it exactly), asks
// `Mine()` whether this worker owns it, and runs it. The driver
//  * shards the space over worker processes,
//  * turns a crash, sanitizer report, CHECK failure or hang inside a case into a
//    violation of that case,
//  * replays a violating case alone, in a fresh process, before it is reported,
//  * matches violations against /verif/known_findings.txt,
//  * writes evidence/<id>.json from what the workers measured.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

struct Ctx {
  bool thorough = false;
  // --- enumeration ---
  // Declares the next case. Returns true if this worker runs it. `name` must be
  // unique within the harness and contain everything needed to replay it.
  bool Mine(const std::string& name);
  // Cheap pre-check usable before building the name: true if the next case
  // belongs to this worker. Every call must be paired with exactly one case:
  // call `Skip()` if it returns false, else `Mine(name)`.
  bool NextIsMine();
  void Skip() { ++index; }
  // --- measurement ---
  void State(uint64_t hash);          // distinct model/impl state visited
  void Transitions(uint64_t n) { transitions += n; }
  void Validated(uint64_t n = 1) { validated += n; }
  void Outcome(uint64_t hash);        // distinct observable outcome
  void Count(const std::string& what, uint64_t n = 1) { counts[what] += n; }
  void Sample(const std::string& s);  // keeps the first few
  // --- verdict --- `key` identifies the failure class for known findings.
  void Fail(const std::string& key, const std::string& detail);
  bool failed_in_case = false;

  // internals
  uint64_t index = 0;
  int worker = 0, workers = 1;
  std::string replay;  // non-empty: run only this case
  std::string cur;
  uint64_t cases = 0, transitions = 0, validated = 0;
  std::unordered_set<uint64_t> states, outcomes;
  std::map<std::string, uint64_t> counts;
  std::vector<std::string> samples;
  struct Failure { std::string key, name, detail; };
  std::vector<Failure> failures;
  std::map<std::string, int> fail_keys;
  bool stop = false;
  int64_t started_ms = 0;
};

struct Spec {
  std::string id;           // property id
  std::string level = "model_checking";
  std::string rule;         // how cases are made, bounds
  std::vector<std::string> assumptions;
  double case_timeout_s = 60;
  bool exhaustive = true;
  // Minimum numbers below which the run is vacuous (=> error exit).
  uint64_t min_cases = 1;
  uint64_t min_outcomes = 2;
};

int Run(int argc, char** argv, const Spec& spec,
        const std::function<void(Ctx&)>& body);

inline uint64_t Fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* b = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t Fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { return Fnv(s.data(), s.size(), h); }
std::string Hex(const void* p, size_t n, size_t max = 4096);
inline std::string Hex(const std::vector<uint8_t>& v, size_t max = 4096) { return Hex(v.data(), v.size(), max); }
std::string ScratchDir();  // private to the worker, removed by the driver
// Re-runs a closure in a forked child; returns false if it crashed.
}  // namespace vh
