// Common frame of all checks: one plan is one exactly repeatable simulated execution.
#pragma once
#include "matrix.h"
#include "simos.h"
#include <unordered_set>

struct Outcome
{
  std::string cls, detail;            // cls empty: the property held
  uint64_t trace = 0;
  std::vector<std::string> log;
  bool bad() const { return !cls.empty(); }
};
struct Stats
{
  int64_t plans = 0, runs = 0, simNs = 0, steps = 0;
  std::map<std::string, int64_t> fired, outcomes, probes;
  std::unordered_set<uint64_t> traces, nontrivial;
  std::vector<Json> samples;
  Json json() const;
};
struct Check
{
  virtual ~Check() {}
  // generate the plans that belong to case `index` and hand each to visit(plan); stop when it returns false
  virtual void cases(uint64_t seed, uint64_t index, const std::string& prop, bool thorough, Stats& st, const std::function<bool(const Json&, const Outcome&)>& visit) = 0;
  virtual Outcome execute(const Json& plan, Stats& st, bool log) = 0;
  virtual std::vector<Json> shrinks(const Json& plan) = 0;
};
Check* genCheck();
Check* busCheck();
// ddmin helpers over an array member: plans with chunks of the array removed
std::vector<Json> dropChunks(const Json& plan, const std::vector<std::string>& path);
Json* walk(Json& j, const std::vector<std::string>& path);
extern std::string g_scratch;          // private scratch directory of this worker
void addSample(Stats& st, const Json& plan);
