// Executes plans in forked children and decides whether a property was violated.
#pragma once
#include "world.hpp"

#include <functional>

struct Out {
  int status = 0, sig = 0, exitCode = 0;
  bool timeout = false;
  std::string vkind, msg, hist, carry;
  uint64_t trace = 0, inter = 0, steps = 0, ssteps = 0, switches = 0, syncs = 0, maxThreads = 0;
  int64_t simNs = 0;
  uint64_t fired[rt::NKIND] = {0}, seen[rt::NKIND] = {0};
  uint64_t oracle = 0, calls = 0, fails = 0;
  uint64_t tags[16] = {0};
  std::vector<rt::Dec> dec;
  bool decOverflow = false;
  int curOp = -1, opIndex = 0;
};

struct Counts { uint32_t c[rt::MAXOPS][rt::NKIND]; };

// totals over everything one verdict needed
struct Stats {
  uint64_t children = 0, verdicts = 0, steps = 0, switches = 0, syncs = 0, oracle = 0, calls = 0, fails = 0, crashes = 0, withFault = 0, withSwitch = 0;
  int64_t simNs = 0;
  uint64_t maxThreads = 0, maxSteps = 0;
  uint64_t fired[rt::NKIND] = {0}, seen[rt::NKIND] = {0};
  void add(const Out& o);
};

struct Verdict {
  bool bad = false, error = false;
  std::string kind, msg;
  uint64_t trace = 0;         // over all children
  uint64_t inter = 0;
  uint64_t fired = 0, switches = 0, oracle = 0, calls = 0;
  int incarnations = 0;
  std::vector<rt::Dec> dec;   // of the first child, when there was only one incarnation
  bool decValid = false;
};

struct FaultSpec {
  std::vector<int> kinds;            // weights by repetition
  std::vector<std::string> verbs;    // operations that may be hit, empty: all
  double none = 0.2;                 // share of runs without faults
  int max = 2;
  bool benign = false;               // only faults that must not be noticeable (short, interrupted)
};

struct Profile {
  std::string id;
  std::string kind = "main";         // main, cli, par
  Oracles o;
  bool twin = false, isolate = false, races = false, concurrent = false;
  FaultSpec fs;
  std::function<void(rt::Rng&, Plan&)> gen;
  int quickRuns = 1000, thoroughRuns = 20000;
  std::string note;                  // one line for the evidence file
};
const Profile* findProfile(const std::string& id);
std::vector<std::string> profileIds();

void makeShared();                                        // once per worker process
Out runChild(const Plan& p, const Mode& m, Counts* c = nullptr, std::string* outcome = nullptr);
Verdict evaluate(const Profile& pf, const Plan& p, Stats* st);
// complete plan number `index` of a seed: generate, observe fault sites, place faults, draw a schedule
bool makePlan(const Profile& pf, uint64_t seed, uint64_t index, Plan& p, Stats* st);
