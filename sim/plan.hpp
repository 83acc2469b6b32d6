// A plan is one complete, repeatable simulated execution: files, operations, faults, schedule, clock.
#pragma once
#include "rt.hpp"

#include <map>
#include <string>
#include <vector>

struct Op {
  int id = 0;                       // stable under minimisation; faults refer to it
  std::vector<std::string> a;       // verb and arguments
  const std::string& verb() const { return a[0]; }
  int i(size_t k) const { return atoi(a[k].c_str()); }
  double d(size_t k) const { return strtod(a[k].c_str(), nullptr); }
};

struct Plan {
  std::string prop;
  std::string profile;              // sub-profile name (swarm variant), informative
  uint64_t seed = 0;
  std::vector<std::pair<std::string, std::string>> files;
  std::vector<Op> ops;
  std::vector<rt::Fault> faults;
  rt::SchedCfg sched;
  std::vector<rt::Dec> dec;
  rt::ClockCfg clock;
  int nprocs = 4;
  int repeat = 1;
  int fill = 0xA5;
  int quarantine = 512;
  std::map<std::string, std::string> opt;

  int nextId() const { int m = -1; for (auto& o : ops) if (o.id > m) m = o.id; return m + 1; }
  Op& add(std::initializer_list<std::string> l) { Op o; o.id = nextId(); o.a = l; ops.push_back(o); return ops.back(); }
  std::string text() const;
  static bool parse(const std::string& text, Plan& p, std::string& err);
};

std::string esc(const std::string& s);
std::string unesc(const std::string& s);
std::string num(double v);          // %.17g
std::string opText(const Op& o);
