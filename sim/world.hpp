// The simulated world of one process incarnation: sessions, reference model, oracles.
#pragma once
#include "plan.hpp"

#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace genex { class GenexAPI; struct candidate_time_series_t; }

// what a check looks at; each property switches on its own oracles only
struct Oracles {
  bool groupRef = false;      // groups equal those of a single-threaded reference grouping
  bool partition = false;     // groups are a partition within the bound
  bool threads = false;       // no worker left behind by any operation
  bool snapOnFail = false;    // a failed operation leaves the observable state as it was
  bool books = false;         // session listing and values equal the model after every operation
  bool refuse = false;        // invalid requests are refused
  bool retry = false;         // after a failed operation the same operation succeeds once faults stop
  bool loadExact = false;     // a successful dataset load equals the file
  bool groupFile = false;     // loaded groups equal what was saved
  bool saveComplete = false;  // files of successful saves are complete
  bool dataRound = false;     // saved datasets load back
  bool genuine = false;       // query answers are genuine
  bool resources = false;     // repetition does not accumulate memory, files, threads
  bool growth = false;        // a repeated query does not need more work or memory each time
  bool recordFiles = false;   // hand the content of loaded files to the parent
  bool restoredQueries = false; // queries answer the same before saving and after loading groups
  std::set<std::string> mustOk;   // verbs that must succeed when valid and no fatal fault is planned
};

struct Mode {
  Oracles o;
  std::string kind = "main";  // main, alone, cli
  int incarnation = 0;
  size_t firstOp = 0;         // index into plan.ops
  std::string carry;          // knowledge handed over from earlier incarnations
};

struct MGroup { std::string rep; std::vector<std::pair<int, int>> members; };
struct GDump {
  std::string head, dist;
  double thr = 0;
  int minLen = 0, maxLen = 0, count = 0;
  std::map<int, std::vector<MGroup>> byLen;
  std::string canon() const;
};

struct MData {
  std::vector<std::vector<double>> v;
  std::vector<std::string> names;    // empty: unnamed
  int maxLen = 0;
  bool norm = false;
  bool grouped = false;
  std::string dist;
  double thr = 0;
  bool whole = false;
  bool paa = false;
  int block = 0;
  bool foreign = false;              // groups were saved for other values
};

struct Cand { std::string dims, values, groups; };      // one state that was saved to a path
struct Saved { std::vector<Cand> cand; bool clean = false; };   // clean: the file holds the last of them

struct Res {
  bool ok = false;
  std::string err, text;
  int count = -1;
};

// runs in the forked child; never returns
[[noreturn]] void childMain(const Plan& p, const Mode& m);

// reference parsing of a dataset file; false: the file must be refused
bool parseDataset(const std::string& content, const std::string& seps, int maxRow, int startCol, bool hasName, MData& out);
int bandSize(int len, double ratio);

// command-line program driven through a simulated terminal; `out` collects what it prints
void runCli(const Plan& p, std::string& out);
