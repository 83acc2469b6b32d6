// Simulated terminal for the command-line program: feeds the script, observes the state through
// further commands, and judges every command.
#include "world.hpp"

#include <cmath>
#include <cstring>
#include <iostream>
#include <sstream>

using namespace rt;
typedef std::string S;
typedef std::vector<S> VS;

int genex_cli_main(int argc, char** argv);

namespace {

VS words(const S& l) { std::istringstream in(l); VS r; S w; while (in >> w) r.push_back(w); return r; }

struct Info { bool grouped = false, norm = false; S line; std::vector<std::vector<double>> rows; };
struct View {                      // observable state of the session
  S print;
  std::map<S, Info> ds;
};

struct Terminal {
  const Plan& p;
  S& out;
  size_t pos = 0;                  // next script entry
  const Op* cur = nullptr;         // command being executed
  bool confirm = false;            // the program asks whether to quit
  bool mustEnd = false, mayEnd = false;
  int phase = 0;                   // 0: start, 1: command running, 2: observing
  View before, after;
  VS probes;
  size_t probe = 0;
  S cmdOut;
  S probePrint;
  bool firstView = true;
  S again;
  uint64_t firedBefore = 0;
  std::set<S> named;               // datasets with names of the series
  Terminal(const Plan& p, S& out) : p(p), out(out) {}

  [[noreturn]] void bad(const char* kind, const S& msg) {
    S t = cur ? "command " + std::to_string(cur->id) + " '" + (cur->verb() == "cli" ? cur->a[1] : S("<end of input>")) + "': " + msg : msg;
    violation(kind, t);
  }
  static uint64_t firedNow() { uint64_t n = 0; for (int k = 0; k < NKIND; k++) if (k != K_CLOCK && k != K_SPURIOUS) n += sh->fired[k]; return n; }
  static bool isError(const S& o) { return o.find("rror") != S::npos || o.find("must be provided") != S::npos; }
  // any other wording that tells the user about a failure
  static bool isRefusal(const S& o) {
    if (isError(o)) return true;
    S l;
    for (char c : o) l += (char)tolower((unsigned char)c);
    for (auto w : {"must", "invalid", "unknown", "cannot", "can't", "could not", "fail", "usage", "no such", "not found", "wrong", "too many", "too few",
                   "missing", "there is no", "out of range", "not enough", "unable", "unexpected"}) if (l.find(w) != S::npos) return true;
    return false;
  }

  char* give(const S& l) { char* c = strdup(l.c_str()); return c; }
  void startProbes() {
    probes.clear(); probe = 0; probePrint.clear();
    probes.push_back("list dataset");
    for (auto n : {"a", "b"}) {
      vfs::erase(S("/sim/.d") + n); vfs::erase(S("/sim/.g") + n);
      probes.push_back(S("save ") + n + " /sim/.d" + n);
      probes.push_back(S("saveGroups ") + n + " /sim/.g" + n);
    }
    vfs::erase("/sim/.again");
    again.clear();
    if (cur && cur->verb() == "cli" && !isError(cmdOut)) {
      VS w = words(cur->a[1]);
      if (w.size() >= 3 && (w[0] == "save" || w[0] == "saveGroups")) { w[2] = "/sim/.again"; for (auto& x : w) again += (again.empty() ? "" : " ") + x; probes.push_back(again); }
    }
    quiet(true); plainClock(true);
    phase = 2;
  }
  static S strip(const S& o) {     // without timing lines and the width of columns
    std::istringstream in(o);
    S l, r;
    while (std::getline(in, l)) if (l.find("executed in") == S::npos) { for (auto& x : words(l)) r += x + " "; r += "\n"; }
    return r;
  }
  View look(const VS& outputs) {
    View v;
    for (size_t i = 0; i < 5 && i < outputs.size(); i++) v.print += strip(outputs[i]);
    std::istringstream in(outputs[0]);
    S l;
    while (std::getline(in, l)) {
      VS w = words(l);
      if (w.size() < 3 || (l.find("rouped") == S::npos)) continue;
      Info i;
      i.grouped = l.find("Not grouped") == S::npos;
      i.norm = l.find("Not normalized") == S::npos;
      i.line = l;
      v.ds[w[0]] = i;
    }
    for (auto n : {"a", "b"}) {
      S d;
      if (vfs::get(S("/sim/.d") + n, d)) {
        v.print += d;
        MData m;
        parseDataset(d, " ", 0, 0, named.count(n) > 0, m);
        if (v.ds.count(n)) v.ds[n].rows = m.v;
      }
      if (vfs::get(S("/sim/.g") + n, d)) v.print += std::to_string(hashStr(d)) + "\n";
    }
    return v;
  }
  static bool number(const S& s, bool integer) {
    if (s.empty()) return false;
    char* e;
    if (integer) { errno = 0; long v = strtol(s.c_str(), &e, 10); return e != s.c_str() && !errno && v <= 2147483647l && v >= -2147483648l; }
    strtod(s.c_str(), &e);
    return e != s.c_str();
  }
  static bool missing(const S& path) { return !vfs::exists(path); }
  static bool unwritable(const S& path) { return path.compare(0, 5, "/sim/") != 0 || path.compare(0, 9, "/sim/nod/") == 0; }
  static bool knownDist(const S& d, bool dtw) { for (auto x : {"euclidean", "manhattan", "chebyshev", "cosine", "sorensen"}) if (d == x || (dtw && d == S(x) + "_dtw")) return true; return false; }
  // true: the command cannot have an effect and has to report that
  bool mustFail(const VS& w) {
    if (w.empty() || w[0].compare(0, 2, "//") == 0 || w[0] == "exit" || w[0] == "quit") return false;
    size_t n = w.size() - 1;
    auto args = [&](size_t lo, size_t hi) { return n < lo || n > hi; };
    auto un = [&](const S& d) { return !before.ds.count(d); };
    auto ungrouped = [&](const S& d) { return un(d) || !before.ds[d].grouped; };
    auto badRow = [&](const S& d, const S& i) { return un(d) || !number(i, true) || atoi(i.c_str()) < 0 || atoi(i.c_str()) >= (int)before.ds[d].rows.size(); };
    auto badRange = [&](const S& d, const S& i, const S& a, const S& b) {
      if (badRow(d, i) || !number(a, true) || !number(b, true)) return true;
      int s = atoi(a.c_str()), e = atoi(b.c_str()), L = (int)before.ds[d].rows[atoi(i.c_str())].size();
      if (s < 0 && e < 0) return false;
      return s < 0 || s >= e || e > L;
    };
    if (w[0] == "help") return n == 1 ? !(w[1] == "help" || w[1] == "exit" || w[1] == "quit" || cmds().count(w[1])) : n > 1;
    if (!cmds().count(w[0])) return true;
    if (w[0] == "load") {
      if (args(2, 6)) return true;
      for (size_t k = 4; k <= n; k++) if (!number(w[k], true)) return true;
      if (before.ds.count(w[1]) || missing(w[2])) return true;
      S c;
      vfs::get(w[2], c);
      MData m;
      return n == 2 && !parseDataset(c, " ", 0, 0, false, m);
    }
    if (w[0] == "save") return args(2, 3) || un(w[1]) || unwritable(w[2]);
    if (w[0] == "unload" || w[0] == "normalize") return args(1, 1) || un(w[1]);
    if (w[0] == "list") return args(1, 1) || (w[1] != "dataset" && w[1] != "distance");
    if (w[0] == "timer") return args(0, 1) || (n == 1 && w[1] != "on" && w[1] != "off");
    if (w[0] == "group") return args(2, 3) || un(w[1]) || !number(w[2], false) || (n == 3 && !knownDist(w[3], false));
    if (w[0] == "saveGroups") return args(2, 3) || ungrouped(w[1]) || unwritable(w[2]) || (n == 3 && !number(w[3], true));
    if (w[0] == "loadGroups") return args(2, 2) || un(w[1]) || missing(w[2]);
    if (w[0] == "distance") return args(8, 9) || badRange(w[1], w[2], w[3], w[4]) || badRange(w[5], w[6], w[7], w[8]) || (n == 9 && !knownDist(w[9], true));
    if (w[0] == "print") return args(4, 4) || badRange(w[1], w[2], w[3], w[4]);
    if (w[0] == "sim") {
      if (args(3, 5) || n == 4 || ungrouped(w[1]) || badRow(w[2], w[3])) return true;
      return n == 5 && badRange(w[2], w[3], w[4], w[5]);
    }
    if (w[0] == "ksim" || w[0] == "ksimBF") {
      if (args(4, w[0] == "ksim" ? 7 : 6) || !number(w[1], true) || atoi(w[1].c_str()) <= 0 || badRow(w[3], w[4])) return true;
      if (w[0] == "ksim" && ungrouped(w[2])) return true;
      if (w[0] == "ksimBF" && un(w[2])) return true;
      for (size_t k = 5; k <= n; k++) if (w[0] == "ksim" && !number(w[k], true)) return true;
      return n >= 6 && badRange(w[3], w[4], w[5], w[6]);
    }
    return false;
  }
  // true: nothing is wrong with the command, so without faults it has its effect
  bool mustWork(const VS& w) {
    if (w.empty() || mustFail(w)) return false;
    size_t n = w.size() - 1;
    auto plain = [&](size_t from) { for (size_t k = from; k <= n; k++) if (w[k].find_first_not_of("0123456789") != S::npos || w[k].size() > 6) return false; return true; };
    auto held = [&](const S& d) { if (!probed(d) || !before.ds.count(d)) return false; for (auto& r : before.ds[d].rows) if (!r.empty()) return true; return false; };
    if (w[0] == "timer") return n <= 1;
    if (w[0] == "list") return n == 1;
    if (w[0] == "unload") return true;
    if (w[0] == "normalize") return held(w[1]);
    if (w[0] == "save") return held(w[1]) && w[2].size() < 400 && (n == 2 || w[3] == ",");
    if (w[0] == "print") return held(w[1]) && plain(2);
    if (w[0] == "group") return held(w[1]) && w[2].find_first_not_of("0123456789.") == S::npos;
    if (w[0] == "load") {
      if (!plain(4)) return false;
      S c;
      vfs::get(w[2], c);
      MData m;
      return loaded(w, c, m) && m.maxLen > 0;
    }
    return false;
  }
  static bool loaded(const VS& w, const S& text, MData& m) {
    S sep = w.size() > 3 ? w[3] : " ";
    for (size_t at; (at = sep.find("\\s")) != S::npos;) sep.replace(at, 2, " ");
    auto arg = [&](size_t k) { return w.size() > k ? atoi(w[k].c_str()) : 0; };
    return parseDataset(text, sep, arg(4), arg(5), arg(6) != 0, m);
  }
  static const std::set<S>& cmds() {
    static std::set<S> c = {"load", "save", "unload", "list", "timer", "distance", "group", "saveGroups", "loadGroups", "normalize", "sim", "ksim", "ksimBF", "print", "help"};
    return c;
  }
  void judge() {
    sh->oracleChecks++;
    VS w = words(cur->a[1]);
    bool err = isError(cmdOut);
    bool faulted = firedNow() != firedBefore;
    if (err) {
      if (mustWorkNow && !faulted) bad("refused", "nothing is wrong with the command, but it failed: '" + cmdOut.substr(0, 300) + "'");
      if (before.print != after.print) {
        std::istringstream x(before.print), y(after.print);
        S l, m;
        while (true) { bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, m); if (!p) l = "<end>"; if (!q) m = "<end>"; if (l != m || (!p && !q)) break; }
        bad("changed", "reported an error but changed the session: '" + l.substr(0, 200) + "' became '" + m.substr(0, 200) + "'");
      }
      return;
    }
    if (isRefusal(cmdOut) && before.print == after.print) return;
    if (w.empty() || w[0] == "exit" || w[0] == "quit") return;
    if (mustFailNow) bad("silent", "cannot succeed, but no error was printed; output: '" + cmdOut.substr(0, 300) + "'");
    auto there = [&](const S& d) { return after.ds.count(d) > 0; };
    if (w[0] == "load") {
      if (!there(w[1])) bad("noeffect", "the dataset is not listed afterwards");
      Info& i = after.ds[w[1]];
      if (i.grouped || i.norm) bad("noeffect", "a freshly loaded dataset is listed as grouped or normalized");
      S c;
      vfs::get(w[2], c);
      MData m;
      if (probed(w[1]) && loaded(w, c, m)) same(m.v, i.rows, "the loaded dataset differs from the file");
    } else if (w[0] == "unload") { if (there(w[1])) bad("noeffect", "the dataset is still listed"); }
    else if (w[0] == "normalize") { if (!there(w[1]) || !after.ds[w[1]].norm) bad("noeffect", "the dataset is not listed as normalized"); normalized(before.ds[w[1]].rows, after.ds[w[1]].rows); }
    else if (w[0] == "group" || w[0] == "loadGroups") { if (!there(w[1]) || !after.ds[w[1]].grouped) bad("noeffect", "the dataset is not listed as grouped"); }
    if (w[0] == "group" && after.ds[w[1]].line.find(w.size() > 3 ? w[3] : S("euclidean")) == S::npos) bad("noeffect", "the dataset is not listed with this distance");
    else if (w[0] == "save" || w[0] == "saveGroups") {
      S x, y;
      if (!vfs::get(w[2], x)) bad("noeffect", "the file does not exist");
      if (!vfs::get("/sim/.again", y)) bad("noeffect", "the same command without faults writes no file");
      if (x != y) bad("noeffect", "the file has " + std::to_string(x.size()) + " bytes, complete are " + std::to_string(y.size()));
    }
    // commands that only ask change nothing
    static const std::set<S> pure = {"list", "timer", "distance", "sim", "ksim", "ksimBF", "print", "help", "save", "saveGroups"};
    if (pure.count(w[0]) && before.print != after.print) bad("changed", "changed the session");
    // a command touches only the dataset it names
    for (auto n : {"a", "b"}) if (w.size() > 1 && w[1] != n) {
      auto x = before.ds.find(n), y = after.ds.find(n);
      bool px = x != before.ds.end(), py = y != after.ds.end();
      if (px != py || (px && (x->second.grouped != y->second.grouped || x->second.norm != y->second.norm || x->second.rows != y->second.rows))) bad("changed", S("changed dataset ") + n);
    }
  }
  static bool probed(const S& n) { return n == "a" || n == "b"; }
  // what is known of the values are six digits
  void normalized(const std::vector<std::vector<double>>& a, const std::vector<std::vector<double>>& b) {
    double lo = INFINITY, hi = -INFINITY;
    bool ok = a.size() == b.size();
    for (auto& r : a) for (double x : r) { lo = std::min(lo, x); hi = std::max(hi, x); if (!std::isfinite(x)) return; }
    double most = std::max(std::fabs(lo), std::fabs(hi));
    if (hi - lo <= 1e-3 * most) return;
    for (size_t i = 0; ok && i < a.size(); i++) {
      ok = a[i].size() == b[i].size();
      for (size_t j = 0; ok && j < a[i].size(); j++) ok = std::fabs(b[i][j] - (a[i][j] - lo) / (hi - lo)) <= 1e-5 + 4e-5 * most / (hi - lo);
    }
    if (!ok) bad("noeffect", "the values are not the normalized ones");
  }
  void same(const std::vector<std::vector<double>>& a, const std::vector<std::vector<double>>& b, const char* msg) {
    bool ok = a.size() == b.size();
    for (size_t i = 0; ok && i < a.size(); i++) { ok = a[i].size() == b[i].size(); for (size_t j = 0; ok && j < a[i].size(); j++) ok = std::fabs(a[i][j] - b[i][j]) <= 1e-5 * std::fabs(a[i][j]); }
    if (!ok) bad("noeffect", msg);
  }
  bool mustFailNow = false, mustWorkNow = false;
  VS outputs;

  char* next() {
    faultsOn(false);
    setOp(-1);
    S got;
    got.swap(out);
    note("cli", (int64_t)hashStr(phase == 1 ? strip(got) : got), phase);
    if (mustEnd) bad("goeson", "the session goes on although it has to end");
    if (phase == 1) {
      cmdOut = got;
      if (cur->id < MAXOPS) sh->outcome[cur->id] = isError(got) ? 2 : 1;
      sh->apiCalls++;
      if (isError(got)) sh->apiFails++;
      if (mayEnd && !isError(got)) bad("goeson", "the session goes on after an exit command");
      mayEnd = false;
      VS w = words(cur->a[1]);
      if (w.size() > 2 && w[0] == "load" && !isError(got)) { named.erase(w[1]); if (w.size() > 6 && atoi(w[6].c_str())) named.insert(w[1]); }
      startProbes();
      outputs.clear();
    } else if (phase == 2) {
      outputs.push_back(got);
    } else if (phase == 0) {
      startProbes();
      outputs.clear();
    }
    if (phase == 2) {
      if (probe < probes.size()) return give(probes[probe++]);
      quiet(false); plainClock(false);
      after = look(outputs);
      if (cur) judge();
      before = after;
      cur = nullptr;
      phase = 3;
    }
    return script();
  }
  // next entry of the script
  char* script() {
    if (pos >= p.ops.size()) {      // input has ended for good
      if (confirm) mustEnd = true;
      confirm = true;
      phase = 4;
      return nullptr;
    }
    const Op& op = p.ops[pos++];
    sh->opIndex = (int)pos - 1;
    cur = &op;
    if (confirm) {                  // answer to the question
      phase = 4;
      if (op.verb() == "eof") { mustEnd = true; return nullptr; }
      if (op.a[1] == "y" || op.a[1] == "") mustEnd = true;
      else if (op.a[1] == "n") { confirm = false; }
      return give(op.a[1]);
    }
    if (op.verb() == "eof") { confirm = true; phase = 4; return nullptr; }
    VS w = words(op.a[1]);
    mustFailNow = mustFail(w);
    mustWorkNow = mustWork(w);
    if (!w.empty() && (w[0] == "exit" || w[0] == "quit")) mayEnd = true;
    phase = 1;
    firedBefore = firedNow();
    setOp(op.id);
    faultsOn(true);
    return give(op.a[1]);
  }
  void ended() {
    sh->oracleChecks++;
    if (!mustEnd && !(mayEnd && phase == 1)) bad("ended", "the session ended for no reason");
    quiet(false);
  }
};
Terminal* g_term;
}  // namespace

extern "C" {
char* readline(const char*) {
  Internal in;
  return g_term->next();
}
void add_history(const char*) {}
}

void runCli(const Plan& p, S& out) {
  g_term = new Terminal(p, out);
  int code;
  { Sut s; char name[] = "genexcli"; char* argv[] = {name, nullptr}; code = genex_cli_main(1, argv); }
  faultsOn(false);
  if (code != 0) violation("ended", "the program ended with code " + std::to_string(code));
  g_term->ended();
}
