#include "world.hpp"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <iostream>
#include <sstream>
#include <streambuf>

#include "GenexAPI.hpp"

using namespace rt;
using genex::GenexAPI;
using genex::candidate_time_series_t;
typedef std::string S;
typedef std::vector<candidate_time_series_t> Cands;

// ---------------------------------------------------------------- reference pieces
static bool blank(const S& tok) { return tok.empty(); }
static std::vector<S> tokens(const S& line, const S& seps) {
  std::vector<S> r;
  S cur;
  for (char c : line) {
    if (seps.find(c) != S::npos) { if (!blank(cur)) r.push_back(cur); cur.clear(); }
    else cur += c;
  }
  if (!blank(cur)) r.push_back(cur);
  return r;
}
bool parseDataset(const S& content, const S& seps, int maxRow, int startCol, bool hasName, MData& out) {
  std::vector<S> lines;
  size_t p = 0;
  while (p < content.size()) {
    size_t e = content.find('\n', p);
    if (e == S::npos) e = content.size();
    lines.push_back(content.substr(p, e - p));
    p = e + 1;
  }
  size_t rows = lines.size();
  if (maxRow > 0 && (size_t)maxRow < rows) rows = (size_t)maxRow;
  int skip = startCol + (hasName ? 1 : 0);
  out = MData();
  for (auto& l : lines) out.maxLen = std::max(out.maxLen, (int)tokens(l, seps).size() - skip);
  for (size_t r = 0; r < rows; r++) {
    auto t = tokens(lines[r], seps);
    std::vector<double> v;
    S name;
    for (size_t c = (size_t)startCol; c < t.size(); c++) {
      if (hasName && c == (size_t)startCol) { name = t[c]; continue; }
      char* end = nullptr;
      errno = 0;
      double x = strtod(t[c].c_str(), &end);
      if (end == t[c].c_str()) return false;
      if (errno == ERANGE && std::fabs(x) > 1) return false;
      v.push_back(x);
    }
    out.v.push_back(v);
    if (hasName) out.names.push_back(name);
  }
  return true;
}
int bandSize(int len, double ratio) {
  int b = (int)std::floor(len * ratio);
  return std::min(b, len - 1);
}

S GDump::canon() const {
  S s = head + "|" + std::to_string(minLen) + ".." + std::to_string(maxLen) + "|" + dist + "\n";
  for (auto& kv : byLen) {
    std::vector<S> gs;
    for (auto& g : kv.second) {
      auto m = g.members;
      std::sort(m.begin(), m.end());
      S t = "{" + g.rep + "}";
      for (auto& x : m) t += " " + std::to_string(x.first) + ":" + std::to_string(x.second);
      gs.push_back(t);
    }
    std::sort(gs.begin(), gs.end());
    s += "L" + std::to_string(kv.first) + " n=" + std::to_string(gs.size()) + "\n";
    for (auto& g : gs) s += "  " + g + "\n";
  }
  return s;
}
// parses the text export of groups; empty error means well formed
static S parseDump(const S& text, GDump& d) {
  std::vector<S> ln;
  std::istringstream in(text);
  S l;
  while (std::getline(in, l)) ln.push_back(l);
  size_t p = 0;
  if (ln.size() < 3) return "fewer than three lines";
  {
    std::istringstream h(ln[p++]);
    int ver, cnt, ml;
    if (!(h >> ver >> d.thr >> cnt >> ml)) return "bad header";
    d.head = std::to_string(cnt) + "x" + std::to_string(ml);
  }
  { std::istringstream h(ln[p++]); if (!(h >> d.minLen >> d.maxLen)) return "bad range line"; }
  { std::istringstream h(ln[p++]); if (!(h >> d.dist)) return "no distance name"; }
  for (int len = d.minLen; len < d.maxLen; len++) {
    if (p >= ln.size()) return "missing section for length " + std::to_string(len);
    char* e;
    long n = strtol(ln[p].c_str(), &e, 10);
    if (e == ln[p].c_str() || *e) return "bad group count line for length " + std::to_string(len);
    p++;
    auto& v = d.byLen[len];
    for (long g = 0; g < n; g++) {
      if (p + 2 > ln.size()) return "group cut off";
      MGroup mg;
      std::istringstream c(ln[p++]);
      S t;
      int k = 0;
      while (c >> t) { mg.rep += (k ? " " : "") + t; k++; }
      if (k != len) return "representative of the wrong length";
      std::istringstream m(ln[p++]);
      long cnt;
      if (!(m >> cnt)) return "no member count";
      for (long i = 0; i < cnt; i++) {
        int a, b;
        if (!(m >> a >> b)) return "member list cut off";
        mg.members.push_back({a, b});
      }
      if (m >> t) return "member list too long";
      v.push_back(mg);
      d.count++;
    }
  }
  if (p != ln.size()) return "trailing lines";
  return "";
}
static S parseSizes(const S& text, std::map<int, std::vector<int>>& sizes) {
  std::istringstream in(text);
  S a, b, c;
  if (!std::getline(in, a) || !std::getline(in, b) || !std::getline(in, c)) return "fewer than three lines";
  int lo, hi;
  std::istringstream r(b);
  if (!(r >> lo >> hi)) return "bad range line";
  for (int len = lo; len < hi; len++) {
    S l1, l2;
    if (!std::getline(in, l1) || !std::getline(in, l2)) return "section cut off";
    int n = atoi(l1.c_str());
    std::istringstream m(l2);
    for (int i = 0; i < n; i++) { int x; if (!(m >> x)) return "sizes cut off"; sizes[len].push_back(x); }
  }
  return "";
}

// ---------------------------------------------------------------- output of the program
struct Sink : std::streambuf {
  S text;
  int overflow(int c) override { if (c != EOF) { Internal in; if (text.size() < (1u << 20)) text += (char)c; } return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { Internal in; if (text.size() < (1u << 20)) text.append(s, (size_t)n); return n; }
};
static Sink* g_sink;

// ---------------------------------------------------------------- world
struct World {
  const Plan& p;
  const Mode& mode;
  const Oracles& o;
  std::map<int, GenexAPI*> api;
  std::map<int, std::map<S, MData>> model;       // session -> name -> dataset
  std::map<S, Saved> saved;                      // group files
  std::map<S, S> queriesAt;                      // path -> answers at the time of saving
  double band = 0.1;
  GenexAPI* refApi = nullptr;

  World(const Plan& p, const Mode& m) : p(p), mode(m), o(m.o) {}

  GenexAPI& ses(int s) {
    Internal in0;
    if (!api[s]) { GenexAPI* a = fresh(); api[s] = a; }
    return *api[s];
  }
  static GenexAPI* fresh();
  bool has(int s, const S& n) { return model[s].count(n) > 0; }
  MData& data(int s, const S& n) { return model[s][n]; }

  [[noreturn]] void bad(const S& kind, const Op& op, const S& msg) {
    S t = "after op " + std::to_string(op.id) + " (" + opText(op) + "): " + msg;
    violation(kind.c_str(), t);
  }

  // ------------------------------------------------------------ probes (no faults, no preemption)
  struct Probe {
    static int& depth() { static int d = 0; return d; }
    Probe() { depth()++; quiet(true); plainClock(true); }
    ~Probe() { if (--depth() == 0) { plainClock(false); quiet(false); } }
  };
  bool dumpOf(GenexAPI& a, const S& name, GDump& d, S& err) {
    Probe pr;
    S path = "/sim/.probe";
    try { Sut s; a.saveGroupsOld(name, path, false); }
    catch (const std::exception& e) { err = e.what(); return false; }
    S text;
    vfs::get(path, text);
    vfs::erase(path);
    err = parseDump(text, d);
    return err.empty();
  }
  S candText(const Cands& c) {
    S s;
    for (auto& x : c)
      s += "(" + std::to_string(x.data.getIndex()) + "," + std::to_string(x.data.getStart()) + "," + std::to_string(x.data.getEnd()) + "," + num(x.dist) + ")";
    return s;
  }
  // everything observable about a session
  S snap(int sid) {
    Probe pr;
    GenexAPI& a = ses(sid);
    S out;
    try {
      int n;
      std::vector<genex::dataset_metadata_t> infos;
      { Sut s; n = a.getDatasetCount(); infos = a.getAllDatasetInfo(); }
      out += "count " + std::to_string(n) + "\n";
      for (auto& i : infos) {
        out += i.name + " " + std::to_string(i.itemCount) + "x" + std::to_string(i.itemLength) + (i.isNormalized ? " norm" : "") + (i.isGrouped ? " grouped " + i.distance + " " + num(i.threshold) : "") + "\n";
        for (int k = 0; k < i.itemCount; k++) {
          S nm;
          int len;
          { Sut s; nm = a.getTimeSeriesName(i.name, k); len = a.getTimeSeriesLength(i.name, k); }
          out += " " + nm + ":" + std::to_string(len);
          if (len > 0) {
            Sut s;
            genex::TimeSeries ts = a.getTimeSeries(i.name, k, 0, len);
            Internal in;
            for (int j = 0; j < len; j++) out += " " + num(ts[j]);
          }
          out += "\n";
        }
        if (i.isGrouped) {
          GDump d;
          S err;
          if (!dumpOf(a, i.name, d, err)) out += "groups unreadable: " + err + "\n";
          else out += d.canon();
        }
        // state of the approximate search
        int qi = -1;
        for (int k = 0; k < i.itemCount && qi < 0; k++) { Sut s; if (a.getTimeSeriesLength(i.name, k) >= 2) qi = k; }
        if (qi >= 0) {
          try {
            Cands c;
            { Sut s; c = a.getKBestMatchesPAA(3, i.name, i.name, qi, 0, 2, "manhattan"); }
            out += "paa " + candText(c) + "\n";
          } catch (const std::exception& e) { out += S("paa refused\n"); }
        }
      }
    } catch (const std::exception& e) { out += S("PROBE FAILED ") + e.what() + "\n"; }
    return out;
  }
  S snapAll() {
    S r;
    for (auto& kv : api) if (kv.second) r += "session " + std::to_string(kv.first) + "\n" + snap(kv.first);
    return r;
  }
  static S diff(const S& a, const S& b) {
    std::istringstream x(a), y(b);
    S l, m;
    int n = 0;
    for (;;) {
      bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, m);
      if (!p && !q) return "";
      n++;
      if (p != q || l != m) return "line " + std::to_string(n) + ": was '" + (p ? l.substr(0, 300) : S("<end>")) + "', is '" + (q ? m.substr(0, 300) : S("<end>")) + "'";
    }
  }

  // a fresh session holding the modelled data, grouped with one thread on an undisturbed clock
  bool refDump(GenexAPI& src, const S& name, MData m, const S& dist, double thr, bool whole, GDump& d, int& count, S& err) {
    Probe pr;
    GenexAPI* a = fresh();
    bool ok = true;
    try {
      // the values the session holds, to the last bit
      for (int k = 0; k < (int)m.v.size(); k++) {
        if (m.v[k].empty()) continue;
        Sut s;
        genex::TimeSeries t = src.getTimeSeries(name, k, -1, -1);
        Internal in;
        for (int j = 0; j < (int)m.v[k].size() && j < t.getLength(); j++) m.v[k][j] = t[j];
      }
      putModel(*a, "ref", m);
      { Sut s; count = a->groupDataset("ref", thr, dist, 1, whole); }
      ok = dumpOf(*a, "ref", d, err);
    } catch (const std::exception& e) { ok = false; err = e.what(); }
    { Sut s; delete a; }
    return ok;
  }
  void putModel(GenexAPI& a, const S& name, const MData& m) {
    S t;
    for (auto& r : m.v) { for (size_t i = 0; i < r.size(); i++) t += (i ? "," : "") + num(r[i]); t += "\n"; }
    vfs::put("/sim/.ref", t);
    { Sut s; a.loadDataset(name, "/sim/.ref", ","); }
    vfs::erase("/sim/.ref");
  }

  // ------------------------------------------------------------ expectations
  enum Exp { OK, FAIL, ANY };
  bool groupIo(int id) {
    for (auto& x : p.ops) if (x.id == id) return x.verb() == "savegrp" || x.verb() == "loadgrp" || x.verb() == "savetxt" || x.verb() == "loadtxt";
    return false;
  }
  bool fatalFault(int id) {
    for (auto& f : p.faults) if (f.op == id) {
      if (f.kind == K_CLOCK || f.kind == K_SPURIOUS) continue;
      // an interrupted transfer may be reported as an error, except where saving and restoring groups promises otherwise
      if ((f.kind == K_READ || f.kind == K_WRITE) && (f.err == 0 || (f.err == EINTR && f.sticky < 50 && p.prop == "C05" && groupIo(id)))) continue;
      return true;
    }
    return false;
  }
  bool validRange(const MData& m, int idx, int st, int en, int& len) {
    if (idx < 0 || idx >= (int)m.v.size()) return false;
    int L = (int)m.v[idx].size();
    if (st < 0 && en < 0) { len = L; return true; }
    if (st < 0 || st >= en || en > L) return false;
    len = en - st;
    return true;
  }
  static bool known(const S& d, bool dtw) {
    static const char* n[] = {"euclidean", "manhattan", "chebyshev", "cosine", "sorensen"};
    for (auto x : n) if (d == x || (dtw && d == S(x) + "_dtw")) return true;
    return false;
  }
  // lengths a grouped search looks at for this query length
  std::vector<int> reach(int q, int maxLen) {
    std::vector<int> r;
    if (q >= 2 && q <= maxLen) r.push_back(q);
    int rq = bandSize(q, band);
    for (int l = q - 1; l >= 2 && l + rq >= q; l--) if (l <= maxLen) r.push_back(l);
    for (int h = q + 1; h <= maxLen; h++) { if (q + bandSize(h, band) < h) break; r.push_back(h); }
    return r;
  }
  int candidates(const MData& m, int qlen) {
    int n = 0;
    for (int L : reach(qlen, m.maxLen)) {
      if (m.whole && L != m.maxLen) continue;
      for (auto& v : m.v) if ((int)v.size() >= L) n += (int)v.size() - L + 1;
    }
    return n;
  }
  static int allSubs(const MData& m) { int n = 0; for (auto& v : m.v) for (int L = 2; L <= (int)v.size(); L++) n += (int)v.size() - L + 1; return n; }
  static S dims(const MData& m) {
    S s = std::to_string(m.v.size());
    for (auto& v : m.v) s += "," + std::to_string(v.size());
    return s;
  }

  Exp expect(const Op& op) {
    const S& v = op.verb();
    auto s = [&]() { return op.i(1); };
    int len;
    if (v == "load") {
      if (has(s(), op.a[2])) return FAIL;
      S c;
      if (!vfs::get(op.a[3], c)) return FAIL;
      MData m;
      if (!parseDataset(c, op.a[4], op.i(5), op.i(6), op.i(7) != 0, m)) return FAIL;
      return m.v.empty() ? ANY : OK;
    }
    if (v == "unloadall" || v == "list" || v == "band" || v == "damage" || v == "restart" || v == "count" || v == "close") return OK;
    // below: a dataset is named
    if (v == "best") {
      if (!has(s(), op.a[2]) || !has(s(), op.a[3])) return FAIL;
      if (!validRange(data(s(), op.a[3]), op.i(4), op.i(5), op.i(6), len)) return FAIL;
      MData& m = data(s(), op.a[2]);
      if (!m.grouped || len <= 1) return FAIL;
      return candidates(m, len) > 0 ? OK : FAIL;
    }
    if (v == "kbest") {
      if (!has(s(), op.a[4]) || !has(s(), op.a[5])) return FAIL;
      if (!validRange(data(s(), op.a[5]), op.i(6), op.i(7), op.i(8), len)) return FAIL;
      MData& m = data(s(), op.a[4]);
      if (!m.grouped || op.i(2) <= 0 || op.i(3) < op.i(2)) return FAIL;
      return len >= 2 ? OK : ANY;
    }
    if (v == "kbf") {
      if (!has(s(), op.a[3]) || !has(s(), op.a[4])) return FAIL;
      if (!validRange(data(s(), op.a[4]), op.i(5), op.i(6), op.i(7), len)) return FAIL;
      if (op.i(2) <= 0 || !known(op.a[8], false)) return FAIL;
      return len >= 1 ? OK : ANY;
    }
    if (v == "kpaa") {
      if (!has(s(), op.a[3]) || !has(s(), op.a[4])) return FAIL;
      if (!data(s(), op.a[3]).paa) return FAIL;
      if (!validRange(data(s(), op.a[4]), op.i(5), op.i(6), op.i(7), len)) return FAIL;
      if (op.i(2) <= 0 || !known(op.a[8], false)) return FAIL;
      return len >= 1 ? OK : ANY;
    }
    if (v == "dist" || v == "match") {
      int l1, l2;
      if (!has(s(), op.a[2]) || !has(s(), op.a[6])) return FAIL;
      if (!validRange(data(s(), op.a[2]), op.i(3), op.i(4), op.i(5), l1)) return FAIL;
      if (!validRange(data(s(), op.a[6]), op.i(7), op.i(8), op.i(9), l2)) return FAIL;
      if (!known(op.a[10], true)) return FAIL;
      bool dtw = op.a[10].size() > 4 && op.a[10].substr(op.a[10].size() - 4) == "_dtw";
      if (v == "match" && !dtw) return FAIL;
      if (!dtw && l1 != l2) return FAIL;
      return l1 >= 1 && l2 >= 1 ? OK : ANY;
    }
    if (!has(s(), op.a[2])) return FAIL;
    MData& m = data(s(), op.a[2]);
    if (v == "save") return badPath(op.a[3]) ? FAIL : OK;
    if (v == "unload" || v == "info") return OK;
    if (v == "norm") return m.v.empty() ? FAIL : OK;
    if (v == "group") {
      if (op.i(5) < 1 || !known(op.a[4], false)) return FAIL;
      return m.maxLen >= 1 ? OK : ANY;
    }
    if (v == "savegrp" || v == "savetxt") return !m.grouped || badPath(op.a[3]) ? FAIL : OK;
    if (v == "loadgrp" || v == "loadtxt") {
      if (!vfs::exists(op.a[3])) return FAIL;
      auto it = saved.find((v == "loadgrp" ? "B" : "T") + op.a[3]);
      if (it == saved.end()) return v == "loadtxt" && !allSubs(m) ? ANY : FAIL;   // without members, an export of sizes looks the same
      if (!it->second.clean) return ANY;
      const S& d = it->second.cand.back().dims;
      return shape(d) != shape(dims(m)) ? FAIL : d != dims(m) ? ANY : OK;
    }
    if (v == "paa") return op.i(3) < 1 ? FAIL : m.maxLen >= 1 && minLen(m) >= 1 ? OK : ANY;
    if (v == "tsname" || v == "tslen") return op.i(3) < 0 || op.i(3) >= (int)m.v.size() ? FAIL : OK;
    if (v == "ts") return validRange(m, op.i(3), op.i(4), op.i(5), len) ? OK : FAIL;
    return ANY;
  }
  static int minLen(const MData& m) { int r = 1 << 30; for (auto& v : m.v) r = std::min(r, (int)v.size()); return r; }
  static bool badPath(const S& p) { return p.compare(0, 5, "/sim/") != 0 || p.compare(0, 9, "/sim/nod/") == 0 || p.back() == '/'; }

  // ------------------------------------------------------------ the call itself
  static thread_local Cands lastCands;
  static thread_local bool lastIsCands;
  static thread_local double lastDist;
  static thread_local uint64_t lastSteps;

  Res call(const Op& op, bool faults) {
    Res r;
    const S& v = op.verb();
    int sid = op.a.size() > 1 ? op.i(1) : 0;
    GenexAPI& a = ses(sid);
    lastIsCands = false;
    lastCands.clear();
    setOp(op.id);
    faultsOn(faults);
    sh->apiCalls++;
    uint64_t st0 = stepsNow();
    try {
      if (v == "load") {
        genex::dataset_metadata_t i;
        { Sut s; i = a.loadDataset(op.a[2], op.a[3], op.a[4], op.i(5), op.i(6), op.i(7) != 0); }
        r.text = i.name + " " + std::to_string(i.itemCount) + "x" + std::to_string(i.itemLength) + (i.isNormalized ? " norm" : "") + (i.isGrouped ? " grouped" : "");
      } else if (v == "save") { Sut s; a.saveDataset(op.a[2], op.a[3], op.a[4][0]); }
      else if (v == "unload") { Sut s; a.unloadDataset(op.a[2]); }
      else if (v == "unloadall") { Sut s; a.unloadAllDataset(); }
      else if (v == "close") { Sut s; delete &a; api[sid] = nullptr; }
      else if (v == "count") { int n; { Sut s; n = a.getDatasetCount(); } r.text = std::to_string(n); }
      else if (v == "norm") {
        std::pair<double, double> mm;
        { Sut s; mm = a.normalizeDataset(op.a[2]); }
        r.text = num(mm.first) + " " + num(mm.second);
      } else if (v == "group") {
        double thr = op.d(3);
        { Sut s; r.count = a.groupDataset(op.a[2], thr, op.a[4], op.i(5), op.i(6) != 0); }
        r.text = std::to_string(r.count);
      } else if (v == "savegrp") { Sut s; a.saveGroups(op.a[2], op.a[3]); }
      else if (v == "loadgrp") { { Sut s; r.count = a.loadGroups(op.a[2], op.a[3]); } r.text = std::to_string(r.count); }
      else if (v == "savetxt") { Sut s; a.saveGroupsOld(op.a[2], op.a[3], op.i(4) != 0); }
      else if (v == "loadtxt") { { Sut s; r.count = a.loadGroupsOld(op.a[2], op.a[3]); } r.text = std::to_string(r.count); }
      else if (v == "band") { double x = op.d(2); Sut s; a.setWarpingBandRatio(x); }
      else if (v == "best") {
        candidate_time_series_t c;
        { Sut s; c = a.getBestMatch(op.a[2], op.a[3], op.i(4), op.i(5), op.i(6)); }
        faultsOn(false);
        lastCands.push_back(c);
        lastIsCands = true;
      } else if (v == "kbest") {
        { Sut s; lastCands = a.getKBestMatches(op.i(2), op.i(3), op.a[4], op.a[5], op.i(6), op.i(7), op.i(8)); }
        lastIsCands = true;
      } else if (v == "kbf") {
        { Sut s; lastCands = a.getKBestMatchesBruteForce(op.i(2), op.a[3], op.a[4], op.i(5), op.i(6), op.i(7), op.a[8]); }
        lastIsCands = true;
      } else if (v == "paa") { Sut s; a.preparePAA(op.a[2], op.i(3)); }
      else if (v == "kpaa") {
        { Sut s; lastCands = a.getKBestMatchesPAA(op.i(2), op.a[3], op.a[4], op.i(5), op.i(6), op.i(7), op.a[8]); }
        lastIsCands = true;
      } else if (v == "dist") {
        { Sut s; lastDist = a.distanceBetween(op.a[2], op.i(3), op.i(4), op.i(5), op.a[6], op.i(7), op.i(8), op.i(9), op.a[10]); }
        r.text = num(lastDist);
      } else if (v == "match") {
        std::vector<std::pair<int, int>> m;
        { Sut s; m = a.matchingBetween(op.a[2], op.i(3), op.i(4), op.i(5), op.a[6], op.i(7), op.i(8), op.i(9), op.a[10]); }
        for (auto& x : m) r.text += "(" + std::to_string(x.first) + "," + std::to_string(x.second) + ")";
      } else if (v == "info") {
        genex::dataset_metadata_t i;
        { Sut s; i = a.getDatasetInfo(op.a[2]); }
        r.text = infoText(i);
      } else if (v == "list") {
        std::vector<genex::dataset_metadata_t> i;
        { Sut s; i = a.getAllDatasetInfo(); }
        for (auto& x : i) r.text += infoText(x) + ";";
      } else if (v == "tsname") { S n; { Sut s; n = a.getTimeSeriesName(op.a[2], op.i(3)); } r.text = n; }
      else if (v == "tslen") { int n; { Sut s; n = a.getTimeSeriesLength(op.a[2], op.i(3)); } r.text = std::to_string(n); }
      else if (v == "ts") {
        Sut s;
        genex::TimeSeries t = a.getTimeSeries(op.a[2], op.i(3), op.i(4), op.i(5));
        Internal in;
        for (int k = 0; k < t.getLength(); k++) r.text += num(t[k]) + " ";
      } else if (v == "damage") damage(op);
      else internalError("unknown verb " + v);
      r.ok = true;
    } catch (const std::exception& e) { r.err = e.what(); }
    catch (...) { r.err = "unknown exception"; }
    faultsOn(false);
    if (lastIsCands && r.ok) r.text = candText(lastCands);
    if (v == "best" || v[0] == 'k' || v == "dist" || v == "match") lastSteps = stepsNow() - st0;
    setOp(-1);
    if (!r.ok) sh->apiFails++;
    return r;
  }
  static S infoText(const genex::dataset_metadata_t& i) {
    return i.name + " " + std::to_string(i.itemCount) + "x" + std::to_string(i.itemLength) + (i.isNormalized ? " norm" : "") + (i.isGrouped ? " grouped " + i.distance + " " + num(i.threshold) : "");
  }

  // alters a file on the simulated disk (the medium, not the program, is at fault)
  void damage(const Op& op) {
    S d;
    const S& path = op.a[2];
    if (!vfs::get(path, d)) return;
    const S& how = op.a[3];
    uint64_t x = strtoull(op.a[4].c_str(), nullptr, 10), y = strtoull(op.a[5].c_str(), nullptr, 10);
    size_t n = d.size();
    if (how == "with") { if (!vfs::get(op.a[4], d)) return; }      // another file takes its place
    else if (how == "truncate") d.resize(n ? x % n : 0);
    else if (how == "tail") d.resize(n - std::min<size_t>(n, 1 + x % 6));
    else if (how == "flip") { if (n) d[x % n] = (char)(d[x % n] ^ (1 << (y % 8))); }
    else if (how == "set") { if (n) d[x % n] = (char)y; }
    else if (how == "zero") { if (n) { size_t o = x % n, l = 1 + y % 64; for (size_t i = o; i < n && i < o + l; i++) d[i] = 0; } }
    else if (how == "cut") { if (n) { size_t o = x % n, l = 1 + y % 16; d.erase(o, l); } }
    else if (how == "dup") { if (n) { size_t o = x % n, l = 1 + y % 16; d.insert(o, d.substr(o, l)); } }
    else if (how == "swap") { if (n) std::swap(d[x % n], d[y % n]); }
    else if (how == "append") d += S((size_t)(1 + x % 40), (char)y);
    else if (how == "digit") {             // another number
      for (size_t i = 0; i < n; i++) { char& c = d[(x + i) % n]; if (c >= '0' && c <= '9') { c = (char)('0' + (c - '0' + 1 + y % 9) % 10); break; } }
    } else if (how == "fold") {            // a row joined with the next one or broken in two, the size stays
      for (size_t i = 0; n && i < n; i++) {
        char& c = d[(x + i) % n];
        if ((size_t)(&c - &d[0]) + 1 < n && (c == '\n' || c == (char)y)) { c = c == '\n' ? (char)y : '\n'; break; }
      }
    } else if (how == "token") {           // a number missing or replaced by another one of the file
      std::vector<std::pair<size_t, size_t>> t;
      for (size_t i = 0; i < n;) { if (isspace((unsigned char)d[i])) { i++; continue; } size_t e = i; while (e < n && !isspace((unsigned char)d[e])) e++; t.push_back({i, e - i}); i = e; }
      if (!t.empty()) {
        auto a = t[x % t.size()], b = t[y % t.size()];
        d.replace(a.first, a.second, (x / 64) % 3 ? d.substr(b.first, b.second) : S());
      }
    } else if (how == "line") {            // a line missing or twice
      std::vector<S> l;
      std::istringstream in(d);
      S z;
      while (std::getline(in, z)) l.push_back(z + "\n");
      if (!l.empty()) { size_t i = x % l.size(); if (y % 2) l.erase(l.begin() + (long)i); else l.insert(l.begin() + (long)i, l[y / 2 % l.size()]); }
      d.clear();
      for (auto& q : l) d += q;
    }
    else if (how == "empty") d.clear();
    else if (how == "remove") { vfs::erase(path); return; }
    else if (how == "garbage") { Rng r(x); size_t l = 1 + y % 300; d.clear(); for (size_t i = 0; i < l; i++) d += (char)r.next(); }
    else if (how == "mask") { Rng r(x); for (int i = 0; i < (int)(2 + y % 6); i++) if (n) d[r.below(n)] = (char)r.next(); }
    vfs::put(path, d);
    unclean(path);
  }
  void unclean(const S& path) { for (auto k : {"B", "T"}) { auto it = saved.find(k + path); if (it != saved.end()) it->second.clean = false; } }

  // ------------------------------------------------------------ after the call
  void updateModel(const Op& op, const Res& r) {
    const S& v = op.verb();
    int s = op.a.size() > 1 ? op.i(1) : 0;
    if (v == "savegrp" || v == "savetxt" || v == "save") {
      if (!has(s, op.a[2]) || badPath(op.a[3])) return;
      unclean(op.a[3]);
      if (v == "save" || (v == "savetxt" && op.i(4)) || !data(s, op.a[2]).grouped) return;
      Saved& x = saved[(v == "savegrp" ? "B" : "T") + op.a[3]];
      x.cand.push_back(curCand(s, op.a[2]));
      x.clean = r.ok;
      return;
    }
    if (!r.ok) return;
    if (v == "load") {
      S c;
      vfs::get(op.a[3], c);
      MData m;
      parseDataset(c, op.a[4], op.i(5), op.i(6), op.i(7) != 0, m);
      model[s][op.a[2]] = m;
    } else if (v == "unload") model[s].erase(op.a[2]);
    else if (v == "unloadall" || v == "close") model[s].clear();
    else if (v == "norm") {
      MData& m = data(s, op.a[2]);
      double lo = INFINITY, hi = -INFINITY;
      for (auto& row : m.v) for (double x : row) { lo = std::min(lo, x); hi = std::max(hi, x); }
      for (auto& row : m.v) for (double& x : row) x = hi == lo ? 0 : (x - lo) / (hi - lo);
      m.norm = true;
      m.grouped = false; m.paa = false;     // derived from the former values
    } else if (v == "group") {
      MData& m = data(s, op.a[2]);
      m.grouped = true; m.thr = op.d(3); m.dist = op.a[4]; m.whole = op.i(6) != 0; m.foreign = false;
    } else if (v == "loadgrp" || v == "loadtxt") {
      MData& m = data(s, op.a[2]);
      m.grouped = true;
      m.foreign = true;
      S vals = valueKey(m);
      for (auto& c : saved[(v == "loadgrp" ? "B" : "T") + op.a[3]].cand) if (c.values == vals) m.foreign = false;
      GDump d;
      S err;
      if (dumpOf(ses(s), op.a[2], d, err)) { m.dist = d.dist; m.whole = m.maxLen > 2 && d.minLen == m.maxLen; }
      genex::dataset_metadata_t i;
      { Probe pr; Sut x; i = ses(s).getDatasetInfo(op.a[2]); }
      m.thr = i.threshold;
    } else if (v == "paa") { MData& m = data(s, op.a[2]); m.paa = true; m.block = op.i(3); }
    else if (v == "band") band = op.d(2);
  }
  static S valueKey(const MData& m) { S t; for (auto& r : m.v) { for (double x : r) t += num(x) + ","; t += ";"; } return std::to_string(hashStr(t)); }
  Cand curCand(int s, const S& name) { return Cand{dims(data(s, name)), valueKey(data(s, name)), curDump(s, name)}; }
  S curDump(int s, const S& name) {
    GDump d;
    S err;
    if (!dumpOf(ses(s), name, d, err)) return "unreadable: " + err;
    genex::dataset_metadata_t i;
    { Probe pr; Sut x; i = ses(s).getDatasetInfo(name); }
    return d.canon() + "thr " + num(i.threshold);
  }

  void checkBooks(const Op& op) {
    Probe pr;
    sh->oracleChecks++;
    for (auto& kv : api) {
      if (!kv.second) continue;
      GenexAPI& a = *kv.second;
      auto& mm = model[kv.first];
      int n;
      std::vector<genex::dataset_metadata_t> infos;
      { Sut s; n = a.getDatasetCount(); infos = a.getAllDatasetInfo(); }
      if (n != (int)mm.size()) bad("books", op, "dataset count is " + std::to_string(n) + ", expected " + std::to_string(mm.size()));
      if (infos.size() != mm.size()) bad("books", op, "listing has " + std::to_string(infos.size()) + " datasets, expected " + std::to_string(mm.size()));
      std::set<S> seen;
      for (auto& i : infos) {
        if (!mm.count(i.name) || !seen.insert(i.name).second) bad("books", op, "listing names " + i.name);
        MData& m = mm[i.name];
        genex::dataset_metadata_t one;
        { Sut s; one = a.getDatasetInfo(i.name); }
        if (infoText(one) != infoText(i)) bad("books", op, "listing says '" + infoText(i) + "', dataset info says '" + infoText(one) + "'");
        genex::dataset_metadata_t want(i.name, (int)m.v.size(), m.maxLen, m.norm, m.grouped, m.grouped ? m.dist : "", m.grouped ? m.thr : 0);
        if (infoText(want) != infoText(i)) bad("books", op, "session says '" + infoText(i) + "', expected '" + infoText(want) + "'");
        values(op, a, i.name, m);
      }
    }
  }
  void values(const Op& op, GenexAPI& a, const S& name, const MData& m) {
    for (int k = 0; k < (int)m.v.size(); k++) {
      S nm;
      int len;
      { Sut s; nm = a.getTimeSeriesName(name, k); len = a.getTimeSeriesLength(name, k); }
      S want = m.names.empty() ? std::to_string(k) : m.names[k];
      if (nm != want) bad("values", op, "series " + std::to_string(k) + " of " + name + " is named '" + nm + "', expected '" + want + "'");
      if (len != (int)m.v[k].size()) bad("values", op, "series " + std::to_string(k) + " of " + name + " has length " + std::to_string(len) + ", expected " + std::to_string(m.v[k].size()));
      if (!len) continue;
      std::vector<double> got;
      {
        Sut s;
        genex::TimeSeries t = a.getTimeSeries(name, k, 0, len);
        Internal in;
        for (int j = 0; j < len; j++) got.push_back(t[j]);
      }
      for (int j = 0; j < len; j++) {
        double d = std::fabs(got[j] - m.v[k][j]), tol = m.norm ? 1e-12 : 0;
        bool same = d <= tol || got[j] == m.v[k][j] || (got[j] != got[j] && m.v[k][j] != m.v[k][j]);
        if (!same) bad("values", op, "value " + std::to_string(j) + " of series " + std::to_string(k) + " of " + name + " is " + num(got[j]) + ", expected " + num(m.v[k][j]));
      }
    }
  }
  void checkPartition(const Op& op, const Res& r, int s, const S& name, bool bound = true) {
    Probe pr;
    sh->oracleChecks++;
    MData& m = data(s, name);
    GenexAPI& a = ses(s);
    GDump d;
    S err;
    if (!dumpOf(a, name, d, err)) bad("partition", op, "groups unreadable: " + err);
    if (r.count >= 0 && d.count != r.count) bad("partition", op, "reported " + std::to_string(r.count) + " groups, there are " + std::to_string(d.count));
    std::set<std::vector<int>> seen;
    for (auto& kv : d.byLen) {
      int L = kv.first;
      for (auto& g : kv.second) {
        if (g.members.empty()) bad("partition", op, "empty group of length " + std::to_string(L));
        // representative: a member with exactly these values
        int ri = -1, rs = -1;
        for (auto& x : g.members) {
          if (x.first < 0 || x.first >= (int)m.v.size() || x.second < 0 || x.second + L > (int)m.v[x.first].size())
            bad("partition", op, "member " + std::to_string(x.first) + ":" + std::to_string(x.second) + " of length " + std::to_string(L) + " does not exist");
          if (!seen.insert({L, x.first, x.second}).second)
            bad("partition", op, "subsequence " + std::to_string(x.first) + ":" + std::to_string(x.second) + " of length " + std::to_string(L) + " is in two groups");
          if (ri < 0) {
            std::istringstream rep(g.rep);
            bool same = true;
            for (int k = 0; k < L; k++) { double q; rep >> q; double w = m.v[x.first][x.second + k]; if (std::fabs(q - w) > 1e-12 * (1 + std::fabs(w))) same = false; }
            if (same) { ri = x.first; rs = x.second; }
          }
        }
        if (ri < 0) bad("partition", op, "representative {" + g.rep + "} is no member of its group");
        for (auto& x : g.members) {
          if (!bound || (x.first == ri && x.second == rs)) continue;
          double dd;
          { Sut z; dd = a.distanceBetween(name, ri, rs, rs + L, name, x.first, x.second, x.second + L, m.dist); }
          if (!(dd <= m.thr / 2 + 1e-9) ) bad("bound", op, "member " + std::to_string(x.first) + ":" + std::to_string(x.second) + " of length " + std::to_string(L) + " is " + num(dd) + " away from its representative, bound " + num(m.thr / 2));
        }
      }
      if (bound && (m.dist == "euclidean" || m.dist == "manhattan" || m.dist == "chebyshev")) {
        if (kv.second.size() > 60) continue;
        std::vector<std::pair<int, int>> reps;
        for (auto& g : kv.second) {
          std::vector<double> rv;
          std::istringstream rep(g.rep);
          double q;
          while (rep >> q) rv.push_back(q);
          for (auto& x : g.members) {
            bool same = true;
            for (int k = 0; k < L && same; k++) { double w = m.v[x.first][x.second + k]; if (std::fabs(rv[k] - w) > 1e-12 * (1 + std::fabs(w))) same = false; }
            if (same) { reps.push_back(x); break; }
          }
        }
        for (size_t i = 0; i < reps.size(); i++) for (size_t j = i + 1; j < reps.size(); j++) {
          double dd;
          { Sut z; dd = a.distanceBetween(name, reps[i].first, reps[i].second, reps[i].second + L, name, reps[j].first, reps[j].second, reps[j].second + L, m.dist); }
          // exact where no rounding is involved, otherwise with some leeway
          bool close = dd < m.thr / 2 - 1e-9 || (dd <= m.thr / 2 && (dd == 0 || m.dist == "chebyshev"));
          if (close) bad("bound", op, "two representatives of length " + std::to_string(L) + " are only " + num(dd) + " apart, bound " + num(m.thr / 2));
        }
      }
    }
    for (int k = 0; k < (int)m.v.size(); k++)
      for (int L = 2; L <= (int)m.v[k].size(); L++) {
        if (m.whole && L != m.maxLen) continue;
        for (int st = 0; st + L <= (int)m.v[k].size(); st++)
          if (!seen.count({L, k, st})) bad("partition", op, "subsequence " + std::to_string(k) + ":" + std::to_string(st) + " of length " + std::to_string(L) + " is in no group");
      }
  }
  void checkRef(const Op& op, const Res& r, int s, const S& name, const S& dist, double thr, bool whole) {
    sh->oracleChecks++;
    GDump ref, got;
    int cnt = 0;
    S err;
    if (!refDump(ses(s), name, data(s, name), dist, thr, whole, ref, cnt, err)) bad("reference", op, "single-threaded grouping of the same data fails: " + err);
    if (!dumpOf(ses(s), name, got, err)) bad("groups", op, "groups unreadable: " + err);
    if (r.count >= 0 && r.count != cnt) bad("groups", op, "returned " + std::to_string(r.count) + " groups, single-threaded grouping gives " + std::to_string(cnt));
    S df = diff(ref.canon(), got.canon());
    if (!df.empty()) bad("groups", op, "groups differ from single-threaded grouping: " + df);
  }
  void checkGenuine(const Op& op, const Res& r) {
    Probe pr;
    sh->oracleChecks++;
    const S& v = op.verb();
    int s = op.i(1);
    S target, query, dist;
    int k, qi, qs, qe;
    if (v == "best") { target = op.a[2]; query = op.a[3]; qi = op.i(4); qs = op.i(5); qe = op.i(6); k = 1; dist = data(s, target).dist; }
    else if (v == "kbest") { k = op.i(2); target = op.a[4]; query = op.a[5]; qi = op.i(6); qs = op.i(7); qe = op.i(8); dist = data(s, target).dist; }
    else { k = op.i(2); target = op.a[3]; query = op.a[4]; qi = op.i(5); qs = op.i(6); qe = op.i(7); dist = op.a[8]; }
    MData& t = data(s, target);
    MData& q = data(s, query);
    int qlen = qs < 0 ? (int)q.v[qi].size() : qe - qs;
    if (qs < 0) { qs = 0; qe = qlen; }
    if ((int)lastCands.size() > k) bad("genuine", op, "returned " + std::to_string(lastCands.size()) + " entries for k = " + std::to_string(k));
    std::set<std::vector<int>> seen;
    double prev = -INFINITY;
    std::vector<int> lens = reach(qlen, t.maxLen);
    for (auto& c : lastCands) {
      int i = c.data.getIndex(), b = c.data.getStart(), e = c.data.getEnd();
      S w = "(" + std::to_string(i) + "," + std::to_string(b) + "," + std::to_string(e) + "," + num(c.dist) + ")";
      if (i < 0 || i >= (int)t.v.size() || b < 0 || e - b < 2 || e > (int)t.v[i].size() || c.data.getLength() != e - b)
        bad("genuine", op, "entry " + w + " names no subsequence of " + target);
      for (int x = 0; x < e - b; x++) if (std::fabs(c.data[x] - t.v[i][b + x]) > 1e-12 * (1 + std::fabs(t.v[i][b + x]))) bad("genuine", op, "entry " + w + " carries other values than the dataset");
      if (!seen.insert({i, b, e}).second) bad("genuine", op, "entry " + w + " appears twice");
      if (c.dist < prev - 1e-9) bad("genuine", op, "entries are not ordered by distance at " + w);
      prev = c.dist;
      double d;
      try {
        if (v == "kpaa") d = paaDist(q.v[qi], qs, qe, t.v[i], b, e, t.block, t.maxLen, dist);
        else { Sut z; d = ses(s).distanceBetween(query, qi, qs, qe, target, i, b, e, dist + "_dtw"); }
      } catch (const std::exception& x) {
        bad("genuine", op, "entry " + w + " has distance " + num(c.dist) + ", the distance query refuses: " + x.what());
        return;
      }
      if (!(std::fabs(d - c.dist) <= 1e-9 * (1 + std::fabs(d))) && !(std::isinf(d) && d == c.dist))
        bad("genuine", op, "entry " + w + " reports distance " + num(c.dist) + ", the distance query says " + num(d));
      if (v == "best" || v == "kbest") {
        if (t.whole && e - b != t.maxLen) bad("genuine", op, "entry " + w + " is no whole series");
      }
    }
    int avail = v == "best" ? 1 : v == "kbest" ? candidates(t, qlen) : allSubs(t);
    int want = std::min(k, avail);
    if ((int)lastCands.size() < want) bad("genuine", op, "returned " + std::to_string(lastCands.size()) + " entries, " + std::to_string(avail) + " candidates exist for k = " + std::to_string(k));
  }
  // distance of the block averages of two subsequences, through the distance query of a fresh session
  double paaDist(const std::vector<double>& q, int qs, int qe, const std::vector<double>& t, int b, int e, int block, int maxLen, const S& dist) {
    int bs = std::min(block, maxLen);
    auto avg = [&](const std::vector<double>& x, int s0, int e0) {
      S l;
      for (int i = s0; i < e0; i += bs) {
        double sum = 0;
        int n = 0;
        for (int j = i; j < e0 && j < i + bs; j++, n++) sum += x[j];
        l += (l.empty() ? "" : ",") + num(sum / n);
      }
      return l;
    };
    vfs::put("/sim/.paa", avg(q, qs, qe) + "\n" + avg(t, b, e) + "\n");
    GenexAPI* a = fresh();
    double d;
    { Sut s; a->loadDataset("x", "/sim/.paa", ","); d = a->distanceBetween("x", 0, -1, -1, "x", 1, -1, -1, dist + "_dtw"); delete a; }
    vfs::erase("/sim/.paa");
    return d;
  }
  // completeness of a file written by a successful save
  void checkComplete(const Op& op) {
    Probe pr;
    sh->oracleChecks++;
    const S& v = op.verb();
    int s = op.i(1);
    const S& name = op.a[2];
    GenexAPI& a = ses(s);
    MData& m = data(s, name);
    S got, want, alt = "/sim/.again";
    if (!vfs::get(op.a[3], got)) bad("incomplete", op, "the target file does not exist");
    try {
      Sut z;
      if (v == "save") a.saveDataset(name, alt, op.a[4][0]);
      else if (v == "savegrp") a.saveGroups(name, alt);
      else a.saveGroupsOld(name, alt, op.i(4) != 0);
    } catch (const std::exception& e) { bad("incomplete", op, S("saving once more without faults fails: ") + e.what()); }
    vfs::get(alt, want);
    vfs::erase(alt);
    if (got != want) {
      size_t k = 0;
      while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
      bad("incomplete", op, "the file has " + std::to_string(got.size()) + " bytes, the complete content has " + std::to_string(want.size()) + "; first difference at byte " + std::to_string(k));
    }
    // the content itself
    if (v == "save") {
      MData x;
      if (!parseDataset(got, S(1, op.a[4][0]), 0, 0, !m.names.empty(), x)) bad("incomplete", op, "the saved dataset does not parse");
      if (x.v.size() != m.v.size()) bad("incomplete", op, "the saved dataset has " + std::to_string(x.v.size()) + " rows of " + std::to_string(m.v.size()));
      for (size_t i = 0; i < m.v.size(); i++) if (x.v[i].size() != m.v[i].size()) bad("incomplete", op, "row " + std::to_string(i) + " of the saved dataset has " + std::to_string(x.v[i].size()) + " of " + std::to_string(m.v[i].size()) + " values");
    } else if (v == "savetxt") {
      int subs = 0, total = 0;
      for (auto& row : m.v) for (int L = 2; L <= (int)row.size(); L++) if (!m.whole || L == m.maxLen) subs += (int)row.size() - L + 1;
      if (op.i(4)) {
        std::map<int, std::vector<int>> sz;
        S err = parseSizes(got, sz);
        if (!err.empty()) bad("incomplete", op, "the size export is malformed: " + err);
        for (auto& kv : sz) for (int n : kv.second) total += n;
      } else {
        GDump d;
        S err = parseDump(got, d);
        if (!err.empty()) bad("incomplete", op, "the text export is malformed: " + err);
        for (auto& kv : d.byLen) for (auto& g : kv.second) total += (int)g.members.size();
      }
      if (total != subs) bad("incomplete", op, "the export covers " + std::to_string(total) + " of " + std::to_string(subs) + " subsequences");
    } else {
      // a group file must load into a fresh session with the same data
      GenexAPI* b = fresh();
      try {
        putModel(*b, "x", m);
        { Sut z; b->loadGroups("x", op.a[3]); }
      } catch (const std::exception& e) { bad("incomplete", op, S("the saved group file does not load: ") + e.what()); }
      GDump d1, d2;
      S err;
      if (!dumpOf(a, name, d1, err) || !dumpOf(*b, "x", d2, err)) bad("incomplete", op, "groups unreadable: " + err);
      S df = diff(d1.canon(), d2.canon());
      if (!df.empty()) bad("incomplete", op, "the saved group file restores other groups: " + df);
      { Sut z; delete b; }
    }
  }
  // dataset file loads back to six significant digits
  void checkDataRound(const Op& op) {
    Probe pr;
    sh->oracleChecks++;
    int s = op.i(1);
    MData& m = data(s, op.a[2]);
    GenexAPI* b = fresh();
    try {
      int rows;
      { Sut z; rows = b->loadDataset("x", op.a[3], S(1, op.a[4][0]), 0, 0, !m.names.empty()).itemCount; }
      if (rows != (int)m.v.size()) bad("roundtrip", op, "reloaded dataset has " + std::to_string(rows) + " series, saved " + std::to_string(m.v.size()));
      for (int k = 0; k < rows; k++) {
        S nm;
        int len;
        { Sut z; nm = b->getTimeSeriesName("x", k); len = b->getTimeSeriesLength("x", k); }
        if (!m.names.empty() && nm != m.names[k]) bad("roundtrip", op, "series " + std::to_string(k) + " comes back named '" + nm + "', was '" + m.names[k] + "'");
        if (len != (int)m.v[k].size()) bad("roundtrip", op, "series " + std::to_string(k) + " comes back with length " + std::to_string(len) + ", was " + std::to_string(m.v[k].size()));
        if (!len) continue;
        std::vector<double> got;
        { Sut z; genex::TimeSeries t = b->getTimeSeries("x", k, 0, len); Internal in; for (int j = 0; j < len; j++) got.push_back(t[j]); }
        for (int j = 0; j < len; j++) {
          double w = m.v[k][j];
          if (!(std::fabs(got[j] - w) <= 5.1e-6 * std::fabs(w)) && got[j] != w && !(std::isnan(got[j]) && std::isnan(w))) bad("roundtrip", op, "value " + std::to_string(j) + " of series " + std::to_string(k) + " comes back as " + num(got[j]) + ", was " + num(w));
        }
      }
    } catch (const std::exception& e) { bad("roundtrip", op, S("the saved dataset does not load: ") + e.what()); }
    { Sut z; delete b; }
    values(op, ses(s), op.a[2], m);
  }
  // number of series and greatest length, which a group file is saved for
  static S shape(const S& dims) {
    std::istringstream in(dims);
    S n, x;
    std::getline(in, n, ',');
    int most = 0;
    while (std::getline(in, x, ',')) most = std::max(most, atoi(x.c_str()));
    return n + "x" + std::to_string(most);
  }
  static S members(const S& groups) {    // without the representatives' values
    std::istringstream in(groups);
    std::vector<S> l;
    S x, t;
    while (std::getline(in, x)) { size_t a = x.find('{'), b = x.find('}'); if (a != S::npos && b != S::npos) x.erase(a, b - a + 1); l.push_back(x); }
    // groups are ordered by representative, so order them anew within each length
    for (size_t i = 0; i < l.size();) { size_t e = i + 1; while (e < l.size() && l[e].compare(0, 2, "  ") == 0) e++; std::sort(l.begin() + (long)i + 1, l.begin() + (long)e); i = e; }
    for (auto& y : l) t += y + "\n";
    return t;
  }
  void checkLoadedGroups(const Op& op, const Res& r) {
    sh->oracleChecks++;
    int s = op.i(1);
    bool bin = op.verb() == "loadgrp";
    auto it = saved.find((bin ? "B" : "T") + op.a[3]);
    if (it == saved.end() && (bin || allSubs(data(s, op.a[2])))) bad("groupfile", op, "a file that is no saved group file was accepted");
    // nothing protects the numbers of a text export: whatever is accepted is a partition
    MData& m = data(s, op.a[2]);
    auto fits = [&] {
      GDump d;
      S err;
      if (dumpOf(ses(s), op.a[2], d, err)) m.whole = m.maxLen > 2 && d.minLen == m.maxLen;
      checkPartition(op, r, s, op.a[2], false);
    };
    if (!bin && (it == saved.end() || !it->second.clean)) return fits();
    S now = curDump(s, op.a[2]), dm = dims(m), vk = valueKey(m), df = "no groups were saved for a dataset with lengths " + dm;
    bool found = false, other = false;
    for (auto& c : it->second.cand) {
      if (shape(c.dims) != shape(dm)) continue;
      if (c.values != vk) { other = other || members(c.groups) == members(now); continue; }
      if (c.groups == now) found = true;
      df = diff(c.groups, now);
    }
    if (it->second.clean && it->second.cand.back().dims == dm && it->second.cand.back().values == vk) {
      df = diff(it->second.cand.back().groups, now);
      found = df.empty();
    } else if (other && !found) {        // the file cannot tell other values: the same members
      found = true;
      fits();
    }
    if (!found) bad("groupfile", op, "restored groups differ from the saved ones: " + df);
    GDump d;
    S err;
    dumpOf(ses(s), op.a[2], d, err);
    if (r.count != d.count) bad("groupfile", op, "returned " + std::to_string(r.count) + " groups, there are " + std::to_string(d.count));
  }
  // a fixed battery of queries against the groups of a dataset
  S battery(int s, const S& name) {
    Probe pr;
    MData& m = data(s, name);
    GenexAPI& a = ses(s);
    S out;
    int used = 0;
    for (int k = 0; k < (int)m.v.size() && used < 4; k++) {
      int L = (int)m.v[k].size();
      if (L < 2) continue;
      used++;
      int b = k % 2 && L > 3 ? 1 : 0, e = L;
      try {
        candidate_time_series_t c;
        { Sut z; c = a.getBestMatch(name, name, k, b, e); }
        out += "best " + num(c.dist) + "\n";
      } catch (const std::exception& x) { out += S("best refused\n"); }
      try {
        Cands c;
        { Sut z; c = a.getKBestMatches(3, 5, name, name, k, b, e); }
        out += "kbest";
        for (auto& x : c) out += " " + num(x.dist);
        out += "\n";
      } catch (const std::exception& x) { out += S("kbest refused\n"); }
    }
    return out;
  }

  // ------------------------------------------------------------ one operation with its oracles
  void histLine(const S& l) { if (sh->histLen + l.size() < HISTSZ) { memcpy(sh->hist + sh->histLen, l.data(), l.size()); sh->histLen += (uint32_t)l.size(); } }
  static bool isQuery(const S& v) { return v == "best" || v == "kbest" || v == "kbf" || v == "kpaa" || v == "dist" || v == "match"; }
  // the same query again and again: same answer, no growing work, no growing memory
  void checkGrowth(const Op& op, const Res& first) {
    Probe pr;
    sh->oracleChecks++;
    uint64_t base = 0, steps = 0;
    for (int i = 0; i < 6; i++) {
      Res r = call(op, false);
      lastCands.clear(); lastCands.shrink_to_fit();
      if (!r.ok || r.text != first.text) bad("history", op, "asked again, the query answers '" + (r.ok ? r.text : r.err).substr(0, 300) + "' instead of '" + first.text.substr(0, 300) + "'");
      uint64_t live = heap().liveBytes;
      if (i == 1) { base = live; steps = lastSteps; }
      if (i > 1 && live > base) bad("growth", op, "every further identical query keeps memory: " + std::to_string(base) + " bytes held before, " + std::to_string(live) + " after");
      if (i > 1 && lastSteps > steps + steps / 20 + 200) bad("growth", op, "every further identical query does more work: " + std::to_string(steps) + " steps, then " + std::to_string(lastSteps));
    }
  }
  // the same question about an equal piece elsewhere: same answer, nothing kept
  void checkEqual(const Op& op, const Res& first) {
    const S& v = op.verb();
    size_t at = v == "kbf" || v == "kpaa" ? 5 : v == "dist" || v == "match" ? 3 : v == "best" ? 4 : v == "kbest" ? 6 : 0;
    if (!at || !has(op.i(1), op.a[at - 1])) return;
    const MData& m = data(op.i(1), op.a[at - 1]);
    int len = 0, idx = op.i(at), st = op.i(at + 1);
    if (!validRange(m, idx, st, op.i(at + 2), len) || len < 1) return;
    if (st < 0) st = 0;
    Probe pr;
    int asked = 0;
    uint64_t base = heap().liveBytes;
    for (int i = 0; i < (int)m.v.size() && asked < 3; i++)
      for (int b = 0; b + len <= (int)m.v[i].size() && asked < 3; b++) {
        if ((i == idx && b == st) || memcmp(&m.v[i][b], &m.v[idx][st], sizeof(double) * (size_t)len)) continue;
        Op q = op;
        q.a[at] = std::to_string(i); q.a[at + 1] = std::to_string(b); q.a[at + 2] = std::to_string(b + len);
        if (!asked) base = heap().liveBytes;
        asked++;
        sh->oracleChecks++;
        Res r = call(q, false);
        lastCands.clear(); lastCands.shrink_to_fit();
        if (!r.ok || r.text != first.text) bad("history", op, "asked about equal values elsewhere (" + q.a[at] + " " + q.a[at + 1] + " " + q.a[at + 2] + "), the query answers '" + (r.ok ? r.text : r.err).substr(0, 300) + "' instead of '" + first.text.substr(0, 300) + "'");
        uint64_t live = heap().liveBytes;
        if (live > base) bad("growth", op, "the same query about equal values elsewhere (" + q.a[at] + " " + q.a[at + 1] + " " + q.a[at + 2] + ") keeps memory: " + std::to_string(base) + " bytes held before, " + std::to_string(live) + " after");
      }
  }
  // questions about other pieces of the same series: none leaves memory behind
  void checkOthers(const Op& op) {
    const S& v = op.verb();
    size_t at = v == "kbf" || v == "kpaa" ? 5 : v == "dist" || v == "match" ? 3 : 0;
    if (!at || !has(op.i(1), op.a[at - 1])) return;
    const MData& m = data(op.i(1), op.a[at - 1]);
    if (op.i(at) < 0 || op.i(at) >= (int)m.v.size()) return;
    Probe pr;
    sh->oracleChecks++;
    int n = (int)m.v[op.i(at)].size();
    uint64_t base = 0;
    int asked = 0;
    for (int s = 0; s < n && asked < 8; s++)
      for (int e = n; e >= s + 2 && e > n - 2 && asked < 8; e--) {
        Op q = op;
        q.a[at + 1] = std::to_string(s);
        q.a[at + 2] = std::to_string(e);
        if (expect(q) != OK) continue;
        call(q, false);
        lastCands.clear(); lastCands.shrink_to_fit();
        uint64_t live = heap().liveBytes;
        if (asked && live > base) bad("growth", op, "a further query, about values " + q.a[at + 1] + " to " + q.a[at + 2] + ", keeps memory: " + std::to_string(base) + " bytes held before, " + std::to_string(live) + " after");
        base = live;
        asked++;
      }
  }
  void hist(const Op& op, const Res& r) {
    S l = "R\t" + std::to_string(op.id) + "\t" + (r.ok ? "ok" : "fail") + "\t" + std::to_string(lastSteps) + "\t" + esc(r.ok ? r.text : r.err) + "\n";
    histLine(l);
    note(r.ok ? "ok" : "fail", op.id, (int64_t)hashStr(r.ok ? r.text : r.err));
    if (op.id < MAXOPS) sh->outcome[op.id] = r.ok ? 1 : 2;
  }
  void workersGone(const Op& op) {
    int l = liveThreads(), u = unjoinedThreads();
    if (l || u) bad("threads", op, std::to_string(l) + " worker threads still running and " + std::to_string(u) + " not joined when the call returned");
  }
  static bool mutating(const S& v) { return v == "load" || v == "unload" || v == "norm" || v == "group" || v == "loadgrp" || v == "loadtxt" || v == "paa"; }

  void step(const Op& op) {
    const S& v = op.verb();
    if (v == "restart") { crashNow(op); }
    Exp ex = expect(op);
    bool fatal = fatalFault(op.id);
    S before;
    bool wantSnap = o.snapOnFail && v != "damage";
    if (wantSnap) { ses(op.i(1)); before = snapAll(); }   // the session itself is opened by the harness
    S dimsBefore = (v == "loadgrp" || v == "loadtxt") && has(op.i(1), op.a[2]) ? dims(data(op.i(1), op.a[2])) : "";
    curOpPtr = &op;
    vfs::clearFailure();
    Res r = call(op, true);
    hist(op, r);
    if (r.ok && o.saveComplete && (v == "save" || v == "savegrp" || v == "savetxt") && vfs::failure()) bad("unreported", op, S("a failing ") + vfs::failure() + " was not reported");
    if (o.threads) { sh->oracleChecks++; workersGone(op); }
    if (r.ok && ex == FAIL && (o.refuse || (o.groupFile && (v == "loadgrp" || v == "loadtxt")))) bad("accepted", op, "the request is invalid but was accepted, answer: " + r.text.substr(0, 200));
    if (!r.ok && ex == OK && !fatal && o.mustOk.count(v)) bad("failed", op, "a valid request failed: " + r.err);
    if (!r.ok && ex == ANY && !fatal && o.groupRef && v == "group" && has(op.i(1), op.a[2])) {
      GDump ref;
      int cnt = 0;
      S err;
      sh->oracleChecks++;
      if (refDump(ses(op.i(1)), op.a[2], data(op.i(1), op.a[2]), op.a[4], op.d(3), op.i(6) != 0, ref, cnt, err)) bad("failed", op, "fails with '" + r.err + "', single-threaded grouping of the same data succeeds");
    }
    if (!r.ok && wantSnap) {
      sh->oracleChecks++;
      S df = diff(before, snapAll());
      if (!df.empty()) bad("changed", op, "failed with '" + r.err + "' but changed the session: " + df);
    }
    bool retried = false;
    if (!r.ok && o.retry && fatal && ex == OK && o.mustOk.count(v)) {
      // bounded liveness: faults have stopped
      updateModel(op, r);
      r = call(op, false);
      hist(op, r);
      retried = true;
      sh->oracleChecks++;
      if (!r.ok) bad("retry", op, "still fails after the fault is gone: " + r.err);
      if (o.threads) workersGone(op);
    }
    (void)retried;
    if (r.ok && ex == FAIL && !o.refuse && mode.kind != "iso") { sh->tags[0]++; finish(S_OK); }   // another property's business; the model cannot follow
    bool grp = v == "group" || v == "loadgrp" || v == "loadtxt";
    if (r.ok && (v == "loadgrp" || v == "loadtxt") && o.groupFile) checkLoadedGroups(op, r);
    updateModel(op, r);
    if (r.ok && o.recordFiles && (v == "load" || v == "loadgrp" || v == "loadtxt")) {
      S c;
      vfs::get(op.a[3], c);
      histLine("F\t" + std::to_string(op.id) + "\t" + esc(c) + "\n");
    }
    if (r.ok && o.growth && isQuery(v)) { checkGrowth(op, r); checkEqual(op, r); checkOthers(op); }
    if (r.ok) {
      if (grp && o.partition && !data(op.i(1), op.a[2]).foreign) checkPartition(op, r, op.i(1), op.a[2]);
      if (v == "group" && o.groupRef) checkRef(op, r, op.i(1), op.a[2], op.a[4], op.d(3), op.i(6) != 0);
      if (v == "load" && o.loadExact) {
        sh->oracleChecks++;
        MData& m = data(op.i(1), op.a[2]);
        genex::dataset_metadata_t i;
        { Probe pr; Sut z; i = ses(op.i(1)).getDatasetInfo(op.a[2]); }
        if (i.itemCount != (int)m.v.size() || i.itemLength != m.maxLen) bad("values", op, "loaded " + std::to_string(i.itemCount) + "x" + std::to_string(i.itemLength) + ", the file holds " + std::to_string(m.v.size()) + "x" + std::to_string(m.maxLen));
        { Probe pr; values(op, ses(op.i(1)), op.a[2], m); }
      }
      if (o.saveComplete && (v == "save" || v == "savegrp" || v == "savetxt")) checkComplete(op);
      if (o.dataRound && v == "save") checkDataRound(op);
      if (o.genuine && lastIsCands) checkGenuine(op, r);
      S kind = v == "savegrp" || v == "loadgrp" ? "B" : "T";
      if (o.restoredQueries && (v == "savegrp" || (v == "savetxt" && !op.i(4)))) queriesAt[kind + op.a[3]] = battery(op.i(1), op.a[2]);
      if (o.restoredQueries && (v == "loadgrp" || v == "loadtxt") && queriesAt.count(kind + op.a[3]) && saved[kind + op.a[3]].clean) {
        sh->oracleChecks++;
        S now = battery(op.i(1), op.a[2]);
        S df = diff(queriesAt[kind + op.a[3]], now);
        if (!df.empty()) bad("queries", op, "queries on the restored groups answer differently: " + df);
      }
    } else if (v == "load" && o.loadExact && ex != FAIL) {
      sh->oracleChecks++;
      Probe pr;
      bool there = true;
      try { Sut z; ses(op.i(1)).getDatasetInfo(op.a[2]); } catch (const std::exception&) { there = false; }
      if (there) bad("values", op, "the load failed but the name is taken");
    }
    if (o.books) checkBooks(op);
    lastCands.clear();
  }
  const Op* curOpPtr = nullptr;

  // ------------------------------------------------------------ crash and restart
  S carry() {
    S c;
    for (auto& kv : saved) {
      c += "saved " + esc(kv.first) + " " + (kv.second.clean ? "1" : "0");
      for (auto& x : kv.second.cand) c += " " + esc(x.dims) + " " + x.values + " " + esc(x.groups);
      c += "\n";
    }
    for (auto& kv : queriesAt) c += "answers " + esc(kv.first) + " " + esc(kv.second) + "\n";
    c += "band " + num(0.1) + "\n";
    return c;
  }
  void loadCarry(const S& t) {
    std::istringstream in(t);
    S l;
    while (std::getline(in, l)) {
      std::istringstream x(l);
      S k, a, b;
      x >> k >> a;
      if (k == "saved") { Saved sv; x >> b; sv.clean = b == "1"; S d, e; while (x >> d >> e >> b) sv.cand.push_back(Cand{unesc(d), e, unesc(b)}); saved[unesc(a)] = sv; }
      else if (k == "answers") { x >> b; queriesAt[unesc(a)] = unesc(b); }
    }
  }
  void putCarry(const Op* inside, bool powerLoss) {
    // a save that was in progress may have left the old content, the new content or a torn mixture
    if (inside && (inside->verb() == "savegrp" || inside->verb() == "savetxt" || inside->verb() == "save") && !badPath(inside->a[3])) {
      unclean(inside->a[3]);
      if (havePending) { Saved& x = saved[(inside->verb() == "savegrp" ? "B" : "T") + inside->a[3]]; x.cand.push_back(pending); x.clean = false; }
    }
    if (powerLoss) for (auto& kv : saved) kv.second.clean = false;
    S c = carry();
    if (c.size() >= sizeof sh->carry) internalError("carry area too small");
    memcpy(sh->carry, c.data(), c.size());
    sh->carryLen = (uint32_t)c.size();
  }
  Cand pending;
  bool havePending = false;
  void crashNow(const Op& op) {
    setOp(op.id);
    if (op.id < MAXOPS) sh->outcome[op.id] = 3;
    int image = op.a.size() > 2 ? op.i(2) : 0;
    putCarry(nullptr, image == 1);
    vfs::saveImage(image, op.a.size() > 3 ? (uint64_t)op.i(3) : 1);
    finish(S_CRASH);
  }
};

thread_local Cands World::lastCands;
thread_local bool World::lastIsCands = false;
thread_local double World::lastDist = 0;
thread_local uint64_t World::lastSteps = 0;

static World* g_world;
static void onCrash(int image) {
  Internal in;
  const Op* op = g_world->curOpPtr;
  if (op && op->id < MAXOPS) sh->outcome[op->id] = 3;
  g_world->putCarry(op, image == 1);
}

GenexAPI* World::fresh() {
  bool was = false;
  { was = faultsNow(); faultsOn(false); }
  GenexAPI* a;
  { Sut s; a = new GenexAPI(); }
  faultsOn(was);
  return a;
}

// ---------------------------------------------------------------- parallel sessions
struct Client { World* w; int session; std::vector<const Op*> ops; };
static void clientMain(void* arg) {
  Client* c = (Client*)arg;
  for (auto op : c->ops) {
    Res r = c->w->call(*op, true);
    Internal in;
    c->w->hist(*op, r);
  }
}


[[noreturn]] void childMain(const Plan& p, const Mode& m) {
  World* w = new World(p, m);
  g_world = w;
  RunCfg cfg;
  cfg.sched = p.sched;
  cfg.decisions = p.dec;
  cfg.faults = p.faults;
  cfg.clock = p.clock;
  cfg.nprocs = p.nprocs;
  cfg.fill = (uint8_t)p.fill;
  cfg.quarantine = p.quarantine;
  cfg.races = p.opt.count("races") > 0;
  if (p.opt.count("budget")) cfg.stepBudget = strtoull(p.opt.at("budget").c_str(), nullptr, 10);
  g_sink = new Sink();
  std::cout.rdbuf(g_sink);
  std::cerr.rdbuf(g_sink);
  begin(cfg);
  rt::crashHook = onCrash;
  if (m.incarnation == 0) { vfs::reset(); for (auto& f : p.files) vfs::put(f.first, f.second); }
  else {
    std::vector<char> img(sh->image, sh->image + sh->imageLen);
    vfs::loadImage(img.data(), (uint32_t)img.size());
    w->loadCarry(m.carry);
  }
  sh->imageLen = 0;
  if (m.kind == "cli") { runCli(p, g_sink->text); finish(S_OK); }
  if (m.kind == "par" || m.kind == "alone") {
    // sessions on their own threads; "alone" runs them one after the other
    std::map<int, Client> cl;
    for (auto& op : p.ops) { int s = op.i(1); cl[s].w = w; cl[s].session = s; cl[s].ops.push_back(&op); w->ses(s); }
    std::vector<int> tids;
    for (auto& kv : cl) {
      if (m.kind == "alone") clientMain(&kv.second);
      else tids.push_back(spawn(clientMain, &kv.second));
    }
    for (int t : tids) joinSim(t);
    finish(S_OK);
  }
  int reps = p.repeat;
  for (int rep = 0; rep < reps; rep++) {
    for (size_t i = m.firstOp; i < p.ops.size(); i++) {
      const Op& op = p.ops[i];
      sh->opIndex = (int)i;
      w->havePending = (op.verb() == "savegrp" || (op.verb() == "savetxt" && !op.i(4))) && w->has(op.i(1), op.a[2]) && w->data(op.i(1), op.a[2]).grouped;
      if (w->havePending) w->pending = w->curCand(op.i(1), op.a[2]);
      w->step(op);
      w->curOpPtr = nullptr;
    }
    if (m.o.resources) {
      // end of the session: unload everything, then compare with earlier repetitions
      for (auto& kv : w->api) if (kv.second) { { Sut s; delete kv.second; } kv.second = nullptr; w->model[kv.first].clear(); }
      sh->oracleChecks++;
      HeapStat h = heap();
      static std::vector<HeapStat> hs;
      static std::vector<uint64_t> serial;
      hs.push_back(h);
      serial.push_back(heapSerial());
      if (vfs::openCount()) violation("leak", "files still open after the session ended:" + vfs::openList());
      if (liveThreads() || unjoinedThreads()) violation("leak", "threads left after the session ended");
      size_t n = hs.size();
      if (rep == reps - 1 && n >= 4 && hs[n - 1].liveBytes > hs[n - 2].liveBytes && hs[n - 2].liveBytes > hs[n - 3].liveBytes && hs[n - 3].liveBytes > hs[n - 4].liveBytes) {
        // scratch memory that is filled bit by bit stops growing: only what goes on for long is a leak
        if (reps == p.repeat) { reps += 30; moreBudget(10); continue; }
        S t = "memory held after the session ended grows with every repetition:";
        for (auto& x : hs) if (&x - &hs[0] < 8) t += " " + std::to_string(x.liveBytes);
        t += "; blocks left by the last repetition:" + heapBlocksSince(serial[n - 2], 6);
        violation("leak", t);
      }
    }
  }
  finish(S_OK);
}
