#include "run.hpp"

#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <sstream>

using namespace rt;
typedef std::string S;

void makeShared() {
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); _exit(3); }
}

void Stats::add(const Out& o) {
  children++;
  steps += o.steps; switches += o.switches; syncs += o.syncs; oracle += o.oracle; calls += o.calls; fails += o.fails;
  crashes += o.status == S_CRASH;
  if (o.simNs > 0) simNs += o.simNs;
  maxThreads = std::max(maxThreads, o.maxThreads);
  maxSteps = std::max(maxSteps, o.steps);
  for (int k = 0; k < NKIND; k++) { fired[k] += o.fired[k]; seen[k] += o.seen[k]; }
}

static const int WALL_MS = 60000;

Out runChild(const Plan& p, const Mode& m, Counts* counts, S* outcome) {
  // reset the header part; the large areas are governed by their lengths
  uint32_t keepImage = m.incarnation ? sh->imageLen : 0;
  sh->status = S_RUNNING; sh->curOp = -1; sh->vkind[0] = sh->msg[0] = 0;
  sh->trace = 1; sh->inter = 1; sh->steps = sh->ssteps = sh->switches = sh->syncs = 0; sh->simNs = 0; sh->maxThreads = 0;
  memset(sh->fired, 0, sizeof sh->fired); memset(sh->seen, 0, sizeof sh->seen);
  memset(sh->counts, 0, sizeof sh->counts); memset(sh->outcome, 0, sizeof sh->outcome); memset(sh->tags, 0, sizeof sh->tags);
  sh->oracleChecks = sh->apiCalls = sh->apiFails = 0;
  sh->ndec = 0; sh->decOverflow = 0; sh->histLen = 0; sh->carryLen = 0; sh->imageLen = keepImage; sh->opIndex = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(3); }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (!getenv("GENEXSIM_STDERR")) {   // messages of a dying child are of no interest
      int n = (int)raw(SYS_openat, -100, (long)"/dev/null", 1 /* O_WRONLY */, 0);
      if (n >= 0) { raw(SYS_dup2, n, 2); raw(SYS_dup2, n, 1); }
    }
    childMain(p, m);
  }
  Out o;
  int pfd = (int)raw(SYS_pidfd_open, pid, 0);
  int st = 0;
  if (pfd >= 0) {
    struct pollfd pf = {pfd, POLLIN, 0};
    int r;
    do r = poll(&pf, 1, WALL_MS); while (r < 0 && errno == EINTR);
    raw(SYS_close, pfd);
    if (r == 0) { o.timeout = true; kill(pid, SIGKILL); }
  }
  waitpid(pid, &st, 0);
  o.status = sh->status;
  if (WIFSIGNALED(st)) o.sig = WTERMSIG(st);
  else o.exitCode = WEXITSTATUS(st);
  o.vkind = sh->vkind; o.msg = sh->msg;
  o.trace = sh->trace; o.inter = sh->inter; o.steps = sh->steps; o.ssteps = sh->ssteps; o.switches = sh->switches; o.syncs = sh->syncs;
  o.maxThreads = sh->maxThreads; o.simNs = sh->simNs;
  memcpy(o.fired, sh->fired, sizeof o.fired); memcpy(o.seen, sh->seen, sizeof o.seen); memcpy(o.tags, sh->tags, sizeof o.tags);
  o.oracle = sh->oracleChecks; o.calls = sh->apiCalls; o.fails = sh->apiFails;
  o.dec.assign(sh->dec, sh->dec + sh->ndec);
  o.decOverflow = sh->decOverflow != 0;
  o.hist.assign(sh->hist, sh->histLen);
  o.carry.assign(sh->carry, sh->carryLen);
  o.curOp = sh->curOp; o.opIndex = sh->opIndex;
  if (counts) memcpy(counts->c, sh->counts, sizeof counts->c);
  if (outcome) outcome->assign(sh->outcome, MAXOPS);
  return o;
}

static void judge(const Plan& p, const Out& o, Verdict& v) {
  v.trace = mix(v.trace, o.trace);
  v.inter = mix(v.inter, o.inter);
  v.switches += o.switches; v.oracle += o.oracle; v.calls += o.calls;
  for (auto f : o.fired) v.fired += f;
  S where = " in operation " + std::to_string(o.curOp);
  for (auto& op : p.ops) if (op.id == o.curOp) where += " (" + opText(op) + ")";
  if (o.timeout) { v.bad = true; v.kind = "hang"; v.msg = "no end within the wall clock limit" + where; v.trace = 0; }
  else if (o.status == S_ERROR) { v.error = true; v.msg = o.msg; }
  else if (o.status == S_VIOLATION) { v.bad = true; v.kind = o.vkind; v.msg = o.msg; if (o.vkind == "memory" || o.vkind == "race" || o.vkind == "deadlock" || o.vkind == "hang" || o.vkind == "lock") v.msg += where; }
  else if (o.status == S_RUNNING) {
    if (o.sig == SIGKILL) { v.error = true; v.msg = "child was killed"; }
    else if (o.sig) { v.bad = true; v.kind = "crash"; v.msg = S("the process died of signal ") + strsignal(o.sig) + where; }
    else { v.bad = true; v.kind = "exit"; v.msg = "the process ended with code " + std::to_string(o.exitCode) + where; }
    v.trace = mix(v.trace, (uint64_t)o.sig);
  }
}

struct Line { bool ok; uint64_t steps; S text; };
// an answer with an undefined distance in it has no defined order
static bool sameAnswer(const Line& x, const Line& y) {
  if (x.ok != y.ok) return false;
  return x.text == y.text || (x.text.find("nan") != S::npos && y.text.find("nan") != S::npos);
}
static std::map<int, Line> results(const S& hist, std::map<int, S>* files = nullptr) {
  std::map<int, Line> r;
  std::istringstream in(hist);
  S l;
  while (std::getline(in, l)) {
    std::vector<S> f;
    size_t p = 0;
    for (;;) { size_t q = l.find('\t', p); f.push_back(l.substr(p, q == S::npos ? q : q - p)); if (q == S::npos) break; p = q + 1; }
    if (f[0] == "R" && f.size() >= 5) r[atoi(f[1].c_str())] = Line{f[2] == "ok", strtoull(f[3].c_str(), nullptr, 10), unesc(f[4])};
    else if (f[0] == "F" && files && f.size() >= 3) (*files)[atoi(f[1].c_str())] = unesc(f[2]);
  }
  return r;
}
static const Op* byId(const Plan& p, int id) { for (auto& o : p.ops) if (o.id == id) return &o; return nullptr; }
static bool isQueryVerb(const S& v) { return v == "best" || v == "kbest" || v == "kbf" || v == "kpaa" || v == "dist" || v == "match"; }

// names of the datasets an operation reads
static std::vector<S> namesOf(const Op& op) {
  const S& v = op.verb();
  if (v == "best") return {op.a[2], op.a[3]};
  if (v == "kbest") return {op.a[4], op.a[5]};
  if (v == "kbf" || v == "kpaa") return {op.a[3], op.a[4]};
  if (v == "dist" || v == "match") return {op.a[2], op.a[6]};
  if (op.a.size() > 2) return {op.a[2]};
  return {};
}

// the same plan without the operations that failed
static void checkTwin(const Plan& p, const Mode& m, const Out& main, Verdict& v, Stats* st) {
  auto a = results(main.hist);
  Plan t = p;
  t.ops.clear(); t.faults.clear(); t.dec.clear();
  t.sched = SchedCfg(); t.clock = ClockCfg();
  bool any = false;
  std::set<S> touched;
  for (auto& op : p.ops) {
    auto it = a.find(op.id);
    if (it == a.end()) continue;
    const S& vb = op.verb();
    bool load = vb == "load" || vb == "loadgrp" || vb == "loadtxt";
    if (!it->second.ok) { any = true; if (!load && op.a.size() > 3) touched.insert(op.a[3]); continue; }
    if (load && touched.count(op.a[3])) return;    // what a failed save leaves on disk is not part of this
    t.ops.push_back(op);
  }
  if (!any) return;
  for (auto& f : p.faults) if (byId(t, f.op)) { bool benign = (f.kind == K_READ || f.kind == K_WRITE) && f.err == 0; if (benign || f.kind == K_CLOCK) t.faults.push_back(f); }
  Mode tm = m;
  tm.o = Oracles();
  Out o = runChild(t, tm);
  if (st) st->add(o);
  Verdict w;
  judge(t, o, w);
  v.trace = mix(v.trace, w.trace);
  v.oracle += 1;
  if (w.error || w.bad) { v.bad = w.bad; v.error = w.error; v.kind = w.kind; v.msg = "without the failed operations: " + w.msg; return; }
  auto b = results(o.hist);
  for (auto& op : t.ops) {
    auto x = a.find(op.id), y = b.find(op.id);
    if (y == b.end()) { v.bad = true; v.kind = "twin"; v.msg = "operation " + std::to_string(op.id) + " missing without the failed ones"; return; }
    if (!sameAnswer(x->second, y->second)) {
      v.bad = true; v.kind = "twin";
      v.msg = "op " + std::to_string(op.id) + " (" + opText(op) + ") gives '" + x->second.text.substr(0, 300) + "' after the failed operations, '" + (y->second.ok ? "" : "error: ") + y->second.text.substr(0, 300) + "' without them";
      return;
    }
  }
}

// every query again in a fresh process that was brought straight into the same state
static void checkIsolated(const Plan& p, const Mode& m, const Out& main, Verdict& v, Stats* st) {
  std::map<int, S> files;
  auto a = results(main.hist, &files);
  struct St { std::vector<const Op*> ops; };
  std::map<S, St> state;              // session:name -> operations that lead to its present state
  const Op* band = nullptr;
  int asked = 0;
  for (auto& op : p.ops) {
    auto it = a.find(op.id);
    if (it == a.end() || !it->second.ok) continue;
    const S& vb = op.verb();
    S key = op.a.size() > 2 ? op.a[1] + ":" + op.a[2] : "";
    if (vb == "load") state[key].ops = {&op};
    else if (vb == "unload") state.erase(key);
    else if (vb == "unloadall" || vb == "close") { for (auto k = state.begin(); k != state.end();) if (k->first.compare(0, op.a[1].size() + 1, op.a[1] + ":") == 0) k = state.erase(k); else ++k; }
    else if (vb == "band") band = &op;
    else if (vb == "norm" || vb == "group" || vb == "loadgrp" || vb == "loadtxt" || vb == "paa") {
      auto& o = state[key].ops;
      auto drop = [&](std::initializer_list<const char*> l) {
        o.erase(std::remove_if(o.begin(), o.end(), [&](const Op* x) { for (auto n : l) if (x->verb() == n) return true; return false; }), o.end());
      };
      if (vb == "norm") drop({"group", "loadgrp", "loadtxt", "paa"});
      else if (vb == "paa") drop({"paa"});
      else drop({"group", "loadgrp", "loadtxt"});
      o.push_back(&op);
    } else if (isQueryVerb(vb) && asked < 12) {
      asked++;
      Plan t;
      t.prop = p.prop; t.seed = p.seed; t.fill = p.fill ^ 0x5A;   // other rubbish in fresh memory
      std::set<S> done;
      auto push = [&](const Op& o) { t.ops.push_back(o); };
      for (auto& n : namesOf(op)) {
        if (!done.insert(n).second) continue;
        auto s = state.find(op.a[1] + ":" + n);
        if (s == state.end()) continue;
        for (auto x : s->second.ops) {
          Op o = *x;
          o.a[1] = "0";
          if (o.verb() == "load" || o.verb() == "loadgrp" || o.verb() == "loadtxt") {
            S path = "/sim/iso" + std::to_string(o.id);
            t.files.push_back({path, files[o.id]});
            o.a[3] = path;
          }
          if (o.verb() == "group") o.a[5] = "1";
          push(o);
        }
      }
      if (band) { Op o = *band; o.a[1] = "0"; push(o); }
      { Op o = op; o.a[1] = "0"; push(o); }
      Mode im;
      im.kind = "iso";
      Out r = runChild(t, im);
      if (st) st->add(r);
      Verdict w;
      judge(t, r, w);
      v.trace = mix(v.trace, w.trace);
      v.oracle++;
      if (w.error || w.bad) { v.bad = w.bad; v.error = w.error; v.kind = w.kind; v.msg = "in a fresh session: " + w.msg; return; }
      auto b = results(r.hist);
      auto y = b.find(op.id);
      if (y == b.end() || !sameAnswer(it->second, y->second)) {
        v.bad = true; v.kind = "history";
        v.msg = "op " + std::to_string(op.id) + " (" + opText(op) + ") answers '" + it->second.text.substr(0, 400) + "' after this history, a fresh session answers '" + (y == b.end() ? S("nothing") : (y->second.ok ? "" : "error: ") + y->second.text.substr(0, 400)) + "'";
        return;
      }
      if (it->second.steps > y->second.steps + y->second.steps / 4 + 3000) {
        v.bad = true; v.kind = "growth";
        v.msg = "op " + std::to_string(op.id) + " (" + opText(op) + ") takes " + std::to_string(it->second.steps) + " steps after this history, " + std::to_string(y->second.steps) + " in a fresh session";
        return;
      }
    }
  }
}

static void checkAlone(const Profile& pf, const Plan& p, const Out& main, Verdict& v, Stats* st) {
  auto a = results(main.hist);
  std::set<int> sessions;
  for (auto& op : p.ops) sessions.insert(op.i(1));
  for (int s : sessions) {
    Plan t = p;
    t.ops.clear(); t.faults.clear(); t.dec.clear();
    t.sched = SchedCfg();
    t.opt.erase("races");
    bool faulted = false;
    for (auto& op : p.ops) if (op.i(1) == s) t.ops.push_back(op);
    for (auto& f : p.faults) if (byId(t, f.op)) faulted = true;
    if (faulted) continue;
    Mode m;
    m.kind = "alone";
    Out o = runChild(t, m);
    if (st) st->add(o);
    Verdict w;
    judge(t, o, w);
    v.trace = mix(v.trace, w.trace);
    v.oracle++;
    if (w.error || w.bad) { v.bad = w.bad; v.error = w.error; v.kind = w.kind; v.msg = "session alone: " + w.msg; return; }
    auto b = results(o.hist);
    for (auto& op : t.ops) {
      auto x = a.find(op.id), y = b.find(op.id);
      if (x == a.end() || y == b.end()) { v.bad = true; v.kind = "alone"; v.msg = "operation " + std::to_string(op.id) + " has no result"; return; }
      if (!sameAnswer(x->second, y->second)) {
        v.bad = true; v.kind = "alone";
        v.msg = "op " + std::to_string(op.id) + " (" + opText(op) + ") gives '" + (x->second.ok ? "" : "error: ") + x->second.text.substr(0, 300) + "' next to other sessions, '" + (y->second.ok ? "" : "error: ") + y->second.text.substr(0, 300) + "' alone";
        return;
      }
    }
  }
}

Verdict evaluate(const Profile& pf, const Plan& p, Stats* st) {
  Verdict v;
  Mode m;
  m.o = pf.o;
  m.kind = pf.kind;
  Out first;
  S hist;
  for (int inc = 0; inc < 8; inc++) {
    m.incarnation = inc;
    Out o = runChild(p, m);
    if (st) st->add(o);
    v.incarnations = inc + 1;
    judge(p, o, v);
    hist += o.hist;
    if (inc == 0) { v.dec = o.dec; v.decValid = !o.decOverflow; } else v.decValid = false;
    if (v.bad || v.error) break;
    if (o.status != S_CRASH) { first = o; break; }
    m.firstOp = (size_t)o.opIndex + 1;
    m.carry = o.carry;
  }
  if (!v.bad && !v.error && v.incarnations == 1) {
    Mode base = m;
    base.incarnation = 0; base.firstOp = 0; base.carry.clear();
    if (pf.twin) checkTwin(p, base, first, v, st);
    if (!v.bad && !v.error && pf.isolate) checkIsolated(p, base, first, v, st);
    if (!v.bad && !v.error && pf.kind == "par") checkAlone(pf, p, first, v, st);
  }
  if (st) { st->verdicts++; st->withFault += v.fired > 0; st->withSwitch += v.switches > 0; }
  return v;
}

// ---------------------------------------------------------------- schedules and fault placement
static void drawSchedule(Rng& r, Plan& p, uint64_t horizon) {
  SchedCfg& s = p.sched;
  s.seed = r.next() >> 1;
  if (horizon < 20) horizon = 20;
  switch (r.below(8)) {
    case 0: s.policy = P_SERIAL; break;
    case 1: case 2: case 3: {
      static const int64_t means[] = {2, 7, 30, 120, 500, 2500, 10000};
      s.policy = P_RANDOM; s.mean = means[r.below(7)];
      static const double ps[] = {0.05, 0.3, 0.6, 1.0};
      s.psync = ps[r.below(4)];
      break;
    }
    case 4: case 5: s.policy = P_PCT; s.depth = (int)r.range(1, 6); s.horizon = (int64_t)horizon; break;
    case 6: s.policy = P_RR; s.mean = (int64_t)(1 + r.below(r.chance(0.5) ? 20 : 3000)); break;
    default: s.policy = P_STARVE; s.victim = (int)r.below(6); s.mean = (int64_t)(5 + r.below(400)); s.psync = 0.5; s.horizon = (int64_t)(1 + r.below(horizon * 2)); break;
  }
  s.pspur = r.chance(0.4) ? (r.chance(0.5) ? 0.05 : 0.4) : 0;
}

static int64_t position(Rng& r, uint32_t count) {
  if (count <= 1) return 1;
  switch (r.below(4)) {
    case 0: return 1 + (int64_t)r.below(std::min<uint64_t>(count, 6));
    case 1: return (int64_t)count - (int64_t)r.below(std::min<uint64_t>(count, 6));
    default: return 1 + (int64_t)r.below(count);
  }
}
static void placeFaults(Rng& r, const FaultSpec& fs, Plan& p, const Counts& c) {
  if (fs.kinds.empty() || r.chance(fs.none)) return;
  int n = 1 + (int)r.below((uint64_t)fs.max);
  for (int k = 0; k < n; k++) {
    Fault f;
    f.kind = fs.kinds[r.below(fs.kinds.size())];
    int site = f.kind == K_DISKFULL ? (int)K_WRITE : f.kind;
    std::vector<const Op*> cand;
    for (auto& op : p.ops) {
      if (op.id >= MAXOPS || c.c[op.id][site] == 0) continue;
      if (!fs.verbs.empty() && std::find(fs.verbs.begin(), fs.verbs.end(), op.verb()) == fs.verbs.end()) continue;
      bool taken = false;
      for (auto& g : p.faults) if (g.op == op.id && g.kind == f.kind) taken = true;
      if (!taken) cand.push_back(&op);
    }
    if (cand.empty()) continue;
    const Op& op = *cand[r.below(cand.size())];
    f.op = op.id;
    uint32_t cnt = c.c[op.id][site];
    f.nth = position(r, cnt);
    switch (f.kind) {
      case K_ALLOC: f.sticky = r.chance(0.75) ? 0 : (int64_t)r.below(r.chance(0.5) ? 3 : 1000); break;
      case K_THREAD: f.err = EAGAIN; f.sticky = r.chance(0.7) ? 0 : 100; break;
      case K_OPEN: { static const int e[] = {EACCES, EMFILE, EIO, ENFILE}; f.err = e[r.below(4)]; break; }
      case K_READ:
        if (fs.benign || r.chance(0.25)) {
          if (r.chance(0.3)) { f.err = EINTR; f.sticky = (int64_t)r.below(3); }
          else { f.arg = r.chance(0.4) ? 1 : 1 + (int64_t)r.below(200); f.nth = r.chance(0.6) ? 1 : f.nth; f.sticky = r.chance(0.7) ? 1000000 : 0; }
        } else { f.err = EIO; f.sticky = r.chance(0.6) ? 0 : 1000000; }
        break;
      case K_WRITE:
        if (fs.benign || r.chance(0.2)) {
          if (r.chance(0.3)) { f.err = EINTR; f.sticky = (int64_t)r.below(3); }
          else { f.arg = r.chance(0.4) ? 1 : 1 + (int64_t)r.below(200); f.sticky = r.chance(0.7) ? 1000000 : 0; }
        } else { static const int e[] = {EIO, ENOSPC, EDQUOT, EFBIG}; f.err = e[r.below(4)]; f.sticky = r.chance(0.5) ? 0 : 1000000; }
        break;
      case K_CLOSE: f.err = r.chance(0.5) ? EIO : ENOSPC; break;
      case K_SEEK: f.err = EIO; break;
      case K_SYNC: case K_RENAME: f.err = EIO; break;
      case K_CLOCK: {
        static const int64_t j[] = {11000000000ll, 10000000000ll, 3600000000000ll, -5000000000ll, -3600000000000ll, 9999999999ll, 400ll * 86400 * 1000000000ll};
        f.arg = j[r.below(7)];
        break;
      }
      case K_CRASH: f.err = (int)r.below(2); f.arg = (int64_t)(r.next() >> 2); break;
      case K_DISKFULL: f.nth = 1; f.arg = r.chance(0.3) ? 0 : (int64_t)r.below(r.chance(0.5) ? 100 : 20000); break;
    }
    p.faults.push_back(f);
  }
}

// keeps grouping far below the step budget: expensive ones become whole-series groupings
static void lighten(Plan& p) {
  std::map<S, double> cost, least;      // of a file, whatever its separators; with a single group per length
  for (auto& f : p.files) {
    std::map<int, double> n;
    std::istringstream in(f.second);
    S l;
    while (std::getline(in, l)) {
      int c = 0;
      bool on = false;
      for (char ch : l) { bool s = strchr(" ,;\t|", ch) != nullptr; c += !s && !on; on = !s; }
      for (int k = 2; k <= c; k++) n[k] += c - k + 1;
    }
    double x = 0, y = 0;
    for (auto& e : n) { x += e.second * e.second * e.first; y += e.second * e.first; }
    cost[f.first] = x;
    least[f.first] = y;
  }
  std::map<S, double> holds, holdsLeast;
  double most = 0;
  for (auto& c : cost) most = std::max(most, c.second);
  for (auto& op : p.ops) {
    if (op.verb() == "load" && op.a.size() > 3) holds[op.a[1] + ":" + op.a[2]] = cost.count(op.a[3]) ? cost[op.a[3]] : most;
    if (op.verb() == "load" && op.a.size() > 3) holdsLeast[op.a[1] + ":" + op.a[2]] = least.count(op.a[3]) ? least[op.a[3]] : most;
    if (op.verb() == "group" && op.a.size() > 6 && (op.a[3] == "1e12" ? holdsLeast : holds)[op.a[1] + ":" + op.a[2]] > 1e6) op.a[6] = "1";
  }
}

bool makePlan(const Profile& pf, uint64_t seed, uint64_t index, Plan& p, Stats* st) {
  Rng r(mix(mix(seed, hashStr(pf.id)), index));
  p = Plan();
  p.prop = pf.id;
  p.seed = mix(seed, index) >> 1;
  static const int fills[] = {0xA5, 0x00, 0xFF, 0x7F, 0x01};
  p.fill = fills[r.below(5)];
  if (r.chance(0.35)) p.quarantine = r.chance(0.7) ? 0 : (int)r.range(1, 20);
  if (pf.races) p.opt["races"] = "1";
  pf.gen(r, p);
  lighten(p);
  Counts c;
  bool needDry = !pf.fs.kinds.empty() || pf.concurrent;
  uint64_t horizon = 1000;
  if (needDry) {
    Mode m;
    m.kind = pf.kind;
    Plan d = p;
    d.repeat = 1;
    d.opt.erase("races");
    memset(&c, 0, sizeof c);
    // walk through planned restarts to see all fault sites
    for (int inc = 0; inc < 8; inc++) {
      Counts one;
      m.incarnation = inc;
      Out o = runChild(d, m, &one);
      if (st) st->add(o);
      for (int i = 0; i < MAXOPS; i++) for (int k = 0; k < NKIND; k++) if (one.c[i][k]) c.c[i][k] = one.c[i][k];
      horizon = std::max<uint64_t>(horizon, o.ssteps);
      if (o.status != S_CRASH) break;
      m.firstOp = (size_t)o.opIndex + 1;
      m.carry = o.carry;
    }
    placeFaults(r, pf.fs, p, c);
  }
  if (pf.concurrent) drawSchedule(r, p, horizon);
  else { p.sched.policy = P_SERIAL; p.sched.seed = r.next() >> 1; }
  return true;
}
