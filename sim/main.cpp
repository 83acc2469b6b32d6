// Driver: seeded search over plans, minimisation, replay, evidence.
#include "run.hpp"

#include <errno.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <sstream>
#include <unordered_set>

using namespace rt;
typedef std::string S;

static double now() { struct timespec t; raw(228 /* clock_gettime */, 1, (long)&t); return t.tv_sec + t.tv_nsec * 1e-9; }
static S slurp(const S& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }

// ---------------------------------------------------------------- known findings
struct Known { S kind, match, what; mutable bool hit = false; };
static std::vector<Known> loadKnown(const S& path, const S& prop) {
  // known: property=<id> kind=<kind> match=<text, escaped> <what fails>
  std::vector<Known> r;
  std::ifstream f(path);
  S l;
  while (std::getline(f, l)) {
    if (l.compare(0, 7, "known: ") != 0) continue;
    std::istringstream in(l.substr(7));
    S a, b, c, rest;
    in >> a >> b >> c;
    std::getline(in, rest);
    if (a != "property=" + prop || b.compare(0, 5, "kind=") || c.compare(0, 6, "match=")) continue;
    Known k;
    k.kind = b.substr(5); k.match = unesc(c.substr(6)); k.what = rest.empty() ? "" : rest.substr(1);
    r.push_back(k);
  }
  return r;
}
static int knownIndex(const std::vector<Known>& ks, const Verdict& v) {
  for (size_t i = 0; i < ks.size(); i++) if (ks[i].kind == v.kind && v.msg.find(ks[i].match) != S::npos) return (int)i;
  return -1;
}

// ---------------------------------------------------------------- minimisation
struct Minimiser {
  const Profile& pf;
  const std::vector<Known>& known;
  S kind;
  double deadline;
  Stats* st;
  int tries = 0, accepted = 0;
  bool out() { return now() > deadline; }
  bool test(const Plan& p) {
    if (out()) return false;
    tries++;
    Verdict v = evaluate(pf, p, st);
    bool ok = v.bad && !v.error && v.kind == kind && knownIndex(known, v) < 0;
    accepted += ok;
    return ok;
  }
  // removes as many elements of vec(p) as possible
  template <class V> bool shrink(Plan& p, V Plan::*m) {
    bool any = false;
    size_t chunk = std::max<size_t>(1, (p.*m).size() / 2);
    while (!out()) {
      bool removed = false;
      for (size_t at = 0; at < (p.*m).size();) {
        if (out()) return any;
        Plan q = p;
        auto& v = q.*m;
        size_t e = std::min(v.size(), at + chunk);
        v.erase(v.begin() + at, v.begin() + e);
        if (test(q)) { p = q; any = removed = true; }
        else at += chunk;
      }
      if (chunk == 1 && !removed) break;
      if (!removed || chunk > (p.*m).size()) chunk = std::max<size_t>(1, chunk / 2);
    }
    return any;
  }
  bool shrinkFiles(Plan& p) {
    bool any = shrink(p, &Plan::files);
    for (size_t i = 0; i < p.files.size(); i++) {
      for (size_t at = 0; !out();) {
        S& c = p.files[i].second;
        if (at >= c.size()) break;
        size_t e = c.find('\n', at);
        e = e == S::npos ? c.size() : e + 1;
        Plan q = p;
        q.files[i].second.erase(at, e - at);
        if (test(q)) { p = q; any = true; }
        else at = e;
      }
      // drop trailing columns everywhere
      for (int k = 0; k < 12 && !out(); k++) {
        std::istringstream in(p.files[i].second);
        S l, t;
        bool cut = false;
        while (std::getline(in, l)) { size_t q = l.find_last_of(" ,;\t"); if (q != S::npos && q > 0) { l.erase(q); cut = true; } t += l + "\n"; }
        if (!cut) break;
        Plan q = p;
        q.files[i].second = t;
        if (!test(q)) break;
        p = q; any = true;
      }
    }
    return any;
  }
  bool simplify(Plan& p) {
    bool any = false;
    auto attempt = [&](const Plan& q) { if (test(q)) { p = q; any = true; return true; } return false; };
    if (p.sched.policy != P_SERIAL || p.sched.pspur > 0) { Plan q = p; q.sched = SchedCfg(); q.sched.seed = p.sched.seed; q.dec.clear(); attempt(q); }
    if (p.sched.pspur > 0) { Plan q = p; q.sched.pspur = 0; attempt(q); }
    if (p.clock.mode != 0 || p.clock.base != ClockCfg().base) { Plan q = p; q.clock = ClockCfg(); attempt(q); }
    while (p.repeat > 1 && !out()) { Plan q = p; q.repeat--; if (!attempt(q)) break; }
    for (size_t i = 0; i < p.faults.size() && !out(); i++) {
      if (p.faults[i].sticky) { Plan q = p; q.faults[i].sticky = 0; attempt(q); }
      for (int64_t n = 1; n < p.faults[i].nth && !out(); n *= 2) { Plan q = p; q.faults[i].nth = n; if (attempt(q)) break; }
    }
    for (size_t i = 0; i < p.ops.size() && !out(); i++) if (p.ops[i].verb() == "group" && p.ops[i].a.size() > 5 && p.ops[i].i(5) > 1)
      for (int n = 1; n < p.ops[i].i(5); n++) { Plan q = p; q.ops[i].a[5] = std::to_string(n); if (attempt(q)) break; }
    return any;
  }
  void run(Plan& p) {
    simplify(p);
    for (int round = 0; round < 4 && !out(); round++) {
      bool any = shrink(p, &Plan::faults);
      any |= shrink(p, &Plan::ops);
      any |= shrinkFiles(p);
      any |= simplify(p);
      if (!any) break;
    }
    if (p.sched.policy != P_SERIAL && p.sched.policy != P_EXPLICIT && !out()) {
      Verdict v = evaluate(pf, p, st);
      if (v.bad && v.kind == kind && v.decValid) {
        Plan q = p;
        q.sched = SchedCfg();
        q.sched.policy = P_EXPLICIT;
        q.sched.seed = p.sched.seed;
        q.dec = v.dec;
        if (test(q)) { p = q; shrink(p, &Plan::dec); }
      }
    }
  }
};

// ---------------------------------------------------------------- worker results
struct Rec { uint64_t trace, inter; uint8_t state, fault, sw; };
enum { MAXREC = 4000000, NSAMP = 6 };
struct Board {
  volatile int64_t firstBad;
  volatile double badTime;
  uint64_t detChecked, detFailed;   // only worker 0 .. summed by parent
  Stats st[64];
  uint64_t det[64], detBad[64], errors[64];
  char errMsg[2000];
  int known[256];
  Rec rec[MAXREC];
};
static Board* board;

static S jesc(const S& s) {
  S r;
  for (unsigned char c : s) {
    char b[10];
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}

struct Args {
  S id, tier = "quick", evidence, replays = "replays", known;
  uint64_t seed = 1;
  int64_t runs = -1;
  double secs = 600;
  int workers = 8;
  bool verbose = false, nomin = false;
  int64_t from = 0;
};

static void worker(int w, const Args& a, const Profile& pf, const std::vector<Known>& ks, int64_t runs, double deadline) {
  cpu_set_t cs;
  CPU_ZERO(&cs);
  const char* first = getenv("SIM_FIRST_CPU");      // for several explorations side by side
  CPU_SET((w + (first ? atoi(first) : 0)) % sysconf(_SC_NPROCESSORS_ONLN), &cs);
  sched_setaffinity(0, sizeof cs, &cs);
  makeShared();
  Stats& st = board->st[w];
  int bad = 0;
  for (int64_t i = a.from + w; i < a.from + runs; i += a.workers) {
    if (board->firstBad >= 0 && i > board->firstBad && (bad >= 2 || now() > board->badTime + 3)) break;
    if (now() > deadline) break;
    Plan p;
    makePlan(pf, a.seed, (uint64_t)i, p, &st);
    Verdict v = evaluate(pf, p, &st);
    Rec& r = board->rec[i - a.from];
    r.trace = v.trace; r.inter = v.inter; r.fault = v.fired > 0; r.sw = v.switches > 0;
    if (v.error) { board->errors[w]++; snprintf(board->errMsg, sizeof board->errMsg, "plan %lld: %s", (long long)i, v.msg.c_str()); r.state = 3; continue; }
    if (v.bad) {
      int k = knownIndex(ks, v);
      if (k >= 0) { if (k < 256) board->known[k] = 1; r.state = 4; continue; }
      r.state = 2;
      bad++;
      int64_t cur = board->firstBad;
      if (cur < 0) board->badTime = now();
      while ((cur < 0 || i < cur) && !__sync_bool_compare_and_swap(&board->firstBad, cur, i)) cur = board->firstBad;
      continue;
    }
    r.state = 1;
    if (i % 20 == (int64_t)(a.seed % 20)) {   // the same plan once more must give the same execution
      Verdict u = evaluate(pf, p, nullptr);
      board->det[w]++;
      if (u.trace != v.trace || u.bad) { board->detBad[w]++; snprintf(board->errMsg, sizeof board->errMsg, "plan %lld is not repeatable", (long long)i); }
    }
  }
  _exit(0);
}

static S policyName(int p) { static const char* n[] = {"serial", "random", "pct", "rr", "starve", "explicit"}; return n[p]; }
static S sample(const Plan& p, const Verdict& v) {
  S s = "seed " + std::to_string(p.seed) + ", schedule " + policyName(p.sched.policy) + ": ";
  for (auto& o : p.ops) { s += opText(o).substr(0, 60); for (auto& f : p.faults) if (f.op == o.id) s += S(" [") + kindName[f.kind] + "#" + std::to_string(f.nth) + (f.err ? " err " + std::to_string(f.err) : "") + "]"; s += "; "; }
  s += "=> " + std::to_string(v.calls) + " calls, " + std::to_string(v.oracle) + " oracle checks, " + std::to_string(v.fired) + " faults fired, " + std::to_string(v.switches) + " switches, " + std::to_string(v.incarnations) + " incarnation(s)";
  return s;
}

// writes the replay file and runs it in a fresh process
static bool confirmed(const Args& a, Plan p, const Verdict& f, const S& rfile) {
  for (auto it = p.opt.begin(); it != p.opt.end();) if (it->first.compare(0, 7, "expect_") == 0) it = p.opt.erase(it); else ++it;
  mkdir(a.replays.c_str(), 0777);
  { std::ofstream o(rfile, std::ios::binary); o << p.text() << "expect kind " << f.kind << "\nexpect trace " << f.trace << "\n# " << esc(f.msg) << "\n"; }
  pid_t pid = fork();
  if (pid == 0) {
    int d = (int)raw(257, -100, (long)"/dev/null", 1, 0);
    raw(33, d, 1); raw(33, d, 2);
    execl("/proc/self/exe", "genexsim", "replay", rfile.c_str(), (char*)nullptr);
    _exit(9);
  }
  int wst;
  waitpid(pid, &wst, 0);
  return WIFEXITED(wst) && WEXITSTATUS(wst) == 1;
}

static int explore(const Args& a) {
  double t0 = now();
  const Profile* pf = findProfile(a.id);
  if (!pf) { fprintf(stderr, "unknown property %s\n", a.id.c_str()); return 2; }
  auto ks = loadKnown(a.known, a.id);
  int64_t runs = a.runs > 0 ? a.runs : a.tier == "thorough" ? pf->thoroughRuns : pf->quickRuns;
  runs = std::min<int64_t>(runs, MAXREC);
  board = (Board*)mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  board->firstBad = -1;
  double deadline = t0 + a.secs;
  std::vector<pid_t> pids;
  for (int w = 0; w < a.workers; w++) {
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 3; }
    if (pid == 0) worker(w, a, *pf, ks, runs, deadline);
    pids.push_back(pid);
  }
  bool lost = false;
  for (auto pid : pids) { int st; waitpid(pid, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) lost = true; }
  double searched = now() - t0;
  makeShared();
  Stats st;
  uint64_t det = 0, detBad = 0, errors = 0;
  for (int w = 0; w < a.workers; w++) {
    Stats& x = board->st[w];
    st.children += x.children; st.verdicts += x.verdicts; st.steps += x.steps; st.switches += x.switches; st.syncs += x.syncs; st.oracle += x.oracle;
    st.calls += x.calls; st.fails += x.fails; st.crashes += x.crashes; st.withFault += x.withFault; st.withSwitch += x.withSwitch; st.simNs += x.simNs;
    st.maxThreads = std::max(st.maxThreads, x.maxThreads);
    st.maxSteps = std::max(st.maxSteps, x.maxSteps);
    for (int k = 0; k < NKIND; k++) { st.fired[k] += x.fired[k]; st.seen[k] += x.seen[k]; }
    det += board->det[w]; detBad += board->detBad[w]; errors += board->errors[w];
  }
  std::unordered_set<uint64_t> inter, traces, nontriv;
  uint64_t done = 0, knownRuns = 0;
  for (int64_t i = 0; i < runs; i++) {
    Rec& r = board->rec[i];
    if (!r.state) continue;
    done++;
    knownRuns += r.state == 4;
    traces.insert(r.trace);
    if (r.sw) inter.insert(r.inter);
    if (r.fault || r.sw || pf->fs.kinds.empty()) nontriv.insert(r.trace);
  }
  int rc = 0;
  S vline, vmsg, rfile;
  Plan minp;
  if (lost) { fprintf(stderr, "a worker process was lost\n"); rc = 3; }
  if (errors) { fprintf(stderr, "%llu runs ended in a simulator error: %s\n", (unsigned long long)errors, board->errMsg); if (errors * 50 > done) rc = 3; }
  if (detBad) fprintf(stderr, "warning: %llu of %llu repeated runs differed: %s\n", (unsigned long long)detBad, (unsigned long long)det, board->errMsg);
  // the first violation that repeats, also in a fresh process, is reported
  int attempts = 0;
  for (int64_t i = 0; i < runs && rc != 1 && attempts < 10; i++) {
    if (board->rec[i].state != 2) continue;
    attempts++;
    int64_t idx = a.from + i;
    Plan p;
    makePlan(*pf, a.seed, (uint64_t)idx, p, nullptr);
    Verdict v = evaluate(*pf, p, nullptr), v2 = evaluate(*pf, p, nullptr);
    if (!v.bad || !v2.bad || v.kind != v2.kind || v.trace != v2.trace) {
      fprintf(stderr, "plan %lld failed once but does not repeat (%s / %s)\n", (long long)idx, v.msg.c_str(), v2.msg.c_str());
      rc = 3;
      continue;
    }
    fprintf(stderr, "plan %lld: %s: %s\n", (long long)idx, v.kind.c_str(), v.msg.c_str());
    Plan before = p;
    Minimiser m{*pf, ks, v.kind, now() + (a.nomin ? 0 : 75), nullptr};
    m.run(p);
    Verdict f = evaluate(*pf, p, nullptr), f2 = evaluate(*pf, p, nullptr);
    if (!f.bad || f.kind != v.kind || !f2.bad || f.trace != f2.trace) { p = before; f = v; fprintf(stderr, "minimised plan not stable, keeping the original\n"); }
    rfile = a.replays + "/" + a.id + "-" + std::to_string(a.seed) + "-" + std::to_string(idx) + ".replay";
    fprintf(stderr, "minimised in %d attempts: %zu operations, %zu faults, %zu schedule decisions, policy %s\n", m.tries, p.ops.size(), p.faults.size(), p.dec.size(), policyName(p.sched.policy).c_str());
    fprintf(stderr, "%s: %s\n", f.kind.c_str(), f.msg.c_str());
    bool ok = confirmed(a, p, f, rfile);
    if (!ok && m.accepted) { p = before; f = v; ok = confirmed(a, p, f, rfile); }
    if (!ok) { fprintf(stderr, "replay in a fresh process did not reproduce the violation\n"); rc = 3; }
    else { rc = 1; vline = "VIOLATION property=" + a.id + " replay=" + rfile; vmsg = f.kind + ": " + f.msg; minp = p; }
  }
  for (size_t k = 0; k < ks.size() && k < 256; k++) if (board->known[k]) printf("KNOWN-FINDING: property=%s %s\n", a.id.c_str(), ks[k].what.c_str());
  // ---- evidence
  if (!a.evidence.empty()) {
    std::vector<S> samples;
    for (int i = 0; i < 4; i++) {
      Plan p;
      makePlan(*pf, a.seed, (uint64_t)(a.from + i), p, nullptr);
      Verdict v = evaluate(*pf, p, nullptr);
      samples.push_back(sample(p, v));
    }
    double wall = now() - t0;
    std::ostringstream o;
    auto q = [&](const S& s) { return "\"" + jesc(s) + "\""; };
    bool faults = !pf->fs.kinds.empty();
    o << "{\n \"property\": " << q(a.id) << ",\n \"tier\": " << q(a.tier) << ",\n \"seed\": " << a.seed << ",\n \"level\": \"exploration\",\n";
    o << " \"coverage\": {\n  \"evaluations\": " << done << ",\n  \"distinct_nontrivial\": " << nontriv.size() << ",\n";
    o << "  \"rule\": " << q(S("one evaluation is one plan (workload, fault sequence, schedule, clock) executed and judged; distinct by the hash over all recorded events of the execution ")
       + "(scheduling decisions, synchronisation, disk operations, injected faults, results); non-trivial when " + (faults ? "a fault fired or threads were switched" : "the plan ran to its end under its schedule")) << ",\n";
    o << "  \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) o << (i ? ", " : "") << q(samples[i]);
    o << "],\n";
    o << "  \"simulated_processes\": " << st.children << ",\n  \"distinct_executions\": " << traces.size() << ",\n  \"distinct_interleavings\": " << inter.size() << ",\n";
    o << "  \"interleaving_measure\": " << q("hash over the sequence of (thread, synchronisation event) of runs with at least one switch between threads") << ",\n";
    o << "  \"runs_per_hour\": " << (uint64_t)(st.verdicts / std::max(searched, 0.001) * 3600) << ",\n  \"seeds_per_hour\": " << (uint64_t)(done / std::max(searched, 0.001) * 3600) << ",\n  \"processes_per_hour\": " << (uint64_t)(st.children / std::max(searched, 0.001) * 3600) << ",\n";
    o << "  \"simulated_seconds\": " << st.simNs / 1e9 << ",\n  \"simulated_steps\": " << st.steps << ",\n  \"context_switches\": " << st.switches << ",\n  \"sync_events\": " << st.syncs << ",\n  \"most_steps_of_a_process\": " << st.maxSteps << ",\n  \"max_threads\": " << st.maxThreads << ",\n";
    o << "  \"library_calls\": " << st.calls << ",\n  \"failed_calls\": " << st.fails << ",\n  \"oracle_checks\": " << st.oracle << ",\n  \"crash_restarts\": " << st.crashes << ",\n";
    o << "  \"runs_with_faults\": " << st.withFault << ",\n  \"runs_with_switches\": " << st.withSwitch << ",\n";
    o << "  \"faults_fired\": {";
    bool first = true;
    for (int k = 0; k < NKIND; k++) if (st.fired[k]) { o << (first ? "" : ", ") << q(kindName[k]) << ": " << st.fired[k]; first = false; }
    o << "},\n  \"fault_sites_seen\": {";
    first = true;
    for (int k = 0; k < NKIND; k++) if (st.seen[k]) { o << (first ? "" : ", ") << q(kindName[k]) << ": " << st.seen[k]; first = false; }
    o << "},\n  \"repeat_check\": {\"repeated\": " << det << ", \"differing\": " << detBad << "},\n  \"simulator_errors\": " << errors << ",\n  \"known_finding_runs\": " << knownRuns << ",\n";
    o << "  \"real_code\": " << q(pf->kind == "cli" ? "cli/GenexCLI.cpp, all of genex/**, libstdc++ streams and threads, boost serialization and iostreams, zlib" : "all of genex/**, libstdc++ streams and threads, boost serialization and iostreams, zlib") << ",\n";
    o << "  \"stubbed\": " << q(S("thread scheduler, mutex/condition/futex waits, clocks, files and file system calls below /sim, heap") + (pf->kind == "cli" ? ", readline terminal" : "")) << "\n },\n";
    o << " \"assumptions\": [" << q("sequentially consistent memory; preemption points are the instrumented memory accesses, atomics and synchronisation calls of genex code") << ", " << q("workloads are bounded: see the generator of this property in sim/profiles.cpp") << ", " << q("libstdc++, boost and zlib run for real but are not preempted inside") << "],\n";
    o << " \"wall_s\": " << wall << ",\n \"violations\": [";
    if (rc == 1) o << "{\"replay\": " << q(rfile) << ", \"message\": " << q(vmsg.substr(0, 1500)) << ", \"seed\": " << minp.seed << "}";
    o << "]\n}\n";
    std::ofstream f(a.evidence, std::ios::binary);
    f << o.str();
  }
  fprintf(stderr, "%s %s seed %llu: %llu plans, %llu processes, %.1f s, %zu distinct, %llu with faults, %llu with switches\n", a.id.c_str(), a.tier.c_str(), (unsigned long long)a.seed, (unsigned long long)done,
          (unsigned long long)st.children, searched, nontriv.size(), (unsigned long long)st.withFault, (unsigned long long)st.withSwitch);
  if (a.verbose) {
    for (int k = 0; k < NKIND; k++) if (st.seen[k]) fprintf(stderr, "  %-9s fired %llu of %llu sites\n", kindName[k], (unsigned long long)st.fired[k], (unsigned long long)st.seen[k]);
    fprintf(stderr, "  calls %llu failed %llu oracle checks %llu restarts %llu most steps %llu\n", (unsigned long long)st.calls, (unsigned long long)st.fails, (unsigned long long)st.oracle, (unsigned long long)st.crashes, (unsigned long long)st.maxSteps);
  }
  if (rc == 1) { printf("%s\n", vline.c_str()); }
  fflush(stdout);
  return rc;
}

static int replay(const S& file, bool verbose) {
  Plan p;
  S err;
  if (!Plan::parse(slurp(file), p, err)) { fprintf(stderr, "%s: %s\n", file.c_str(), err.c_str()); return 2; }
  const Profile* pf = findProfile(p.prop);
  if (!pf) { fprintf(stderr, "unknown property %s\n", p.prop.c_str()); return 2; }
  makeShared();
  Verdict v = evaluate(*pf, p, nullptr);
  if (v.error) { fprintf(stderr, "simulator error: %s\n", v.msg.c_str()); return 3; }
  S ek = p.opt.count("expect_kind") ? p.opt["expect_kind"] : "", et = p.opt.count("expect_trace") ? p.opt["expect_trace"] : "";
  if (!v.bad) { printf("no violation\n"); return 0; }
  printf("%s: %s\n", v.kind.c_str(), v.msg.c_str());
  if ((ek.size() && ek != v.kind) || (et.size() && et != std::to_string(v.trace))) { printf("differs from the recorded execution (expected %s trace %s, got %s trace %llu)\n", ek.c_str(), et.c_str(), v.kind.c_str(), (unsigned long long)v.trace); return 4; }
  printf("VIOLATION property=%s replay=%s\n", p.prop.c_str(), file.c_str());
  return 1;
}

int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  S cmd = argc > 1 ? argv[1] : "";
  Args a;
  std::vector<S> pos;
  for (int i = 2; i < argc; i++) {
    S x = argv[i];
    auto val = [&]() { return i + 1 < argc ? S(argv[++i]) : S(); };
    if (x == "--tier") a.tier = val();
    else if (x == "--seed") a.seed = strtoull(val().c_str(), nullptr, 10);
    else if (x == "--runs") a.runs = atoll(val().c_str());
    else if (x == "--from") a.from = atoll(val().c_str());
    else if (x == "--time") a.secs = atof(val().c_str());
    else if (x == "--evidence") a.evidence = val();
    else if (x == "--replays") a.replays = val();
    else if (x == "--known") a.known = val();
    else if (x == "--workers") a.workers = std::max(1, std::min(64, atoi(val().c_str())));
    else if (x == "-v") a.verbose = true;
    else if (x == "--nomin") a.nomin = true;
    else pos.push_back(x);
  }
  if (cmd == "explore" && pos.size() == 1) { a.id = pos[0]; return explore(a); }
  if (cmd == "replay" && pos.size() == 1) return replay(pos[0], a.verbose);
  if (cmd == "show" && pos.size() == 2) {
    const Profile* pf = findProfile(pos[0]);
    if (!pf) return 2;
    makeShared();
    Plan p;
    makePlan(*pf, a.seed, strtoull(pos[1].c_str(), nullptr, 10), p, nullptr);
    printf("%s", p.text().c_str());
    return 0;
  }
  if (cmd == "list") { for (auto& s : profileIds()) printf("%s\n", s.c_str()); return 0; }
  fprintf(stderr, "usage: genexsim explore ID [--tier T] [--seed N] [--runs N] [--time S] [--evidence F] [--replays D] [--known F] | replay FILE | show ID INDEX | list\n");
  return 2;
}
