// Simulator runtime: scheduler, interposed pthread/clock/allocation functions, race and heap checks.
#include "rt.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/times.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <new>
#include <unordered_map>

extern "C" char __executable_start, etext;

namespace rt {

const char* kindName[NKIND] = {"alloc", "thread", "open", "read", "write", "close", "seek",
                               "sync", "rename", "clock", "crash", "spurious", "diskfull"};
Shared* sh = nullptr;
void (*crashHook)(int) = nullptr;

long raw(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}

enum { MAXT = 256 };
static int g_nthr = 0;          // slots used
struct VC {
  uint32_t c[MAXT];
  VC() { for (auto& x : c) x = 0; }
  void join(const VC& o) { for (int i = 0; i < g_nthr; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum State { T_FREE, T_RUN, T_BLOCK, T_DONE };
enum Wait { W_NONE, W_MUTEX, W_COND, W_JOIN, W_FUTEX, W_ONCE, W_SLEEP, W_RW, W_SEM, W_IDLE };
static const char* waitName[] = {"-", "mutex", "condition", "join", "future", "once", "sleep", "rwlock", "semaphore", "idle"};

struct OpCtx { int op = -1; bool faults = false; uint32_t cnt[NKIND] = {0}; bool has[NKIND] = {false}; };

struct SimThread {
  int id = 0;
  OpCtx own;
  OpCtx* ctx = &own;        // threads started by the library share the context of the operation that started them
  int go = 0;               // hand-over futex word
  State state = T_FREE;
  Wait wait = W_NONE;
  uintptr_t obj = 0;
  int64_t deadline = -1;    // simulated ns, -1: none
  bool timedOut = false;
  bool joined = false, detached = false;
  int sut = 1;
  pthread_t real{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  VC vc;
  int64_t prio = 0;
  uint64_t waitSeq = 0;
};

struct Mx { int owner = -1; int depth = 0; };
struct Rw { int writer = -1; int readers = 0; };

static bool g_active = false;
static RunCfg g_cfg;
static SimThread* g_thr[MAXT];
static int g_alive = 0;         // threads not done (thread 0 included)
static uint64_t g_steps = 0, g_sstep = 0, g_nextPreempt = ~0ull;
static Rng g_rng(1), g_crng(1);
static bool g_quiet = false;
static uint64_t g_opGen = 0;
static int64_t g_now = 0;
static size_t g_decIdx = 0;
static uint64_t g_waitSeq = 0;
static std::vector<uint64_t> g_pctPoints;
static std::map<uintptr_t, Mx>* g_mx;
static std::map<uintptr_t, Rw>* g_rw;
static std::map<uintptr_t, VC>* g_sync;
static uint32_t g_gen = 1;
static bool g_raceFound = false;
static std::string* g_raceText;

static __thread SimThread* t_self = nullptr;
static __thread int t_internal = 0;

struct In { In() { t_internal++; } ~In() { t_internal--; } };
Internal::Internal() { t_internal++; }
Internal::~Internal() { t_internal--; }

bool active() { return g_active; }
bool inSim() { return g_active && t_self && !t_internal; }
bool inSut() { return g_active && t_self && !t_internal && t_self->sut > 0; }
Sut::Sut() { saved = t_self ? t_self->sut : 0; if (t_self) t_self->sut = 1; }
Sut::~Sut() { if (t_self) t_self->sut = saved; }
void quiet(bool on) { g_quiet = on; }
int64_t nowNs() { return g_now; }
uint64_t stepsNow() { return g_steps; }

[[noreturn]] void finish(int status) {
  t_internal++;
  sh->status = status;
  sh->steps = g_steps; sh->ssteps = g_sstep; sh->simNs = g_now - g_cfg.clock.base;
  raw(SYS_exit_group, 0);
  __builtin_unreachable();
}
[[noreturn]] void violation(const char* kind, const std::string& msg) {
  t_internal++;
  snprintf(sh->vkind, sizeof sh->vkind, "%s", kind);
  snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
  finish(S_VIOLATION);
}
[[noreturn]] void internalError(const std::string& msg) {
  t_internal++;
  snprintf(sh->vkind, sizeof sh->vkind, "internal");
  snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
  finish(S_ERROR);
}

static std::string where(void* pc) {
  Dl_info di;
  char buf[400];
  if (pc && dladdr(pc, &di) && di.dli_sname) {
    int st = 0;
    char* dm = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
    snprintf(buf, sizeof buf, "%.300s+0x%lx", st == 0 && dm ? dm : di.dli_sname,
             (unsigned long)((char*)pc - (char*)di.dli_saddr));
    free(dm);
  } else {
    snprintf(buf, sizeof buf, "pc 0x%lx", (unsigned long)pc);
  }
  return buf;
}

void note(const char* what, int64_t a, int64_t b) {
  uint64_t h = sh->trace;
  for (const char* p = what; *p; p++) h = mix(h, (unsigned char)*p);
  h = mix(h, (uint64_t)a);
  h = mix(h, (uint64_t)b);
  sh->trace = h;
}

// ---------------------------------------------------------------- fault lookup
void setOp(int op) {
  OpCtx& c = *t_self->ctx;
  c.op = op;
  sh->curOp = op;
  g_opGen++;
  for (auto& x : c.cnt) x = 0;
  for (auto& f : c.has) f = false;
  for (auto& f : g_cfg.faults) if (f.op == op) c.has[f.kind] = true;
}

uint64_t opGen() { return g_opGen; }
int curOp() { return t_self ? t_self->ctx->op : -1; }
bool faultsNow() { return t_self->ctx->faults; }
void faultsOn(bool on) { t_self->ctx->faults = on; }
bool fault(int kind, Fault& out) {
  if (!t_self) return false;
  OpCtx& c = *t_self->ctx;
  if (!c.faults || c.op < 0) return false;
  uint32_t n = ++c.cnt[kind];
  if (c.op < MAXOPS) sh->counts[c.op][kind] = n;
  sh->seen[kind]++;
  if (!c.has[kind]) return false;
  for (auto& f : g_cfg.faults)
    if (f.op == c.op && f.kind == kind && (int64_t)n >= f.nth && (int64_t)n <= f.nth + f.sticky) {
      sh->fired[kind]++;
      In in;
      note("fault", kind, n);
      out = f;
      return true;
    }
  return false;
}
const Fault* armed(int kind) {
  OpCtx& c = *t_self->ctx;
  if (!c.faults || c.op < 0 || !c.has[kind]) return nullptr;
  for (auto& f : g_cfg.faults) if (f.op == c.op && f.kind == kind) return &f;
  return nullptr;
}
void fired(int kind) { sh->fired[kind]++; In in; note("fault", kind, 0); }

// ---------------------------------------------------------------- clock
static bool g_plainClock = false;
void plainClock(bool on) { g_plainClock = on; }
static int64_t readClock() {
  int64_t r;
  Fault f;
  if (g_plainClock) { r = g_now; g_now += 1000; return r; }
  if (fault(K_CLOCK, f)) g_now += f.arg;
  switch (g_cfg.clock.mode) {
    case 0: r = g_now; g_now += 1000; break;
    case 1: r = g_now; break;
    case 2: r = g_now; g_now += (int64_t)g_crng.below((uint64_t)g_cfg.clock.step + 1); break;
    case 3: r = g_now; g_now += g_crng.range(-g_cfg.clock.step, g_cfg.clock.step); break;
    default: r = g_now; g_now += g_cfg.clock.step; break;
  }
  return r;
}

// ---------------------------------------------------------------- scheduler
static void futexWait(int* w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) raw(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
static void futexGo(int* w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  raw(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1);
}

static void record(uint64_t step, int val) {
  if (sh->ndec < MAXDEC) { sh->dec[sh->ndec].step = step; sh->dec[sh->ndec].val = val; sh->ndec++; }
  else sh->decOverflow = 1;
}
// value of a listed decision at this step, or -1
static int explicitDecision() {
  auto& d = g_cfg.decisions;
  while (g_decIdx < d.size() && d[g_decIdx].step < g_sstep) g_decIdx++;
  if (g_decIdx < d.size() && d[g_decIdx].step == g_sstep) return d[g_decIdx++].val;
  return -1;
}
static void planPreempt() {
  auto& s = g_cfg.sched;
  switch (s.policy) {
    case P_RANDOM: case P_STARVE: {
      double u = g_rng.unit();
      int64_t d = 1 + (int64_t)(-__builtin_log(1 - u) * (double)s.mean);
      g_nextPreempt = g_sstep + d;
      break;
    }
    case P_RR: g_nextPreempt = g_sstep + s.mean; break;
    case P_PCT: {
      g_nextPreempt = ~0ull;
      for (auto p : g_pctPoints) if (p > g_sstep) { g_nextPreempt = p; break; }
      break;
    }
    case P_EXPLICIT: {
      auto& d = g_cfg.decisions;
      size_t i = g_decIdx;
      while (i < d.size() && d[i].step <= g_sstep) i++;
      g_nextPreempt = i < d.size() ? d[i].step : ~0ull;
      break;
    }
    default: g_nextPreempt = ~0ull;
  }
}
static int runnable(int* out) {
  int n = 0;
  for (int i = 0; i < g_nthr; i++) if (g_thr[i]->state == T_RUN) out[n++] = i;
  return n;
}
static void describeThreads(std::string& s) {
  for (int i = 0; i < g_nthr; i++) {
    SimThread* t = g_thr[i];
    if (t->state == T_FREE) continue;
    char b[100];
    snprintf(b, sizeof b, " T%d:%s%s", i, t->state == T_RUN ? "runnable" : t->state == T_DONE ? "done" : "waits-for-",
             t->state == T_BLOCK ? waitName[t->wait] : "");
    s += b;
  }
}
// choose the next thread; me may be blocked. default rule: stay, else cyclic successor
static int choose(bool blocked, bool atSync, bool yield) {
  SimThread* me = t_self;
  int list[MAXT];
  int n = runnable(list);
  if (n == 0) {
    // advance the clock to the earliest deadline
    int best = -1;
    for (int i = 0; i < g_nthr; i++)
      if (g_thr[i]->state == T_BLOCK && g_thr[i]->deadline >= 0 &&
          (best < 0 || g_thr[i]->deadline < g_thr[best]->deadline)) best = i;
    if (best < 0) {
      std::string s = "no thread can run:";
      describeThreads(s);
      violation("deadlock", s);
    }
    if (g_thr[best]->deadline > g_now) g_now = g_thr[best]->deadline;
    g_thr[best]->timedOut = true;
    g_thr[best]->state = T_RUN;
    return best;
  }
  int def;
  if (!blocked && !yield) def = me->id;
  else {
    def = list[0];
    for (int i = 0; i < n; i++) if (list[i] > me->id) { def = list[i]; break; }
  }
  int pick = def;
  auto& s = g_cfg.sched;
  if (g_quiet) return def;
  switch (s.policy) {
    case P_EXPLICIT: {
      int v = explicitDecision();
      if (v >= 0 && v < g_nthr && g_thr[v]->state == T_RUN) pick = v;
      return pick;
    }
    case P_SERIAL:
      if (blocked || yield) pick = list[g_rng.below(n)];
      break;
    case P_RANDOM:
      if (blocked || yield || !atSync || g_rng.chance(s.psync)) pick = list[g_rng.below(n)];
      break;
    case P_STARVE: {
      int l2[MAXT], m = 0;
      for (int i = 0; i < n; i++) if (list[i] != s.victim) l2[m++] = list[i];
      bool release = g_sstep > (uint64_t)s.horizon;
      if (m == 0 || release) { memcpy(l2, list, sizeof list); m = n; }
      if (blocked || yield || !atSync || me->id == s.victim || g_rng.chance(s.psync)) pick = l2[g_rng.below(m)];
      break;
    }
    case P_RR:
      if (blocked || yield || !atSync) {
        pick = list[0];
        for (int i = 0; i < n; i++) if (list[i] > me->id) { pick = list[i]; break; }
      }
      break;
    case P_PCT: {
      if (yield) me->prio = -(int64_t)g_sstep;
      pick = list[0];
      for (int i = 1; i < n; i++) if (g_thr[list[i]]->prio > g_thr[pick]->prio) pick = list[i];
      break;
    }
  }
  if (pick != def) record(g_sstep, pick);
  return pick;
}
static void switchTo(int next, bool park) {
  SimThread* me = t_self;
  if (next == me->id) return;
  sh->switches++;
  sh->inter = mix(sh->inter, (uint64_t)next * 131 + 7);
  note("sw", (int64_t)g_sstep, next);
  futexGo(&g_thr[next]->go);
  if (park) futexWait(&me->go);
}
static void budget() {
  if (g_steps > g_cfg.stepBudget) {
    std::string s = "no progress within the step budget:";
    describeThreads(s);
    violation("hang", s);
  }
}
void ioStep() { In in; g_steps += 20; budget(); }
// a synchronisation operation of thread `me` took place: scheduling point
static void syncPoint(int kind, bool yield = false) {
  g_steps++;
  sh->syncs++;
  budget();
  sh->inter = mix(sh->inter, (uint64_t)kind * 64 + (uint64_t)t_self->id);
  if (g_alive <= 1) return;
  g_sstep++;
  int next = choose(false, true, yield);
  if (next != t_self->id) switchTo(next, true);
}
static void blockOn(Wait w, uintptr_t obj, int64_t deadline = -1) {
  SimThread* me = t_self;
  me->state = T_BLOCK; me->wait = w; me->obj = obj; me->deadline = deadline; me->timedOut = false;
  me->waitSeq = ++g_waitSeq;
  g_steps++;
  budget();
  g_sstep++;
  int next = choose(true, true, false);
  if (next != me->id) switchTo(next, true);
  me->wait = W_NONE; me->obj = 0; me->deadline = -1;
}
static int wake(Wait w, uintptr_t obj, int maxN) {
  // oldest waiter first
  int n = 0;
  while (n < maxN) {
    SimThread* b = nullptr;
    for (int i = 0; i < g_nthr; i++) {
      SimThread* t = g_thr[i];
      if (t->state == T_BLOCK && t->wait == w && t->obj == obj && (!b || t->waitSeq < b->waitSeq)) b = t;
    }
    if (!b) break;
    b->state = T_RUN;
    n++;
  }
  return n;
}
static int64_t absDeadline(const struct timespec* ts) { return (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec; }

// small decision (for example which waiter a signal wakes)
static int decide(int n, int def, int drawn) {
  g_sstep++;
  int v = def;
  if (!g_quiet) {
    if (g_cfg.sched.policy == P_EXPLICIT) { int e = explicitDecision(); if (e >= 0 && e < n) v = e; }
    else { v = drawn; if (v != def) record(g_sstep, v); }
  }
  return v;
}

// happens-before
static VC& syncVC(uintptr_t a) { return (*g_sync)[a]; }
static void acquire(uintptr_t a) { if (g_alive > 1) { auto it = g_sync->find(a); if (it != g_sync->end()) t_self->vc.join(it->second); } }
static void release(uintptr_t a) {
  if (g_alive > 1) { syncVC(a).join(t_self->vc); t_self->vc.c[t_self->id]++; }
}

// ---------------------------------------------------------------- race detector
struct Rec { uint32_t clk; uint8_t tid, mask, w, used; void* pc; };
struct Cell { uintptr_t key; uint32_t gen; uint32_t n; Rec r[6]; };
enum { CELLS = 1 << 18 };
static Cell* g_cells;

static Cell* cell(uintptr_t key, bool create) {
  uint64_t h = (key * 0x9E3779B97F4A7C15ull) >> 46;
  for (int probe = 0; probe < 64; probe++) {
    Cell* c = &g_cells[(h + probe) & (CELLS - 1)];
    if (c->key == key && c->gen == g_gen) return c;
    if (c->gen != g_gen) {
      if (!create) return nullptr;     // table entries of one generation are never removed, only emptied
      c->key = key; c->gen = g_gen; c->n = 0;
      return c;
    }
  }
  return nullptr;
}
static void forgetRange(uintptr_t a, size_t n) {
  for (uintptr_t k = a >> 3; k <= (a + n - 1) >> 3; k++) { Cell* c = cell(k, false); if (c) c->n = 0; }
}
static void raceFound(uintptr_t a, const Rec& r, bool w, void* pc) {
  if (g_raceFound) return;
  g_raceFound = true;
  In in;
  std::string s = w ? "write by T" : "read by T";
  s += std::to_string(t_self->id) + " at " + where(pc) + " races with " + (r.w ? "write" : "read") + " by T" +
       std::to_string(r.tid) + " at " + where(r.pc);
  (void)a;
  *g_raceText = s;
  if (g_cfg.races) violation("race", s);
}
static void raceCheck(uintptr_t a, size_t n, bool w, void* pc) {
  SimThread* me = t_self;
  while (n > 0) {
    uintptr_t key = a >> 3;
    unsigned off = a & 7;
    size_t m = 8 - off; if (m > n) m = n;
    uint8_t mask = (uint8_t)(((1u << m) - 1) << off);
    Cell* c = cell(key, true);
    if (c) {
      int repl = -1;
      for (uint32_t i = 0; i < c->n; i++) {
        Rec& r = c->r[i];
        bool hb = r.tid == me->id || r.clk <= me->vc.c[r.tid];
        if (!hb && (r.mask & mask) && (w || r.w)) raceFound(a, r, w, pc);
        if (r.tid == me->id && r.mask == mask && (r.w == w || (w && !r.w))) repl = (int)i;
        else if (hb && repl < 0 && ((r.mask & ~mask) == 0) && (w || !r.w)) repl = (int)i;
      }
      if (repl < 0) { if (c->n < 6) repl = (int)c->n++; else repl = (int)(g_sstep % 6); }
      Rec& r = c->r[repl];
      r.clk = me->vc.c[me->id]; r.tid = (uint8_t)me->id; r.mask = mask; r.w = w; r.pc = pc;
    }
    a += m; n -= m;
  }
}
RaceInfo race() { return RaceInfo{g_raceFound, g_raceFound ? *g_raceText : std::string()}; }

// ---------------------------------------------------------------- simulated heap
static const uintptr_t ARENA = 0x200000000000ull;
static const size_t ARENA_SZ = 8ull << 30;
static const uintptr_t SHADOW = 0x300000000000ull;
struct Hdr { uint64_t size; uint64_t serial; uint32_t magic; uint32_t op; void* pc; };   // 32 bytes
static_assert(sizeof(Hdr) == 32, "");
enum : uint32_t { LIVE = 0x4c495645, DEAD = 0x44454144 };
static bool g_heapReady = false;
static uintptr_t g_bump;
static uint64_t g_serial = 0, g_liveBytes = 0, g_liveBlocks = 0, g_totalAllocs = 0;
static std::vector<uintptr_t>* g_freeList[40];      // by size class (power of two of the block)
static std::vector<uintptr_t>* g_quar;              // quarantine ring
static size_t g_quarPos = 0;
static std::map<uint64_t, uintptr_t>* g_live;       // serial -> user pointer

static void heapInit() {
  void* p = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* q = mmap((void*)SHADOW, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED || q == MAP_FAILED) internalError("cannot map the simulated heap");
  g_bump = ARENA + 4096;
  for (auto& f : g_freeList) f = new std::vector<uintptr_t>();
  g_quar = new std::vector<uintptr_t>((size_t)g_cfg.quarantine, 0);
  g_live = new std::map<uint64_t, uintptr_t>();
  g_heapReady = true;
}
static inline bool inArena(uintptr_t a) { return a - ARENA < ARENA_SZ; }
// shadow byte: number of addressable bytes of the 8-byte granule (0..8)
static inline uint8_t* shadow(uintptr_t a) { return (uint8_t*)(SHADOW + ((a - ARENA) >> 3)); }
static void rawSet(void* d, int v, size_t n) { __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); }
static void rawCopy(void* d, const void* s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }

static int sizeClass(size_t total) { int c = 6; while (((size_t)1 << c) < total) c++; return c; }
static void* heapAlloc(size_t n, void* pc) {
  In in;
  if (n > g_cfg.heapLimit || g_liveBytes + n > g_cfg.heapLimit) return nullptr;
  size_t user = n ? n : 1;
  size_t total = ((user + 7) & ~(size_t)7) + sizeof(Hdr) + 32;
  int c = sizeClass(total);
  uintptr_t base;
  if (!g_freeList[c]->empty()) { base = g_freeList[c]->back(); g_freeList[c]->pop_back(); }
  else { base = g_bump; g_bump += (size_t)1 << c; if (g_bump > ARENA + ARENA_SZ) internalError("simulated heap exhausted"); }
  Hdr* h = (Hdr*)base;
  uintptr_t u = base + sizeof(Hdr);
  h->size = n; h->serial = ++g_serial; h->magic = LIVE; h->op = (uint32_t)t_self->ctx->op; h->pc = pc;
  rawSet((void*)u, g_cfg.fill, user);
  rawSet(shadow(u), 8, user >> 3);
  if (user & 7) *shadow(u + (user & ~(size_t)7)) = (uint8_t)(user & 7);
  g_liveBytes += n; g_liveBlocks++; g_totalAllocs++;
  (*g_live)[h->serial] = u;
  if (g_alive > 1) forgetRange(u, user);
  return (void*)u;
}
static void heapFree(void* p, void* pc) {
  In in;
  uintptr_t u = (uintptr_t)p;
  Hdr* h = (Hdr*)(u - sizeof(Hdr));
  if (h->magic != LIVE) {
    std::string s = h->magic == DEAD ? "block released twice, second time at " : "release of a pointer that is no block, at ";
    violation("memory", s + where(pc));
  }
  size_t user = h->size ? h->size : 1;
  h->magic = DEAD;
  g_liveBytes -= h->size; g_liveBlocks--;
  g_live->erase(h->serial);
  rawSet(shadow(u), 0, (user + 7) >> 3);
  rawSet(p, 0xDD, user);
  if (g_alive > 1) forgetRange(u, user);
  if (!g_mx->empty()) { auto a = g_mx->lower_bound(u), b = g_mx->lower_bound(u + user); g_mx->erase(a, b); }
  if (!g_sync->empty()) { auto a = g_sync->lower_bound(u), b = g_sync->lower_bound(u + user); g_sync->erase(a, b); }
  if (g_quar->empty()) { g_freeList[sizeClass(((user + 7) & ~(size_t)7) + sizeof(Hdr) + 32)]->push_back(u - sizeof(Hdr)); return; }   // the next block of the size gets it
  uintptr_t& slot = (*g_quar)[g_quarPos];
  if (slot) {
    Hdr* o = (Hdr*)slot;
    size_t ou = o->size ? o->size : 1;
    g_freeList[sizeClass(((ou + 7) & ~(size_t)7) + sizeof(Hdr) + 32)]->push_back(slot);
  }
  slot = u - sizeof(Hdr);
  g_quarPos = (g_quarPos + 1) % g_quar->size();
}
static void heapBad(uintptr_t a, size_t n, bool w, void* pc) {
  In in;
  std::string s = std::string(w ? "write" : "read") + " of " + std::to_string(n) + " bytes outside any live block at " + where(pc);
  // nearest block below
  uintptr_t best = 0;
  for (auto& kv : *g_live) if (kv.second <= a && kv.second > best) best = kv.second;
  if (best) {
    Hdr* h = (Hdr*)(best - sizeof(Hdr));
    s += "; nearest live block below: " + std::to_string(a - best) + " bytes past start, size " + std::to_string(h->size);
  }
  violation("memory", s);
}
static inline void heapCheck(uintptr_t a, size_t n, bool w, void* pc) {
  if (!inArena(a)) return;
  uintptr_t e = a + n - 1;
  uint8_t s = *shadow(a);
  if (__builtin_expect((a >> 3) == (e >> 3), 1)) {
    if (__builtin_expect((e & 7) >= s, 0)) heapBad(a, n, w, pc);
    return;
  }
  if (s < 8) heapBad(a, n, w, pc);
  for (uintptr_t k = (a | 7) + 1; k <= e; k += 8) {
    uint8_t t = *shadow(k);
    unsigned need = (unsigned)(e - k >= 7 ? 8 : (e - k) + 1);
    if (t < need) heapBad(a, n, w, pc);
  }
}
HeapStat heap() { return HeapStat{g_liveBytes, g_liveBlocks, g_totalAllocs}; }
void moreBudget(uint64_t times) { g_cfg.stepBudget += g_steps * times; }
uint64_t heapSerial() { return g_serial; }
std::string heapBlocksSince(uint64_t serial, size_t maxN) {
  In in;
  std::string s;
  size_t n = 0;
  for (auto it = g_live->upper_bound(serial); it != g_live->end() && n < maxN; ++it, n++) {
    Hdr* h = (Hdr*)(it->second - sizeof(Hdr));
    s += " [" + std::to_string(h->size) + " bytes, op " + std::to_string((int)h->op) + ", " + where(h->pc) + "]";
  }
  return s;
}

// ---------------------------------------------------------------- memory accesses of the library
static void memPreempt() {
  In in;
  int next = choose(false, false, false);
  planPreempt();
  if (next != t_self->id) switchTo(next, true);
}
// P_PCT lowers the priority of the running thread at a change point
static void pctPoint() {
  for (size_t i = 0; i < g_pctPoints.size(); i++) if (g_pctPoints[i] == g_sstep) t_self->prio = -(int64_t)(i + 1);
}
static inline void access(void* p, size_t n, bool w, void* pc) {
  if (!g_active || !t_self || t_internal || !t_self->sut) return;   // harness code shares inline functions with the library
  if (++g_steps > g_cfg.stepBudget) { In in; budget(); }
  heapCheck((uintptr_t)p, n, w, pc);
  if (g_alive > 1) {
    g_sstep++;
    if (__builtin_expect(g_sstep >= g_nextPreempt && !g_quiet, 0)) {
      if (g_cfg.sched.policy == P_PCT) pctPoint();
      memPreempt();
    }
    raceCheck((uintptr_t)p, n, w, pc);
  }
}

// ---------------------------------------------------------------- start of a run
static void startSlot(SimThread* t) {
  t->prio = g_cfg.sched.policy == P_PCT ? (int64_t)(1000 + g_rng.below(1000000)) : 0;
}
void begin(const RunCfg& cfg) {
  t_internal++;
  g_cfg = cfg;
  std::stable_sort(g_cfg.decisions.begin(), g_cfg.decisions.end(), [](const Dec& a, const Dec& b) { return a.step < b.step; });
  g_rng = Rng(cfg.sched.seed);
  g_crng = Rng(cfg.clock.seed);
  g_now = cfg.clock.base;
  g_mx = new std::map<uintptr_t, Mx>();
  g_rw = new std::map<uintptr_t, Rw>();
  g_sync = new std::map<uintptr_t, VC>();
  g_raceText = new std::string();
  g_cells = (Cell*)mmap(nullptr, sizeof(Cell) * (size_t)CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  heapInit();
  if (cfg.sched.policy == P_PCT) {
    for (int i = 0; i < cfg.sched.depth; i++) g_pctPoints.push_back(1 + g_rng.below((uint64_t)cfg.sched.horizon));
    std::sort(g_pctPoints.begin(), g_pctPoints.end());
  }
  SimThread* t = new SimThread();
  t->id = 0; t->state = T_RUN; t->sut = 0; t->real = pthread_self();
  t->vc.c[0] = 1;
  startSlot(t);
  g_thr[0] = t; g_nthr = 1; g_alive = 1;
  t_self = t;
  g_active = true;
  t_internal--;
}

int liveThreads() { int n = 0; for (int i = 1; i < g_nthr; i++) n += g_thr[i]->state == T_RUN || g_thr[i]->state == T_BLOCK; return n; }
int unjoinedThreads() { int n = 0; for (int i = 1; i < g_nthr; i++) n += g_thr[i]->state == T_DONE && !g_thr[i]->joined && !g_thr[i]->detached; return n; }

// ---------------------------------------------------------------- real functions
#define REAL(name) ((decltype(&::name))realSym(#name))
static void* realSym(const char* n) {
  void* p = dlsym(RTLD_NEXT, n);
  if (!p) { fprintf(stderr, "simulator: no real %s\n", n); _exit(99); }
  return p;
}
#define FWD(name, ...) do { static decltype(&::name) f = REAL(name); return f(__VA_ARGS__); } while (0)

static void* trampoline(void* a) {
  SimThread* t = (SimThread*)a;
  t_self = t;
  futexWait(&t->go);
  for (;;) {
    t->ret = t->fn(t->arg);
    // finished
    t_internal++;
    g_steps++;
    if (g_alive > 1) g_sstep++;
    t->vc.c[t->id]++;
    t->state = T_DONE;
    g_alive--;
    wake(W_JOIN, (uintptr_t)t, 1000);
    sh->inter = mix(sh->inter, 0x1000 + (uint64_t)t->id);
    if (t->detached) t->joined = true;
    int next = choose(true, true, false);
    t_internal--;
    switchTo(next, false);
    futexWait(&t->go);   // reused for a later thread
  }
  return nullptr;
}

// what the library sees as identity of a thread; addresses would differ from run to run
static pthread_t handle(SimThread* t) { return (pthread_t)(0x510000 + 64 * (uintptr_t)t->id); }
static int createThread(pthread_t* out, void* (*fn)(void*), void* arg, int sut, bool inherit) {
  // reuse the slot of a joined thread, else a new one
  SimThread* t = nullptr;
  for (int i = 1; i < g_nthr; i++) if (g_thr[i]->state == T_DONE && g_thr[i]->joined) { t = g_thr[i]; break; }
  bool fresh = !t;
  if (fresh) {
    if (g_nthr >= MAXT) return -1;
    t = new SimThread();
    t->id = g_nthr;
    g_thr[g_nthr++] = t;
  }
  if (g_alive == 1) { g_gen++; g_sync->clear(); planPreempt(); }   // start of a concurrent phase
  t->fn = fn; t->arg = arg; t->ret = nullptr; t->joined = t->detached = false; t->sut = sut;
  t->state = T_RUN; t->wait = W_NONE;
  uint32_t own = t->vc.c[t->id];
  t->vc = t_self->vc;
  t->vc.c[t->id] = own + 1;
  t_self->vc.c[t_self->id]++;
  t->own = OpCtx();
  t->ctx = inherit ? t_self->ctx : &t->own;
  startSlot(t);
  g_alive++;
  if ((uint64_t)g_alive > sh->maxThreads) sh->maxThreads = (uint64_t)g_alive;
  if (fresh) {
    static auto rc = REAL(pthread_create);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    if (rc(&t->real, &at, trampoline, t) != 0) internalError("cannot create a real thread");
  }
  *out = handle(t);
  note("create", t->id);
  return t->id;
}
static SimThread* byHandle(pthread_t h) {
  for (int i = 1; i < g_nthr; i++) if (handle(g_thr[i]) == h && !(g_thr[i]->state == T_DONE && g_thr[i]->joined)) return g_thr[i];
  return nullptr;
}
static void doJoin(SimThread* t) {
  while (t->state != T_DONE) blockOn(W_JOIN, (uintptr_t)t);
  t_self->vc.join(t->vc);
  t->joined = true;
}
int spawn(void (*fn)(void*), void* arg) {
  In in;
  pthread_t h;
  int id = createThread(&h, (void* (*)(void*))fn, arg, 0, false);
  if (id < 0) internalError("too many simulated threads");
  return id;
}
void joinSim(int tid) { In in; doJoin(g_thr[tid]); }

// ---------------------------------------------------------------- mutex / condition internals
static Mx& mx(void* m) { return (*g_mx)[(uintptr_t)m]; }
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static int lockMutex(pthread_mutex_t* m, int64_t deadline) {
  SimThread* me = t_self;
  if (mx(m).owner == me->id && recursive(m)) { mx(m).depth++; return 0; }
  while (mx(m).owner >= 0) {
    blockOn(W_MUTEX, (uintptr_t)m, deadline);
    if (me->timedOut && mx(m).owner >= 0) return ETIMEDOUT;
  }
  mx(m).owner = me->id;
  mx(m).depth = 1;
  acquire((uintptr_t)m);
  return 0;
}
static void unlockMutex(pthread_mutex_t* m) {
  Mx& x = mx(m);
  if (x.owner != t_self->id) { violation("lock", "a mutex is unlocked by a thread that does not hold it"); }
  if (--x.depth > 0) return;
  x.owner = -1;
  release((uintptr_t)m);
  wake(W_MUTEX, (uintptr_t)m, 1000);
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  SimThread* me = t_self;
  int d = mx(m).depth;
  mx(m).depth = 1;
  unlockMutex(m);
  bool drawn = g_cfg.sched.pspur > 0 && g_rng.chance(g_cfg.sched.pspur);
  bool spurious = decide(2, 0, drawn ? 1 : 0) == 1;
  bool timed = false;
  if (spurious) { sh->fired[K_SPURIOUS]++; syncPoint(3); }
  else {
    blockOn(W_COND, (uintptr_t)c, deadline);
    timed = me->timedOut;
  }
  me->timedOut = false;
  lockMutex(m, -1);
  mx(m).depth = d;
  sh->inter = mix(sh->inter, 0x300 + (uint64_t)me->id);
  return timed ? ETIMEDOUT : 0;
}
static void condSignal(pthread_cond_t* c) {
  int list[MAXT], n = 0;
  for (int i = 0; i < g_nthr; i++) if (g_thr[i]->state == T_BLOCK && g_thr[i]->wait == W_COND && g_thr[i]->obj == (uintptr_t)c) list[n++] = i;
  std::sort(list, list + n, [](int a, int b) { return g_thr[a]->waitSeq < g_thr[b]->waitSeq; });
  if (n == 0) return;
  int k = n > 1 ? decide(n, 0, (int)g_rng.below((uint64_t)n)) : 0;
  g_thr[list[k]]->state = T_RUN;
}

}  // namespace rt

using namespace rt;

// ================================================================ interposed functions
extern "C" {

int pthread_create(pthread_t* thr, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!inSim()) FWD(pthread_create, thr, attr, fn, arg);
  Fault f;
  if (fault(K_THREAD, f)) return f.err ? f.err : EAGAIN;
  In in;
  int ds = 0;
  if (attr) pthread_attr_getdetachstate(attr, &ds);
  int id = createThread(thr, fn, arg, 1, true);
  if (id < 0) return EAGAIN;      // as the operating system does at some point
  if (ds == PTHREAD_CREATE_DETACHED) g_thr[id]->detached = true;
  syncPoint(1);
  return 0;
}
int pthread_join(pthread_t thr, void** ret) {
  if (!inSim()) FWD(pthread_join, thr, ret);
  In in;
  SimThread* t = byHandle(thr);
  if (!t) return ESRCH;
  syncPoint(2);
  doJoin(t);
  if (ret) *ret = t->ret;
  return 0;
}
pthread_t pthread_self(void) {
  if (!g_active || !t_self) FWD(pthread_self);
  return handle(t_self);
}
int pthread_setname_np(pthread_t thr, const char* n) { if (!inSim()) FWD(pthread_setname_np, thr, n); return strlen(n) > 15 ? ERANGE : 0; }
int pthread_getname_np(pthread_t thr, char* b, size_t n) { if (!inSim()) FWD(pthread_getname_np, thr, b, n); if (n < 16) return ERANGE; strcpy(b, "sim"); return 0; }
int pthread_setaffinity_np(pthread_t thr, size_t n, const cpu_set_t* c) { if (!inSim()) FWD(pthread_setaffinity_np, thr, n, c); return 0; }
int pthread_getaffinity_np(pthread_t thr, size_t n, cpu_set_t* c) { if (!inSim()) FWD(pthread_getaffinity_np, thr, n, c); memset(c, 0, n); for (int i = 0; i < g_cfg.nprocs; i++) CPU_SET_S((size_t)i, n, c); return 0; }
int pthread_setschedparam(pthread_t thr, int p, const struct sched_param* q) { if (!inSim()) FWD(pthread_setschedparam, thr, p, q); return 0; }
int pthread_getschedparam(pthread_t thr, int* p, struct sched_param* q) { if (!inSim()) FWD(pthread_getschedparam, thr, p, q); *p = 0; memset(q, 0, sizeof *q); return 0; }
int pthread_detach(pthread_t thr) {
  if (!inSim()) FWD(pthread_detach, thr);
  SimThread* t = byHandle(thr);
  if (!t) return ESRCH;
  t->detached = true;
  if (t->state == T_DONE) t->joined = true;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!inSim()) FWD(pthread_mutex_lock, m);
  In in;
  syncPoint(4);
  return lockMutex(m, -1);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!inSim()) FWD(pthread_mutex_trylock, m);
  In in;
  syncPoint(5);
  if (mx(m).owner >= 0 && !(mx(m).owner == t_self->id && recursive(m))) return EBUSY;
  return lockMutex(m, -1);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  if (!inSim()) FWD(pthread_mutex_timedlock, m, ts);
  In in;
  syncPoint(5);
  return lockMutex(m, absDeadline(ts));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) {
  if (!inSim()) FWD(pthread_mutex_clocklock, m, ck, ts);
  In in;
  syncPoint(5);
  return lockMutex(m, absDeadline(ts));
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!inSim()) FWD(pthread_mutex_unlock, m);
  In in;
  unlockMutex(m);
  syncPoint(6);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!inSim()) FWD(pthread_mutex_destroy, m);
  In in;
  g_mx->erase((uintptr_t)m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!inSim()) FWD(pthread_cond_wait, c, m);
  In in;
  return condWait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!inSim()) FWD(pthread_cond_timedwait, c, m, ts);
  In in;
  return condWait(c, m, absDeadline(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) {
  if (!inSim()) FWD(pthread_cond_clockwait, c, m, ck, ts);
  In in;
  return condWait(c, m, absDeadline(ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!inSim()) FWD(pthread_cond_signal, c);
  In in;
  condSignal(c);
  syncPoint(7);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!inSim()) FWD(pthread_cond_broadcast, c);
  In in;
  wake(W_COND, (uintptr_t)c, 1000);
  syncPoint(8);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (!inSim()) FWD(pthread_cond_destroy, c);
  return 0;
}
int pthread_once(pthread_once_t* ctl, void (*fn)(void)) {
  if (!inSim()) FWD(pthread_once, ctl, fn);
  {
    In in;
    syncPoint(9);
    while (*ctl == 1) blockOn(W_ONCE, (uintptr_t)ctl);
    acquire((uintptr_t)ctl);
    if (*ctl == 2) return 0;
    *ctl = 1;
  }
  try { fn(); }
  catch (...) {
    { In in; *ctl = 0; release((uintptr_t)ctl); wake(W_ONCE, (uintptr_t)ctl, 1000); }
    throw;
  }
  In in;
  *ctl = 2;
  release((uintptr_t)ctl);
  wake(W_ONCE, (uintptr_t)ctl, 1000);
  syncPoint(9);
  return 0;
}
// static-local guards: byte 0 is "initialised" (tested inline by the compiler), byte 1 is ours
int simGuard_acquire(uint64_t* g) __asm__("__cxa_guard_acquire");
int simGuard_acquire(uint64_t* g) {
  volatile uint8_t* b = (volatile uint8_t*)g;
  if (!inSim()) {   // no concurrency outside a simulated run
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
  }
  In in;
  syncPoint(10);
  while (b[1]) blockOn(W_ONCE, (uintptr_t)g);
  acquire((uintptr_t)g);
  if (b[0]) return 0;
  b[1] = 1;
  return 1;
}
void simGuard_release(uint64_t* g) __asm__("__cxa_guard_release");
void simGuard_release(uint64_t* g) {
  volatile uint8_t* b = (volatile uint8_t*)g;
  b[0] = 1; b[1] = 0;
  if (!inSim()) return;
  In in;
  release((uintptr_t)g);
  wake(W_ONCE, (uintptr_t)g, 1000);
  syncPoint(10);
}
void simGuard_abort(uint64_t* g) __asm__("__cxa_guard_abort");
void simGuard_abort(uint64_t* g) {
  volatile uint8_t* b = (volatile uint8_t*)g;
  b[1] = 0;
  if (!inSim()) return;
  In in;
  release((uintptr_t)g);
  wake(W_ONCE, (uintptr_t)g, 1000);
  syncPoint(10);
}
// exception objects live in the real heap; their memory moves between threads without a synchronisation of the library
void* simAllocateException(size_t n) __asm__("__cxa_allocate_exception");
void* simAllocateException(size_t n) {
  static void* (*f)(size_t) = (void* (*)(size_t))realSym("__cxa_allocate_exception");
  void* p = f(n);
  if (g_active && t_self && g_alive > 1) forgetRange((uintptr_t)p, n);
  return p;
}
// read-write locks
static Rw& rw(void* p) { return (*g_rw)[(uintptr_t)p]; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!inSim()) FWD(pthread_rwlock_rdlock, l);
  In in;
  syncPoint(11);
  while (rw(l).writer >= 0) blockOn(W_RW, (uintptr_t)l);
  rw(l).readers++;
  acquire((uintptr_t)l);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!inSim()) FWD(pthread_rwlock_wrlock, l);
  In in;
  syncPoint(11);
  while (rw(l).writer >= 0 || rw(l).readers > 0) blockOn(W_RW, (uintptr_t)l);
  rw(l).writer = t_self->id;
  acquire((uintptr_t)l);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!inSim()) FWD(pthread_rwlock_tryrdlock, l);
  In in;
  syncPoint(11);
  if (rw(l).writer >= 0) return EBUSY;
  rw(l).readers++;
  acquire((uintptr_t)l);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!inSim()) FWD(pthread_rwlock_trywrlock, l);
  In in;
  syncPoint(11);
  if (rw(l).writer >= 0 || rw(l).readers > 0) return EBUSY;
  rw(l).writer = t_self->id;
  acquire((uintptr_t)l);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!inSim()) FWD(pthread_rwlock_unlock, l);
  In in;
  if (rw(l).writer == t_self->id) rw(l).writer = -1; else if (rw(l).readers > 0) rw(l).readers--;
  release((uintptr_t)l);
  wake(W_RW, (uintptr_t)l, 1000);
  syncPoint(12);
  return 0;
}
// POSIX semaphores; the counter lives in the object itself
int sem_init(sem_t* s, int ps, unsigned v) {
  if (!inSim()) FWD(sem_init, s, ps, v);
  *(volatile int*)s = (int)v;
  return 0;
}
int sem_wait(sem_t* s) {
  if (!inSim()) FWD(sem_wait, s);
  In in;
  syncPoint(13);
  volatile int* v = (volatile int*)s;
  while (*v <= 0) blockOn(W_SEM, (uintptr_t)s);
  --*v;
  acquire((uintptr_t)s);
  return 0;
}
int sem_post(sem_t* s) {
  if (!inSim()) FWD(sem_post, s);
  In in;
  ++*(volatile int*)s;
  release((uintptr_t)s);
  wake(W_SEM, (uintptr_t)s, 1);
  syncPoint(14);
  return 0;
}
int sem_trywait(sem_t* s) {
  if (!inSim()) FWD(sem_trywait, s);
  In in;
  syncPoint(13);
  volatile int* v = (volatile int*)s;
  if (*v <= 0) { errno = EAGAIN; return -1; }
  --*v;
  acquire((uintptr_t)s);
  return 0;
}
int sem_getvalue(sem_t* s, int* v) { if (!inSim()) FWD(sem_getvalue, s, v); *v = *(volatile int*)s; return 0; }
// barriers and spin locks, kept in the object itself
struct Bar { int total, waiting, round; };
int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t* a, unsigned n) {
  if (!inSim()) FWD(pthread_barrier_init, b, a, n);
  *(Bar*)b = Bar{(int)n, 0, 0};
  return 0;
}
int pthread_barrier_wait(pthread_barrier_t* p) {
  if (!inSim()) FWD(pthread_barrier_wait, p);
  In in;
  syncPoint(13);
  volatile Bar* b = (volatile Bar*)p;
  release((uintptr_t)p);
  int round = b->round;
  b->waiting = b->waiting + 1;
  if (b->waiting == b->total) {
    b->waiting = 0;
    b->round = round + 1;
    wake(W_SEM, (uintptr_t)p, INT_MAX);
    acquire((uintptr_t)p);
    return PTHREAD_BARRIER_SERIAL_THREAD;
  }
  while (b->round == round) blockOn(W_SEM, (uintptr_t)p);
  acquire((uintptr_t)p);
  return 0;
}
int pthread_barrier_destroy(pthread_barrier_t* b) { if (!inSim()) FWD(pthread_barrier_destroy, b); return 0; }
int pthread_spin_init(pthread_spinlock_t* l, int ps) { if (!inSim()) FWD(pthread_spin_init, l, ps); *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t* l) { if (!inSim()) FWD(pthread_spin_destroy, l); return 0; }
int pthread_spin_trylock(pthread_spinlock_t* l) {
  if (!inSim()) FWD(pthread_spin_trylock, l);
  In in;
  syncPoint(13);
  if (*l) return EBUSY;
  *l = 1;
  acquire((uintptr_t)l);
  return 0;
}
int pthread_spin_lock(pthread_spinlock_t* l) {
  if (!inSim()) FWD(pthread_spin_lock, l);
  In in;
  syncPoint(13);
  while (*l) blockOn(W_SEM, (uintptr_t)l);
  *l = 1;
  acquire((uintptr_t)l);
  return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* l) {
  if (!inSim()) FWD(pthread_spin_unlock, l);
  In in;
  *l = 0;
  release((uintptr_t)l);
  wake(W_SEM, (uintptr_t)l, 1);
  syncPoint(14);
  return 0;
}
int sem_destroy(sem_t* s) {
  if (!inSim()) FWD(sem_destroy, s);
  return 0;
}
// futex based waiting of std::future and std::atomic
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (!inSim() || n != SYS_futex) {
    long r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
  }
  In in;
  int op = (int)b & 127;
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    syncPoint(15);
    if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
    int64_t dl = -1;
    if (d) dl = absDeadline((const struct timespec*)d) + (op == FUTEX_WAIT ? g_now : 0);
    blockOn(W_FUTEX, (uintptr_t)a, dl);
    if (t_self->timedOut) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    int k = wake(W_FUTEX, (uintptr_t)a, (int)c);
    syncPoint(16);
    return k;
  }
  errno = ENOSYS;
  return -1;
}
int sched_yield(void) {
  if (!inSim()) FWD(sched_yield);
  In in;
  syncPoint(17, true);
  return 0;
}
static int simSleep(int64_t ns) {
  In in;
  if (ns < 0) ns = 0;
  note("sleep", ns);
  if (g_alive <= 1) { g_steps++; budget(); g_now += ns; return 0; }
  blockOn(W_SLEEP, 0, g_now + ns);
  return 0;
}
int nanosleep(const struct timespec* r, struct timespec* rem) {
  if (!inSim()) FWD(nanosleep, r, rem);
  return simSleep(absDeadline(r));
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec* rem) {
  if (!inSim()) FWD(clock_nanosleep, c, flags, r, rem);
  return simSleep(flags & TIMER_ABSTIME ? absDeadline(r) - g_now : absDeadline(r));
}
int usleep(useconds_t us) {
  if (!inSim()) FWD(usleep, us);
  return simSleep((int64_t)us * 1000);
}
unsigned sleep(unsigned s) {
  if (!inSim()) FWD(sleep, s);
  simSleep((int64_t)s * 1000000000ll);
  return 0;
}
// clocks: simulated from program start, so that static initialisers see simulated time as well
static int64_t clockNow() {
  if (inSim() && g_active) {
    int64_t t = t_self->sut > 0 ? readClock() : g_now;
    if (g_alive > 1) { In in; syncPoint(18); }
    return t;
  }
  return g_active ? g_now : ClockCfg().base;
}
static bool g_realClock = false;
void rtUseRealClock(int on) { g_realClock = on != 0; }
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (g_realClock && !g_active) { long r = raw(SYS_clock_gettime, c, (long)ts); if (r < 0) { errno = (int)-r; return -1; } return 0; }
  int64_t t = clockNow();
  int64_t s = t / 1000000000ll, n = t % 1000000000ll;
  if (n < 0) { n += 1000000000ll; s--; }
  ts->tv_sec = s; ts->tv_nsec = n;
  return 0;
}
int gettimeofday(struct timeval* tv, void* tz) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
clock_t clock(void) { struct timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); return (clock_t)(ts.tv_sec * 1000000 + ts.tv_nsec / 1000); }
int timespec_get(struct timespec* ts, int base) { clock_gettime(CLOCK_REALTIME, ts); return base; }
clock_t times(struct tms* t) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); clock_t c = (clock_t)(ts.tv_sec * 100 + ts.tv_nsec / 10000000); if (t) { t->tms_utime = c; t->tms_stime = t->tms_cutime = t->tms_cstime = 0; } return c; }
int getrusage(__rusage_who_t w, struct rusage* u) {
  if (!inSim()) { long r = raw(SYS_getrusage, w, (long)u); if (r < 0) { errno = (int)-r; return -1; } return 0; }
  memset(u, 0, sizeof *u);
  struct timespec ts;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
  u->ru_utime.tv_sec = ts.tv_sec; u->ru_utime.tv_usec = ts.tv_nsec / 1000;
  u->ru_maxrss = 10000;
  return 0;
}
// identity of the process and randomness
pid_t getpid(void) { return g_active ? 4000 + (pid_t)(g_cfg.sched.seed % 1000) : (pid_t)raw(SYS_getpid); }
static uint64_t entropy() { static Rng* r = new Rng(mix(g_cfg.sched.seed, 0x656e74)); return r->next(); }
ssize_t getrandom(void* b, size_t n, unsigned f) {
  if (!g_active) { long r = raw(SYS_getrandom, (long)b, (long)n, f); if (r < 0) { errno = (int)-r; return -1; } return r; }
  In in;
  for (size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = (unsigned char)(entropy() >> 17);
  return (ssize_t)n;
}
int getentropy(void* b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
unsigned _ZNSt13random_device9_M_getvalEv(void*) { In in; return (unsigned)(entropy() >> 20); }
int get_nprocs(void) { return g_active ? g_cfg.nprocs : 1; }
int get_nprocs_conf(void) { return g_active ? g_cfg.nprocs : 1; }

// memory functions: bounds checked when they touch the simulated heap
static inline void memRange(const void* p, size_t n, bool w, void* pc) {
  if (!n || !g_active || !t_self || t_internal || !t_self->sut) return;
  heapCheck((uintptr_t)p, n, w, pc);
  if (g_alive > 1 && (char*)pc >= &__executable_start && (char*)pc < &etext) raceCheck((uintptr_t)p, n, w, pc);
}
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) {
  void* pc = __builtin_return_address(0);
  memRange(s, n, false, pc); memRange(d, n, true, pc);
  rawCopy(d, s, n);
  return d;
}
void* memset(void* d, int v, size_t n) {
  memRange(d, n, true, __builtin_return_address(0));
  rawSet(d, v, n);
  return d;
}
void* memmove(void* d, const void* s, size_t n) {
  void* pc = __builtin_return_address(0);
  memRange(s, n, false, pc); memRange(d, n, true, pc);
  if ((uintptr_t)d - (uintptr_t)s >= n) rawCopy(d, s, n);
  else {
    char* dd = (char*)d + n - 1; const char* ss = (const char*)s + n - 1;
    __asm__ volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  }
  return d;
}

// ---------------------------------------------------------------- compiler instrumentation
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define ACC(n)                                                                             \
  void __tsan_read##n(void* p) { access(p, n, false, __builtin_return_address(0)); }      \
  void __tsan_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); }      \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, __builtin_return_address(0)); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, __builtin_return_address(0)); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); } \
  void __tsan_read_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, size_t n) { if (n) access(p, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void* p, size_t n) { if (n) access(p, n, true, __builtin_return_address(0)); }
// whether the pointer changes may depend on stale stack content, so it must not decide on a step
void __tsan_vptr_update(void** p, void* v) { access(p, 8, *p != v, __builtin_return_address(0)); }
void __tsan_vptr_read(void** p) { access(p, 8, false, __builtin_return_address(0)); }

static void atomicPoint(void* p, size_t n, bool w, void* pc) {
  if (!g_active || !t_self || t_internal || !t_self->sut) return;   // harness code shares inline functions with the library
  In in;
  heapCheck((uintptr_t)p, n, w, pc);
  syncPoint(20);
}
static bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void hbAtomic(const volatile void* p, int mo, bool r, bool w) {
  if (!g_active || !t_self || t_internal || !t_self->sut) return;   // harness code shares inline functions with the library
  In in;
  if (r && isAcq(mo)) acquire((uintptr_t)p);
  if (w && isRel(mo)) release((uintptr_t)p);
}
#define ATOM(bits, T)                                                                                     \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                                             \
    atomicPoint((void*)a, sizeof(T), false, __builtin_return_address(0));                                 \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); hbAtomic(a, mo, true, false); return v; }                 \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                                          \
    atomicPoint((void*)a, sizeof(T), true, __builtin_return_address(0));                                  \
    hbAtomic(a, mo, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }                             \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                                          \
    atomicPoint((void*)a, sizeof(T), true, __builtin_return_address(0));                                  \
    hbAtomic(a, mo, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }                    \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) {                                         \
    atomicPoint((void*)a, sizeof(T), true, __builtin_return_address(0));                                  \
    hbAtomic(a, mo, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }                     \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) {                                         \
    atomicPoint((void*)a, sizeof(T), true, __builtin_return_address(0));                                  \
    hbAtomic(a, mo, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }                     \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) {                                         \
    atomicPoint((void*)a, sizeof(T), true, __builtin_return_address(0));                                  \
    hbAtomic(a, mo, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }                     \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) {                                          \
    atomicPoint((void*)a, sizeof(T), true, __builtin_return_address(0));                                  \
    hbAtomic(a, mo, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }                      \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) {                                         \
    atomicPoint((void*)a, sizeof(T), true, __builtin_return_address(0));                                  \
    hbAtomic(a, mo, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }                     \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) {                                        \
    atomicPoint((void*)a, sizeof(T), true, __builtin_return_address(0));                                  \
    hbAtomic(a, mo, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }                    \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {          \
    atomicPoint((void*)a, sizeof(T), true, __builtin_return_address(0));                                  \
    bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);            \
    hbAtomic(a, ok ? mo : fmo, true, ok); return ok; }                                                    \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {            \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); }                             \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {                \
    __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) {
  if (!g_active || !t_self || t_internal || !t_self->sut) return;   // harness code shares inline functions with the library
  In in;
  // conservative: a fence synchronises with every other fence
  acquire(1);
  release(1);
  syncPoint(21);
}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"

// ================================================================ operator new / delete
extern "C" { void* __real_malloc(size_t); void* __real_realloc(void*, size_t); void __real_free(void*); }
static void* simNew(size_t n, void* pc) {
  if (g_active && t_self && !t_internal && t_self->sut > 0) {
    Fault f;
    if (fault(K_ALLOC, f)) return nullptr;
    return heapAlloc(n, pc);
  }
  return __real_malloc(n ? n : 1);
}
static void simDelete(void* p, void* pc) {
  if (!p) return;
  if (inArena((uintptr_t)p)) heapFree(p, pc);
  else __real_free(p);
}
// malloc and free of the linked objects (linker option --wrap); shared libraries keep the real ones
extern "C" {
void* __wrap_malloc(size_t n) { return simNew(n, __builtin_return_address(0)); }
void* __wrap_calloc(size_t a, size_t b) {
  if (b && a > (size_t)-1 / b) return nullptr;
  void* p = simNew(a * b, __builtin_return_address(0));
  if (p) rawSet(p, 0, a * b);
  return p;
}
void* __wrap_realloc(void* p, size_t n) {
  if (p && !inArena((uintptr_t)p)) return __real_realloc(p, n);
  void* q = simNew(n, __builtin_return_address(0));
  if (q && p) {
    size_t old = ((Hdr*)((uintptr_t)p - sizeof(Hdr)))->size;
    rawCopy(q, p, old < n ? old : n);
    simDelete(p, __builtin_return_address(0));
  }
  return q;
}
void __wrap_free(void* p) { simDelete(p, __builtin_return_address(0)); }
}
void* operator new(size_t n) { void* p = simNew(n, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = simNew(n, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return simNew(n, __builtin_return_address(0)); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return simNew(n, __builtin_return_address(0)); }
void operator delete(void* p) noexcept { simDelete(p, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { simDelete(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { simDelete(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { simDelete(p, __builtin_return_address(0)); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simDelete(p, __builtin_return_address(0)); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { simDelete(p, __builtin_return_address(0)); }
