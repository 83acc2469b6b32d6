// Simulator runtime: owns scheduling, clock, allocation and fault decisions of one simulated run.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <vector>

namespace rt {

// ---------------------------------------------------------------- random numbers (own, portable)
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }  // inclusive
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 14695981039346656037ull) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

// ---------------------------------------------------------------- faults
enum Kind {
  K_ALLOC, K_THREAD, K_OPEN, K_READ, K_WRITE, K_CLOSE, K_SEEK, K_SYNC, K_RENAME, K_CLOCK, K_CRASH, K_SPURIOUS,
  K_DISKFULL, NKIND
};
extern const char* kindName[NKIND];
struct Fault {
  int op = 0;        // index of the operation (global over all incarnations)
  int kind = 0;
  int64_t nth = 1;   // nth occurrence of that kind inside the operation
  int64_t arg = 0;   // kind specific (bytes, nanoseconds, image seed)
  int err = 0;       // errno, or mode
  int64_t sticky = 0;// >0: that many further occurrences fail as well
};

// ---------------------------------------------------------------- schedule
enum Policy { P_SERIAL, P_RANDOM, P_PCT, P_RR, P_STARVE, P_EXPLICIT };
struct SchedCfg {
  int policy = P_SERIAL;
  uint64_t seed = 1;
  int64_t mean = 50;      // mean distance of preemptions in memory accesses (P_RANDOM), quantum (P_RR)
  double psync = 0.5;     // probability of a switch at a synchronisation point
  int depth = 3;          // P_PCT change points
  int64_t horizon = 2000; // P_PCT estimated length
  int victim = 1;         // P_STARVE
  double pspur = 0;       // probability that a condition wait wakes spuriously
};
struct Dec { uint64_t step; int32_t val; };

struct ClockCfg {
  int64_t base = 1600000000ll * 1000000000ll;
  int mode = 0;           // 0: one microsecond per read, 1: frozen, 2: random steps up to `step`, 3: +/- jumps, 4: fixed step
  int64_t step = 1000;
  uint64_t seed = 1;
};

// ---------------------------------------------------------------- results shared with the parent
enum Status { S_RUNNING, S_OK, S_VIOLATION, S_CRASH, S_ERROR };
enum { MAXOPS = 400, MAXDEC = 1 << 18, IMAGE = 16 << 20, HISTSZ = 4 << 20, CARRY = 16 << 20 };
struct Shared {
  int status;
  int curOp;                 // operation in progress (-1: harness)
  int phase;                 // harness phase tag
  char vkind[64];
  char msg[6000];
  uint64_t trace, inter, steps, ssteps, switches, syncs;
  int64_t simNs;
  uint64_t maxThreads;
  uint64_t fired[NKIND];
  uint64_t seen[NKIND];
  uint32_t counts[MAXOPS][NKIND];
  char outcome[MAXOPS];      // 0 not run, 1 ok, 2 failed, 3 crashed inside
  uint64_t oracleChecks;
  uint64_t apiCalls, apiFails;
  uint64_t tags[16];         // property specific counters
  uint32_t ndec; int decOverflow;
  Dec dec[MAXDEC];
  uint32_t imageLen;
  char image[IMAGE];
  int opIndex;
  uint32_t carryLen;
  char carry[CARRY];
  uint32_t histLen;
  char hist[HISTSZ];
};
extern Shared* sh;

// ---------------------------------------------------------------- control (used by the harness)
struct RunCfg {
  SchedCfg sched;
  std::vector<Dec> decisions;   // P_EXPLICIT
  std::vector<Fault> faults;
  ClockCfg clock;
  uint64_t stepBudget = 150000000;
  uint64_t heapLimit = 512u << 20;
  uint8_t fill = 0xA5;
  int quarantine = 512;         // released blocks that are kept from being used again
  int nprocs = 4;
  bool races = false;           // report data races
  bool memcheck = true;
};
void begin(const RunCfg& cfg);        // called in the child; the calling thread becomes simulated thread 0
extern void (*crashHook)(int mode);    // called when a crash fault fires, before the image is taken
bool active();
void setOp(int op);                   // resets the per-operation occurrence counters
int curOp();
uint64_t opGen();                      // number of setOp calls so far
void plainClock(bool on);              // reference computations run on an undisturbed clock
bool faultsNow();
void faultsOn(bool on);               // harness probes run with faults disabled
struct Sut { Sut(); ~Sut(); int saved; };   // inside: allocations belong to the library, points count
struct Internal { Internal(); ~Internal(); };
void quiet(bool on);                  // true: no preemption besides blocking (used by probes)
// true when the current occurrence of `kind` is to fail; f receives the fault
bool fault(int kind, Fault& f);
const Fault* armed(int kind);         // the fault of that kind planned for the current operation, without counting
void fired(int kind);
void note(const char* what, int64_t a = 0, int64_t b = 0);  // event into the trace hash
[[noreturn]] void violation(const char* kind, const std::string& msg);
[[noreturn]] void internalError(const std::string& msg);
[[noreturn]] void finish(int status);
int64_t nowNs();                      // simulated time without side effects
int liveThreads();                    // simulated threads other than 0 that have not finished
int unjoinedThreads();                // finished but neither joined nor detached
// spawn a simulated client thread from the harness
int spawn(void (*fn)(void*), void* arg);
void joinSim(int tid);

// heap bookkeeping
struct HeapStat { uint64_t liveBytes, liveBlocks, totalAllocs; };
HeapStat heap();
std::string heapBlocksSince(uint64_t serial, size_t maxN);   // description of live library blocks
uint64_t heapSerial();
void moreBudget(uint64_t times);      // as much again as was used so far, so many times
uint64_t stepsNow();
void ioStep();                         // one simulated disk operation took place
struct RaceInfo { bool found; std::string text; };
RaceInfo race();

// raw system calls used by the simulator itself
long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
bool inSim();    // calling thread is simulated and outside the simulator
bool inSut();
}  // namespace rt

// ---------------------------------------------------------------- simulated disk
namespace vfs {
void reset();
void put(const std::string& path, const std::string& data);     // durable content
bool get(const std::string& path, std::string& data);
const char* failure();      // first call on a file being written that failed for good
void clearFailure();
bool exists(const std::string& path);
void erase(const std::string& path);
std::vector<std::string> list();
int openCount();
std::string openList();
void loadImage(const char* p, uint32_t n);
void saveImage(int mode, uint64_t seed);    // into Shared::image; mode 0 process crash, 1 power loss
extern const char* ROOT;
}  // namespace vfs
