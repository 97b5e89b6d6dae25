// Deterministic simulator core: tasks, virtual time, decisions, event log, faults.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>
#include <set>
#include <map>

namespace sim {
typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64; typedef uint8_t u8;

constexpr u64 US = 1000ull, MS = 1000000ull, SEC = 1000000000ull, NEVER = ~0ull;

// ---------------------------------------------------------------- decisions
// Every choice a run makes is one decision: (category, index within category) -> value.
// Value 0 is always the plainest choice (no fault, keep running the same task, simplest operation).
enum Cat : u8 { C_CFG, C_OP, C_SCHED, C_NET, C_FAULT, C_FS, C_PREEMPT, C_DATA, C_CRASH, C_COUNT };
extern const char* const kCatName[C_COUNT];
struct Decision { u32 cat, idx, val; };

u32  choose(Cat c, u32 n);                       // uniform in [0,n)
bool chance(Cat c, double p);                    // true with probability p
u64  range(Cat c, u64 lo, u64 hi);               // inclusive; default lo
template<class T> const T& pick(Cat c, const std::vector<T>& v) { return v[choose(c, (u32)v.size())]; }

// ---------------------------------------------------------------- faults (counted when they really happen)
enum Fault {
  F_TCP_DELAY, F_TCP_RETRANS, F_TCP_RST, F_TCP_SYN_LOST, F_TCP_REFUSED, F_TCP_BLACKHOLE, F_TCP_SHORT_READ, F_TCP_SHORT_WRITE,
  F_PEER_STALL, F_PEER_GARBAGE, F_PARTITION, F_HEAL, F_HOST_CRASH, F_HOST_POWERLOSS, F_HOST_RESTART,
  F_UDP_LOSS, F_UDP_DUP, F_UDP_REORDER, F_UDP_CORRUPT, F_UDP_FORGED,
  F_EINTR, F_EMFILE, F_ECONNABORTED, F_THREAD_EAGAIN, F_ENETUNREACH, F_SOCK_FAIL, F_IFADDR_FAIL, F_RESOLVE_FAIL,
  F_SPURIOUS_WAKE, F_TASK_STALL, F_PREEMPT, F_CLOCK_JUMP, F_ENOMEM,
  F_FS_OPEN, F_FS_READ_EIO, F_FS_SHORT_READ, F_FS_WRITE_EIO, F_FS_SHORT_WRITE, F_FS_ENOSPC, F_FS_CLOSE_ERR, F_FS_MKDIR, F_FS_REMOVE, F_FS_SEEK,
  F_FS_LOST_WRITE, F_FS_TORN, F_FS_BITFLIP, F_FS_TRUNC, F_PROC_CRASH, F_FS_DIRORDER, F_FS_STAT, F_CANCEL, F_GARBAGE_INPUT,
  F_COUNT
};
extern const char* const kFaultName[F_COUNT];
// While one lives, the C_CFG, C_OP and C_DATA decisions of its thread come from a stream of their own: they do not depend on what others
// decide in between. key: a decision (0: everything is plain); pos: where in the stream, to continue it later.
struct Script { Script(u64 key, u64& pos); ~Script(); u64 key; u64& pos; Script* outer; };
void fault(Fault f);                             // count one occurrence

// ---------------------------------------------------------------- tasks
struct Task;
bool  active();                                  // calling thread is a simulated task in a running simulation
int   curTask();
int   curHost();
u64   now();                                     // virtual monotonic ns
u64   wallNow(int host);                         // virtual system clock ns of a host
void  yield(const char* what);                   // scheduling point
bool  blockUntil(const std::function<bool()>& pred, u64 deadline, const char* what); // false = timed out
void  sleepNs(u64 ns);
int   spawn(int host, const char* name, std::function<void()> fn);   // harness-side task, joined with joinTask
void  joinTask(int t);
bool  taskDone(int t);
bool  joinTaskFor(int t, u64 ns);
void  at(u64 when, std::function<void()> fn);    // run fn at virtual time (in scheduler context; must not block)
void  freezeHostTasks(int host);
int   liveTasks(int host);                       // tasks created by library code (pthread_create) not finished on host
std::string dumpTasks();
void  setHostOf(int task, int host);

struct Limits { u64 maxSteps = 400000; u64 maxTime = 3600 * SEC; u64 maxBlocks = 250000000ull; };
extern Limits limits;
struct SchedCfg { double switchProb = 0.1; double spuriousProb = 0; double threadFailProb = 0; int threadFailHost = -1; double stallProb = 0; u32 preemptMean = 0; u64 stepCost = 500; };
extern SchedCfg sched;
// cpu progress: number of instrumented basic blocks executed since last reset (hang oracle)
u64   cpuBlocks();
void  resetCpuBlocks();
void  setCpuBudget(u64 blocks, const char* what); // violation "hang" when exceeded without reset
void  faultsEnabled(bool on);                     // stop/resume injected faults (liveness phases)
bool  faultsOn();

// ---------------------------------------------------------------- log & verdicts
void  logev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // deterministic event
void  hashEv(u64 a, u64 b = 0, u64 c = 0);
[[noreturn]] void violation(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void internalError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void  probe(const char* name);                    // rare-condition counters
void  sample(const std::string& s);               // description of this run (for evidence)
void  nontrivial();                               // this run exercised the property
void  opCount(u64 n);                             // operations executed
extern bool verbose;
std::string hex(const std::string& s, size_t max = 64);
u64 fnv(const void* p, size_t n, u64 h = 1469598103934665603ull);

// ---------------------------------------------------------------- running
struct RunResult;
typedef void (*Scenario)();
struct Check { const char* id; const char* title; Scenario fn; u64 quickRuns, thoroughRuns; const char* rule; const char* real; const char* stub; std::vector<const char*> assumptions; };
void registerCheck(const Check& c);
struct Reg { Reg(const Check& c) { registerCheck(c); } };
extern const char* tier;
bool  thorough();
}
