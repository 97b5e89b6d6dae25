#include "internal.h"
#include <algorithm>
#include <queue>
#include <unordered_map>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <exception>
#include <sanitizer/allocator_interface.h>

namespace sim {
const char* const kCatName[C_COUNT] = { "cfg", "op", "sched", "net", "fault", "fs", "preempt", "data", "crash" };
const char* const kFaultName[F_COUNT] = {
  "tcp_delay", "tcp_retransmit", "tcp_reset", "tcp_syn_lost", "tcp_refused", "tcp_blackhole", "tcp_short_read", "tcp_short_write",
  "peer_stall", "peer_garbage", "partition", "heal", "host_crash", "host_powerloss", "host_restart",
  "udp_loss", "udp_duplicate", "udp_reorder", "udp_corrupt", "udp_forged",
  "eintr", "emfile", "econnaborted", "thread_create_eagain", "enetunreach", "socket_fail", "getifaddrs_fail", "resolve_fail",
  "spurious_wakeup", "task_stall", "preemption", "clock_jump", "alloc_fail",
  "fs_open_fail", "fs_read_eio", "fs_short_read", "fs_write_eio", "fs_short_write", "fs_enospc", "fs_close_err", "fs_mkdir_fail", "fs_remove_fail", "fs_seek_fail",
  "fs_lost_write", "fs_torn_write", "fs_bitflip", "fs_truncate", "process_crash", "fs_dir_order", "fs_stat_fail", "cancel", "garbage_input" };

Shared* sh = nullptr; u64 gSeed = 0; const std::vector<Decision>* gReplay = nullptr;
Limits limits; SchedCfg sched; bool verbose = false; const char* tier = "quick";
bool thorough() { return !strcmp(tier, "thorough"); }

static bool gRunning = false; static bool gFaults = true;
static thread_local Task* tlsCur = nullptr;
static std::vector<Task*> tasks; static u64 gNow = 0, gSeq = 0, gSteps = 0;
static u32 ctr[C_COUNT];
static std::unordered_map<u64, u32> replayMap;
struct Ev { u64 at, seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev* a, const Ev* b) const { return a->at != b->at ? a->at > b->at : a->seq > b->seq; } };
static std::priority_queue<Ev*, std::vector<Ev*>, EvCmp> events;

static inline u64 mix(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
u64 fnv(const void* p, size_t n, u64 h) { const u8* c = (const u8*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }

static u32 decide(Cat c, u32 n, double p) {
  u32 idx = ctr[c]++;
  u32 v = 0;
  if (gReplay) {
    auto it = replayMap.find(((u64)c << 32) | idx);
    if (it != replayMap.end()) v = it->second;
    if (n && v >= n) v = n - 1;
  } else {
    u64 r = mix(mix(gSeed * 0x100000001b3ull + c * 0x9E37ull + 77) + idx);
    if (p >= 1.0) v = n ? (u32)(((r >> 32) * (u64)n) >> 32) : (u32)(r >> 32);
    else { double u = (double)(r >> 11) / 9007199254740992.0; if (u < p) { u64 r2 = mix(r + 1); v = n > 1 ? 1 + (u32)(((r2 >> 32) * (u64)(n - 1)) >> 32) : 0; } }
  }
  if (v) {
    if (sh->nDec < MAXDEC) sh->dec[sh->nDec++] = Decision{ (u32)c, idx, v }; else sh->decOverflow = 1;
  }
  sh->hash = (sh->hash ^ (((u64)c << 56) ^ ((u64)idx << 24) ^ v)) * 1099511628211ull;
  return v;
}
static thread_local Script* tlsScript = nullptr;
Script::Script(u64 k, u64& p) : key(k), pos(p), outer(tlsScript) { tlsScript = this; }
Script::~Script() { tlsScript = outer; }
u32 choose(Cat c, u32 n) { if (tlsScript && (c == C_CFG || c == C_OP || c == C_DATA)) { u64 r = mix(mix(tlsScript->key) + tlsScript->pos++); return n <= 1 || !tlsScript->key ? 0 : (u32)(((r >> 32) * (u64)n) >> 32); } return n <= 1 ? 0 : decide(c, n, 1.0); }
bool chance(Cat c, double p) {
  if (p <= 0) return false;
  if ((c == C_FAULT || c == C_FS || c == C_CRASH) && !gFaults) return false;
  if (tlsScript && (c == C_CFG || c == C_OP || c == C_DATA)) return tlsScript->key && choose(c, 1u << 20) < p * (1u << 20);
  return decide(c, 2, p >= 1.0 ? 0.999999 : p) != 0;
}
u64 range(Cat c, u64 lo, u64 hi) { u64 n = hi - lo + 1; if (n >= 0xffffffffull) n = 0xfffffffeull; return lo + choose(c, (u32)n); }
void fault(Fault f) { sh->faults[f]++; }
void faultsEnabled(bool on) { gFaults = on; }
bool faultsOn() { return gFaults; }

bool active() { return gRunning && tlsCur != nullptr; }
Task* cur() { return tlsCur; }
int curTask() { return tlsCur ? tlsCur->id : -1; }
int curHost() { return tlsCur ? tlsCur->host : 0; }
u64 now() { return gNow; }
void setHostOf(int t, int h) { tasks[t]->host = h; }
NoPreempt::NoPreempt() { if (tlsCur) tlsCur->noPreempt++; }
NoPreempt::~NoPreempt() { if (tlsCur) tlsCur->noPreempt--; }

// ------------------------------------------------------------------ log
void hashEv(u64 a, u64 b, u64 c) { sh->hash = mix(sh->hash ^ a) ^ mix(b + 3 * c + 1); }
void logev(const char* fmt, ...) {
  char buf[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (n < 0) n = 0; if (n >= (int)sizeof buf) n = sizeof buf - 1;
  sh->hash = fnv(buf, n, sh->hash);
  if (verbose) {
    char line[1200]; int m = snprintf(line, sizeof line, "%12.6f h%d t%d %s\n", gNow / 1e9, curHost(), curTask(), buf);
    if (m > (int)sizeof line - 1) m = sizeof line - 1;
    if (sh->logLen + m < LOGCAP) { memcpy(sh->log + sh->logLen, line, m); sh->logLen += m; }
    else { // keep the tail
      u32 half = LOGCAP / 2; memmove(sh->log, sh->log + sh->logLen - half, half); sh->logLen = half; memcpy(sh->log + sh->logLen, line, m); sh->logLen += m; }
  }
}
void probe(const char* name) {
  for (u32 i = 0; i < MAXPROBE; i++) {
    if (!sh->probes[i].name[0]) { strncpy(sh->probes[i].name, name, 55); sh->probes[i].n = 1; return; }
    if (!strcmp(sh->probes[i].name, name)) { sh->probes[i].n++; return; }
  }
}
void sample(const std::string& s) { size_t l = strlen(sh->sample); if (l + s.size() + 2 < sizeof sh->sample) { if (l) { strcat(sh->sample, "; "); } strcat(sh->sample, s.c_str()); } }
void nontrivial() { sh->nontriv = 1; }
void opCount(u64 n) { sh->ops += n; }
std::string hex(const std::string& s, size_t max) { std::string o; char b[4]; for (size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, 4, "%02x", (u8)s[i]); o += b; } if (s.size() > max) o += ".."; return o; }

static volatile u64 gBlocks = 0, gWork = 0, gBlockBudget = NEVER; static const char* gBudgetWhat = "a run";
void finishRun(int status) {
  sh->steps = gSteps; sh->simTime = gNow; sh->blocks = gBlocks; sh->status = status;
  __sync_synchronize(); _exit(status == 1 ? 0 : status == 2 ? 77 : 78);
}
void violation(const std::string& key, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); 
  if (sh->status == 0) { strncpy(sh->key, key.c_str(), sizeof sh->key - 1); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
    if (verbose) logev("VIOLATION %s: %s", sh->key, sh->msg); finishRun(2); }
  va_end(ap); finishRun(2);
}
void internalError(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); strcpy(sh->key, "internal"); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
  finishRun(3);
}
u64 cpuBlocks() { return gBlocks; }
void resetCpuBlocks() { gBlocks = 0; }
void setCpuBudget(u64 b, const char* what) { gBlocks = gWork = 0; gBlockBudget = b == NEVER ? limits.maxBlocks : b; gBudgetWhat = what; }

// ------------------------------------------------------------------ scheduler
std::string dumpTasks() {
  std::string s; char b[256];
  for (auto* t : tasks) if (t->st != Task::DONE) { snprintf(b, sizeof b, "[t%d h%d %s %s%s at %s dl=%.3f] ", t->id, t->host, t->name.c_str(), t->frozen ? "frozen " : "", t->st == Task::RUN ? "run" : "block", t->what, t->deadline == NEVER ? -1.0 : t->deadline / 1e9); s += b; if (s.size() > 6000) break; }
  return s;
}
static bool isReady(Task* t) {
  if (t->frozen || t->st == Task::DONE || t->stallUntil > gNow) return false;
  if (t->st == Task::RUN) return true;
  if (t->pred && (*t->pred)()) { return true; }
  if (t->deadline <= gNow) { t->timedOut = true; return true; }
  return false;
}
static void runEvents() {
  while (!events.empty() && events.top()->at <= gNow) { Ev* e = events.top(); events.pop(); e->fn(); delete e; }
}
static bool hitDeadline(Task* t) { return !(t->pred && (*t->pred)()) && t->deadline <= gNow; }
static Task* pickNext(Task* me) {
  std::vector<Task*> ready;
  for (;;) {
    if (gNow > limits.maxTime) violation("no-progress", "simulated time limit %.1fs exceeded; tasks: %s", limits.maxTime / 1e9, dumpTasks().c_str());
    runEvents();
    ready.clear();
    for (auto* t : tasks) if (isReady(t)) ready.push_back(t);
    if (!ready.empty()) break;
    u64 nx = NEVER;
    if (!events.empty()) nx = events.top()->at;
    for (auto* t : tasks) if (!t->frozen && t->st != Task::DONE) { u64 d = t->st == Task::RUN ? t->stallUntil : std::max(t->deadline, t->stallUntil); if (t->stallUntil > gNow) d = std::min(d, t->stallUntil); nx = std::min(nx, d); }
    if (nx == NEVER) violation("deadlock", "every task is blocked forever and no event is pending: %s", dumpTasks().c_str());
    if (nx <= gNow) nx = gNow + 1;
    gNow = nx;
  }
  if (++gSteps > limits.maxSteps) violation("livelock", "step limit %llu exceeded at t=%.3fs; tasks: %s", (unsigned long long)limits.maxSteps, gNow / 1e9, dumpTasks().c_str());
  gNow += sched.stepCost;
  size_t di = 0; bool meReady = false;
  for (size_t i = 0; i < ready.size(); i++) if (ready[i] == me) { di = i; meReady = true; }
  if (meReady && me->sameCount > 200) { di = (di + 1) % ready.size(); }
  else if (!meReady) { di = 0; for (size_t i = 0; i < ready.size(); i++) if (me && ready[i]->id > me->id) { di = i; break; } }
  size_t k = di;
  if (ready.size() > 1) { u32 v = decide(C_SCHED, (u32)ready.size(), sched.switchProb); k = (di + v) % ready.size(); }
  Task* t = ready[k];
  if (t == me) me->sameCount++; else { if (me) me->sameCount = 0; t->sameCount = 0; }
  sh->schedHash = mix(sh->schedHash ^ (u64)(t->id + 1));
  return t;
}
static void switchTo(Task* me, Task* t) {
  if (t == me) return;
  sh->switches++;
  sem_post(&t->sem);
  if (me && me->st != Task::DONE) { while (sem_wait(&me->sem) != 0) {} }
}
static void reschedule() { Task* me = tlsCur; me->noPreempt++; Task* t = pickNext(me); switchTo(me, t); me->noPreempt--; }

static void maybeStall() {
  if (sched.stallProb > 0 && chance(C_FAULT, sched.stallProb)) { fault(F_TASK_STALL); tlsCur->stallUntil = gNow + range(C_FAULT, 1, 3000) * MS; }
}
void yield(const char* what) { if (!active()) return; tlsCur->what = what; NoPreempt np; maybeStall(); reschedule(); }
bool blockUntil(const std::function<bool()>& pred, u64 deadline, const char* what) {
  Task* me = tlsCur; NoPreempt np;
  me->what = what; me->timedOut = false;
  if (pred()) return true;
  me->pred = &pred; me->deadline = deadline; me->st = Task::BLOCK;
  for (;;) {
    reschedule();
    // woken: the predicate holds or the deadline passed
    if (pred()) { break; }
    if (deadline <= gNow) { me->st = Task::RUN; me->pred = nullptr; me->deadline = NEVER; return false; }
  }
  me->st = Task::RUN; me->pred = nullptr; me->deadline = NEVER;
  return true;
}
void sleepNs(u64 ns) { blockUntil([] { return false; }, gNow + ns, "sleep"); }
void at(u64 when, std::function<void()> fn) { events.push(new Ev{ when, gSeq++, std::move(fn) }); }

static void* trampoline(void* p) {
  Task* t = (Task*)p; tlsCur = t;
  while (sem_wait(&t->sem) != 0) {}
  t->slice = 0;
  if (t->fn) t->fn(); else t->ret = t->start(t->arg);
  t->noPreempt = 1000000;
  t->st = Task::DONE; t->what = "done";
  hashEv(0x77, t->id);
  Task* n = pickNext(t);
  sem_post(&n->sem);
  return t->ret;
}
REALFN(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
REALFN(int, pthread_join, pthread_t, void**)
REALFN(int, pthread_detach, pthread_t)
static Task* newTask(int host, const std::string& name) {
  Task* t = new Task; t->id = (int)tasks.size(); t->host = host; t->name = name; sem_init(&t->sem, 0, 0); tasks.push_back(t); return t;
}
int spawn(int host, const char* name, std::function<void()> fn) {
  NoPreempt np;
  Task* t = newTask(host, name); t->fn = std::move(fn);
  if (__real_pthread_create(&t->thr, nullptr, trampoline, t)) internalError("pthread_create failed");
  logev("spawn t%d %s", t->id, name);
  return t->id;
}
void joinTask(int id) { Task* t = tasks[id]; blockUntil([t] { return t->st == Task::DONE; }, NEVER, "joinTask"); if (!t->reaped) { t->reaped = true; __real_pthread_join(t->thr, nullptr); } }
bool joinTaskFor(int id, u64 ns) { Task* t = tasks[id]; bool ok = blockUntil([t] { return t->st == Task::DONE; }, gNow + ns, "joinTaskFor"); if (ok && !t->reaped) { t->reaped = true; __real_pthread_join(t->thr, nullptr); } return ok; }
bool taskDone(int id) { return tasks[id]->st == Task::DONE; }
void freezeHostTasks(int host) { for (auto* t : tasks) if (t->host == host && t != tlsCur) t->frozen = true; }
int liveTasks(int host) { int n = 0; for (auto* t : tasks) if (t->lib && t->host == host && !t->frozen && t->st != Task::DONE) n++; return n; }

static void onTerminate() {
  std::string what = "std::terminate";
  if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::exception& x) { what = std::string("uncaught exception: ") + x.what(); } catch (...) { what = "uncaught exception (non-std)"; } }
  if (sh && sh->status == 0) { strcpy(sh->key, "crash:terminate"); snprintf(sh->msg, sizeof sh->msg, "process would abort: %s (task %d %s)", what.c_str(), curTask(), tlsCur ? tlsCur->name.c_str() : "-"); if (verbose) logev("%s", sh->msg); finishRun(2); }
  _exit(79);
}
// work that copying memory causes is not seen by the callbacks at basic blocks, but nearly always comes with an allocation
static void onMalloc(const volatile void*, size_t n) { if (gRunning) gWork = gWork + 10 + n / 32; }
static void onFree(const volatile void*) {}
void runScenario(Scenario fn) {
  std::set_terminate(onTerminate);
  if (gReplay) for (auto& d : *gReplay) replayMap[((u64)d.cat << 32) | d.idx] = d.val;
  sh->hash = 1469598103934665603ull ^ gSeed * 0; sh->schedHash = 0;
  Task* t = newTask(0, "main"); t->thr = pthread_self(); tlsCur = t; gRunning = true; gNow = 1000 * SEC;
  limits.maxTime += gNow; setCpuBudget(limits.maxBlocks, "a run");
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); fn();
  t->noPreempt++;
  finishRun(1);
}
void coreSave(u32* c, u64& n, u64& q, u64& st, u64& b) { memcpy(c, ctr, sizeof ctr); n = gNow; q = gSeq; st = gSteps; b = gBlocks; }
void coreLoad(const u32* c, u64 n, u64 q, u64 st, u64 b) { memcpy(ctr, c, sizeof ctr); gNow = n; gSeq = q; gSteps = st; gBlocks = b; }
bool onlyTask() { for (auto* t : tasks) if (t != tlsCur && t->st != Task::DONE && !t->frozen) return false; return true; }
} // namespace sim

using namespace sim;

// ------------------------------------------------------------------ coverage / preemption / hang detection
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  static uint32_t n = 0; if (start == stop || *start) return;
  for (uint32_t* x = start; x < stop; x++) { n++; *x = n < MAXEDGE ? n : MAXEDGE - 1; }
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
  if (!sim::gRunning) return;
  if (!sh->edges[*guard]) { sh->edges[*guard] = 1; sh->nEdges++; }
  if (++sim::gBlocks > sim::gBlockBudget || sim::gWork > sim::limits.maxBlocks) { sim::gWork = 0; u64 b = sim::gBlockBudget; sim::gBlockBudget = NEVER; violation("hang", "no progress: %s executed too much code (the limit is %llu basic blocks) without finishing; task %d %s", sim::gBudgetWhat, (unsigned long long)b, curTask(), dumpTasks().c_str()); }
  Task* t = sim::tlsCur;
  if (!t || !sched.preemptMean || t->noPreempt) return;
  if (t->slice == 0) { t->noPreempt++; t->slice = 1 + choose(C_PREEMPT, 2 * sched.preemptMean); if (t->slice == 1) t->slice = 8 * sched.preemptMean; t->noPreempt--; }
  if (--t->slice == 0) { fault(F_PREEMPT); t->what = "preempt"; t->noPreempt++; sim::reschedule(); t->noPreempt--; }
}

// ------------------------------------------------------------------ pthread & futex seams
REALFN(int, pthread_mutex_lock, pthread_mutex_t*) REALFN(int, pthread_mutex_trylock, pthread_mutex_t*) REALFN(int, pthread_mutex_unlock, pthread_mutex_t*)
REALFN(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*) REALFN(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*)
REALFN(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)
REALFN(int, pthread_cond_signal, pthread_cond_t*) REALFN(int, pthread_cond_broadcast, pthread_cond_t*)
REALFN(int, pthread_once, pthread_once_t*, void (*)(void))
REALFN(int, nanosleep, const struct timespec*, struct timespec*) REALFN(int, sched_yield, void)
REALFN(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*)
REALFN(int, usleep, useconds_t) REALFN(unsigned, sleep, unsigned)

namespace {
struct M { int owner = -1; int depth = 0; int waiters = 0; };
std::map<void*, M> mutexes;
struct CW { pthread_cond_t* c; bool sig; int task; };
std::vector<CW*> cwaiters;
struct FW { void* addr; bool woken; };
std::vector<FW*> fwaiters;
std::map<void*, int> onces;

int mlock(pthread_mutex_t* m, bool tryl) {
  int me = curTask(); bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
  { M& s = mutexes[m]; if (s.owner == me && rec) { s.depth++; return 0; } }
  if (!tryl) yield("mutex_lock");
  M& s = mutexes[m];
  if (s.owner >= 0) {
    if (tryl) return EBUSY;
    s.waiters++; blockUntil([&s] { return s.owner < 0; }, NEVER, "mutex_lock"); s.waiters--;
  }
  s.owner = me; s.depth = 1; hashEv(1, me);
  return 0;
}
int munlock(pthread_mutex_t* m) {
  auto it = mutexes.find(m); if (it == mutexes.end()) return 0;
  if (--it->second.depth == 0) { it->second.owner = -1; if (!it->second.waiters) mutexes.erase(it); }
  return 0;
}
int cwait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline) {
  NoPreempt np;
  CW w{ c, false, curTask() }; cwaiters.push_back(&w);
  munlock(m);
  bool spur = sched.spuriousProb > 0 && chance(C_FAULT, sched.spuriousProb);
  bool ok = true;
  if (spur) { fault(F_SPURIOUS_WAKE); u64 d = now() + range(C_FAULT, 1, 500) * US; blockUntil([&w] { return w.sig; }, std::min(d, deadline), "cond_wait"); ok = w.sig || now() < deadline; }
  else ok = blockUntil([&w] { return w.sig; }, deadline, "cond_wait");
  for (size_t i = 0; i < cwaiters.size(); i++) if (cwaiters[i] == &w) { cwaiters.erase(cwaiters.begin() + i); break; }
  mlock(m, false); hashEv(2, curTask(), ok);
  return ok ? 0 : ETIMEDOUT;
}
u64 tsns(const struct timespec* t) { return (u64)t->tv_sec * SEC + t->tv_nsec; }
}
namespace sim { u64 wallToMono(int host, u64 wall); }
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!active()) return __real_pthread_mutex_lock(m); NoPreempt np; return mlock(m, false); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!active()) return __real_pthread_mutex_trylock(m); NoPreempt np; return mlock(m, true); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!active()) return __real_pthread_mutex_unlock(m); NoPreempt np; int r = munlock(m); yield("mutex_unlock"); return r; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!active()) return __real_pthread_cond_wait(c, m); return cwait(c, m, NEVER); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  if (!active()) return __real_pthread_cond_timedwait(c, m, t);
  // asio's posix_event uses CLOCK_MONOTONIC condition variables on Linux; libstdc++ uses clockwait for steady_clock.
  u64 v = tsns(t); return cwait(c, m, v > 1000000000ull * SEC ? wallToMono(curHost(), v) : v); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  if (!active()) return __real_pthread_cond_clockwait(c, m, k, t);
  u64 v = tsns(t); return cwait(c, m, k == CLOCK_REALTIME ? wallToMono(curHost(), v) : v); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  if (!active()) return __real_pthread_cond_signal(c);
  NoPreempt np; std::vector<CW*> v; for (auto* w : cwaiters) if (w->c == c && !w->sig) v.push_back(w);
  if (!v.empty()) v[choose(C_SCHED, (u32)v.size())]->sig = true;
  yield("cond_signal"); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  if (!active()) return __real_pthread_cond_broadcast(c);
  NoPreempt np; for (auto* w : cwaiters) if (w->c == c) w->sig = true; yield("cond_broadcast"); return 0; }
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  if (!active()) return __real_pthread_create(t, a, f, arg);
  NoPreempt np;
  if (sched.threadFailProb > 0 && (sched.threadFailHost < 0 || sched.threadFailHost == curHost()) && chance(C_FAULT, sched.threadFailProb)) { fault(F_THREAD_EAGAIN); return EAGAIN; }
  Task* n = newTask(curHost(), "lib"); n->start = f; n->arg = arg; n->lib = true;
  if (__real_pthread_create(&n->thr, nullptr, trampoline, n)) internalError("pthread_create failed");
  *t = n->thr; logev("pthread_create -> t%d", n->id);
  yield("pthread_create"); return 0; }
int __wrap_pthread_join(pthread_t t, void** r) {
  if (!active()) return __real_pthread_join(t, r);
  NoPreempt np;
  for (auto* k : sim::tasks) if (k->lib && !k->reaped && pthread_equal(k->thr, t)) {
    blockUntil([k] { return k->st == Task::DONE; }, NEVER, "pthread_join"); k->reaped = true; __real_pthread_join(k->thr, nullptr); if (r) *r = k->ret; logev("joined t%d", k->id); return 0; }
  return ESRCH; }
int __wrap_pthread_detach(pthread_t t) {
  if (!active()) return __real_pthread_detach(t);
  for (auto* k : sim::tasks) if (k->lib && !k->reaped && pthread_equal(k->thr, t)) { k->detached = true; k->reaped = true; }
  return __real_pthread_detach(t); }
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!active()) return __real_pthread_once(o, f);
  if ((*o & 3) == 2) return 0;
  { NoPreempt np; yield("once"); 
    for (;;) { if ((*o & 3) == 2) return 0; if (!onces.count(o)) break; blockUntil([o] { return !onces.count(o); }, NEVER, "once"); } 
    onces[o] = curTask(); }
  try { f(); } catch (...) { onces.erase(o); throw; }
  *o = 2; onces.erase(o); return 0; }
int __wrap_nanosleep(const struct timespec* t, struct timespec* r) { if (!active()) return __real_nanosleep(t, r); sleepNs(tsns(t)); return 0; }
int __wrap_clock_nanosleep(clockid_t k, int fl, const struct timespec* t, struct timespec* r) {
  if (!active()) return __real_clock_nanosleep(k, fl, t, r);
  u64 v = tsns(t); if (fl & TIMER_ABSTIME) { if (k == CLOCK_REALTIME) v = wallToMono(curHost(), v); sleepNs(v > now() ? v - now() : 0); } else sleepNs(v); return 0; }
int __wrap_usleep(useconds_t u) { if (!active()) return __real_usleep(u); sleepNs(u * US); return 0; }
unsigned __wrap_sleep(unsigned s) { if (!active()) return __real_sleep(s); sleepNs(s * SEC); return 0; }
int __wrap_sched_yield(void) { if (!active()) return __real_sched_yield(); yield("sched_yield"); return 0; }

long __real_syscall(long n, ...);
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
  if (!active() || n != SYS_futex) return __real_syscall(n, a, b, c, d, e, f);
  NoPreempt np;
  int op = (int)b & FUTEX_CMD_MASK; int* addr = (int*)a;
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    yield("futex_wait");
    if (*addr != (int)c) { errno = EAGAIN; return -1; }
    u64 dl = NEVER; const struct timespec* ts = (const struct timespec*)d;
    if (ts) dl = op == FUTEX_WAIT ? now() + tsns(ts) : ((int)b & FUTEX_CLOCK_REALTIME) ? wallToMono(curHost(), tsns(ts)) : tsns(ts);
    FW w{ addr, false }; fwaiters.push_back(&w);
    bool ok = blockUntil([&w] { return w.woken; }, dl, "futex_wait");
    for (size_t i = 0; i < fwaiters.size(); i++) if (fwaiters[i] == &w) { fwaiters.erase(fwaiters.begin() + i); break; }
    if (!ok) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    int k = 0; for (auto* w : fwaiters) if (w->addr == addr && !w->woken && k < (int)c) { w->woken = true; k++; }
    yield("futex_wake"); return k;
  }
  internalError("unsupported futex op %d", op);
}
}
