// Process driver: fork one child per simulated run, aggregate, confirm, minimise, replay, evidence.
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>
#include "internal.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <unistd.h>
#include <string.h>
#include <stdlib.h>
#include <signal.h>
#include <errno.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <new>
using namespace sim;

extern "C" void __asan_set_error_report_callback(void (*)(const char*));
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=0:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=1:max_malloc_fill_size=2048:malloc_fill_byte=190:symbolize=1:print_summary=1:quarantine_size_mb=64:fast_unwind_on_malloc=1:malloc_context_size=6:strict_string_checks=0:replace_intrin=1:check_initialization_order=0:detect_odr_violation=0:use_sigaltstack=1:max_allocation_size_mb=2048"; }

namespace sim {
static std::vector<Check>& checks() { static std::vector<Check> v; return v; }
void registerCheck(const Check& c) { checks().push_back(c); }
static const Check* gCheck; static u64 gVerifSeed = 1; static std::string gSelf;
static u64 mix64(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static std::string root() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); std::string p = n > 0 ? std::string(b, n) : "/verif/build/simcheck"; for (int i = 0; i < 2; i++) p = p.substr(0, p.rfind('/')); return p; }   // .../build/simcheck -> ...
static double wall() { struct timespec t; ::clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

struct Res { int kind = 0; /*1 ok 2 violation 3 internal 4 timeout*/ std::string key, msg; u64 hash = 0; };
static void asanCb(const char* s) { if (sh) { size_t n = strlen(s); if (n > sizeof sh->asan - 1) n = sizeof sh->asan - 1; memcpy(sh->asan, s, n); sh->asan[n] = 0; } }
static Shared* mapShared() { void* p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return (Shared*)p; }
static void clearShared(Shared* s) { // cheap clear
  memset((void*)s, 0, offsetof(Shared, dec)); s->logLen = 0; memset(s->edges, 0, MAXEDGE); s->nEdges = 0; }
static pid_t startChild(Shared* s, u64 seed, const std::vector<Decision>* replay, bool verb, int alarmSec) {
  clearShared(s);
  pid_t p = fork();
  if (p) return p;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  sh = s; gSeed = seed; gReplay = replay; verbose = verb;
  struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
  signal(SIGALRM, SIG_DFL); signal(SIGPIPE, SIG_IGN); alarm(alarmSec);
  int nul = ::open(getenv("SIM_STDERR") ? "/dev/stderr" : "/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
  __asan_set_error_report_callback(asanCb);
  runScenario(gCheck->fn);
  _exit(78);
}
static std::string asanKey(const std::string& r) {
  std::string type = "unknown", fn;
  size_t p = r.find("AddressSanitizer: "); if (p != std::string::npos) { p += 18; size_t e = r.find_first_of(" \n", p); type = r.substr(p, e - p); }
  if (type == "attempting") type = "double-free"; 
  std::istringstream is(r); std::string l; 
  while (std::getline(is, l)) { size_t h = l.find('#'); if (h == std::string::npos || h > 8) continue; size_t in = l.find(" in "); if (in == std::string::npos) continue; size_t rp = l.find("/repo/"); if (rp == std::string::npos) continue; std::string f = l.substr(in + 4, rp - in - 5); size_t par = f.find('('); if (par != std::string::npos && par > 0) f = f.substr(0, par); fn = f; break; }
  return "crash:" + type + ":" + fn;
}
static Res finish(Shared* s, int st) {
  Res r; r.hash = s->hash;
  if (s->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) r.kind = 1;
  else if (s->status == 2) { r.kind = 2; r.key = s->key; r.msg = s->msg; }
  else if (s->status == 3) { r.kind = 3; r.key = s->key; r.msg = s->msg; }
  else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) { r.kind = 4; r.key = "timeout"; r.msg = "wall-clock limit or out of memory"; }
  else if (s->asan[0]) { r.kind = 2; r.key = asanKey(s->asan); r.msg = std::string(s->asan).substr(0, 6000); }
  else if (WIFSIGNALED(st)) { r.kind = 2; r.key = "crash:signal" + std::to_string(WTERMSIG(st)); r.msg = "killed by signal"; }
  else { r.kind = 2; r.key = "crash:exit"; r.msg = "process exited with code " + std::to_string(WEXITSTATUS(st)); }
  return r;
}
static Res runOne(Shared* s, u64 seed, const std::vector<Decision>* rep, bool verb = false, int al = 120) { pid_t p = startChild(s, seed, rep, verb, al); int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} return finish(s, st); }

struct WorkerStat { u64 runs, ok, nontriv, viol, timeouts, internal, steps, simTime, ops, blocks, switches, detChecked, detMismatch, knownHits[32]; u64 faults[F_COUNT]; u64 runsWithFault; Shared::P probes[MAXPROBE]; char intMsg[512]; };
constexpr u32 MAXH = 1 << 20, MAXV = 64;
struct Ctl { volatile int stop; volatile u32 nHash; u64 hashes[MAXH]; volatile u32 nViol; struct V { u64 run, seed; char key[512]; char msg[4000]; } viol[MAXV]; u8 edges[MAXEDGE]; volatile u32 nSamples; char samples[12][8192]; WorkerStat ws[64]; };
struct Known { std::string key, what; };
static std::vector<Known> loadKnown(const std::string& prop) {
  std::vector<Known> v; std::ifstream f(root() + "/known_findings.txt"); std::string l; std::string pre = "open: property=" + prop + " key=";
  while (std::getline(f, l)) if (l.compare(0, pre.size(), pre) == 0) { size_t e = l.find(" :: "); if (e == std::string::npos) continue; v.push_back({ l.substr(pre.size(), e - pre.size()), l.substr(e + 4) }); }
  return v; }
static bool keyMatch(const std::string& pat, const std::string& key) { if (!pat.empty() && pat.back() == '*') return key.compare(0, pat.size() - 1, pat, 0, pat.size() - 1) == 0; return pat == key; }
static u64 runSeed(u64 i) { return mix64(gVerifSeed * 1000003ull + mix64(fnv(gCheck->id, strlen(gCheck->id))) + i * 0x9e3779b97f4a7c15ull); }

static void workerLoop(int w, int W, u64 runs, double deadline, Ctl* c, const std::vector<Known>& known) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  Shared* s = mapShared(); Shared* s2 = mapShared(); WorkerStat& ws = c->ws[w];
  for (u64 i = w; i < runs && !c->stop && wall() < deadline; i += W) {
    Res r = runOne(s, runSeed(i), nullptr);
    ws.runs++; ws.steps += s->steps; ws.simTime += s->simTime > 1000 * SEC ? s->simTime - 1000 * SEC : 0; ws.ops += s->ops; ws.blocks += s->blocks; ws.switches += s->switches;
    bool anyF = false; for (int f = 0; f < F_COUNT; f++) { ws.faults[f] += s->faults[f]; if (s->faults[f]) anyF = true; } if (anyF) ws.runsWithFault++;
    for (auto& p : s->probes) { if (!p.name[0]) break; for (auto& q : ws.probes) { if (!q.name[0]) strcpy(q.name, p.name); if (!strcmp(q.name, p.name)) { q.n += p.n; break; } } }
    for (u32 e = 0; e < MAXEDGE; e += 8) if (*(u64*)(s->edges + e)) for (u32 k = e; k < e + 8; k++) c->edges[k] |= s->edges[k];
    if (s->nontriv) { ws.nontriv++; u32 k = __sync_fetch_and_add(&c->nHash, 1); if (k < MAXH) c->hashes[k] = s->hash ^ mix64(s->schedHash); }
    if (i < 4 && s->sample[0]) { u32 k = __sync_fetch_and_add(&c->nSamples, 1); if (k < 12) snprintf(c->samples[k], sizeof c->samples[k], "run %llu seed %llu: %s", (unsigned long long)i, (unsigned long long)runSeed(i), s->sample); }
    if (r.kind == 1) {
      ws.ok++;
      if (i % 41 == 7) { Res r2 = runOne(s2, runSeed(i), nullptr); ws.detChecked++; if (r2.kind != 1 || r2.hash != r.hash) { ws.detMismatch++; snprintf(ws.intMsg, sizeof ws.intMsg, "nondeterministic run %llu", (unsigned long long)i); } }
    } else if (r.kind == 2) {
      bool isKnown = false; for (size_t k = 0; k < known.size() && k < 32; k++) if (keyMatch(known[k].key, r.key)) { ws.knownHits[k]++; isKnown = true; break; }
      if (isKnown) { ws.ok++; continue; }
      ws.viol++; u32 k = __sync_fetch_and_add(&c->nViol, 1);
      if (k < MAXV) { auto& v = c->viol[k]; v.run = i; v.seed = runSeed(i); snprintf(v.key, sizeof v.key, "%s", r.key.c_str()); snprintf(v.msg, sizeof v.msg, "%s", r.msg.c_str()); }
      if (k >= (getenv("SIM_MANYVIOL") ? MAXV : 5)) c->stop = 1;
    } else { if (r.kind == 4) ws.timeouts++; else ws.internal++; snprintf(ws.intMsg, sizeof ws.intMsg, "run %llu: %s", (unsigned long long)i, r.msg.substr(0, 400).c_str()); }
  }
  _exit(0);
}
static std::vector<Decision> decs(Shared* s) { return std::vector<Decision>(s->dec, s->dec + s->nDec); }

// run many candidates in parallel; returns results in order
static std::vector<Res> runMany(std::vector<Shared*>& pool, const std::vector<std::vector<Decision>>& cands) {
  std::vector<Res> out(cands.size()); size_t next = 0; std::map<pid_t, std::pair<size_t, size_t>> live; std::vector<size_t> freeSlots; for (size_t i = 0; i < pool.size(); i++) freeSlots.push_back(i);
  while (next < cands.size() || !live.empty()) {
    while (next < cands.size() && !freeSlots.empty()) { size_t sl = freeSlots.back(); freeSlots.pop_back(); pid_t p = startChild(pool[sl], 0, &cands[next], false, 60); live[p] = { next, sl }; next++; }
    int st; pid_t p = waitpid(-1, &st, 0); auto it = live.find(p); if (it == live.end()) continue; out[it->second.first] = finish(pool[it->second.second], st); freeSlots.push_back(it->second.second); live.erase(it);
  }
  return out; }
static std::vector<Decision> minimise(std::vector<Shared*>& pool, std::vector<Decision> d, const std::string& key, double budget, u64& tried) {
  double end = wall() + budget; auto same = [&](const Res& r) { return r.kind == 2 && r.key == key; };
  // whole categories first
  for (int c : { (int)C_PREEMPT, (int)C_SCHED, (int)C_NET, (int)C_FAULT, (int)C_FS, (int)C_DATA, (int)C_CFG }) {
    std::vector<Decision> e; for (auto& x : d) if ((int)x.cat != c) e.push_back(x); if (e.size() == d.size()) continue;
    auto r = runMany(pool, { e }); tried++; if (same(r[0])) d = e; if (wall() > end) return d; }
  size_t chunks = 2;
  while (!d.empty() && wall() < end) {
    chunks = std::min(chunks, d.size()); size_t per = (d.size() + chunks - 1) / chunks; bool hit = false;
    for (size_t i = 0; i < chunks && wall() < end;) {
      std::vector<std::vector<Decision>> cands; std::vector<size_t> idx;
      for (size_t k = 0; k < pool.size() && i + k < chunks; k++) { size_t a = (i + k) * per, b = std::min(d.size(), a + per); if (a >= b) continue; std::vector<Decision> e(d.begin(), d.begin() + a); e.insert(e.end(), d.begin() + b, d.end()); cands.push_back(e); idx.push_back(i + k); }
      if (cands.empty()) break;
      auto rs = runMany(pool, cands); tried += cands.size(); bool got = false;
      for (size_t k = 0; k < rs.size(); k++) if (same(rs[k])) { d = cands[k]; got = hit = true; break; }
      if (got) { chunks = std::max<size_t>(2, (d.size() + per - 1) / per); if (d.empty()) break; } else i += pool.size();
    }
    if (!hit) { if (per <= 1) break; chunks = std::min(d.size(), chunks * 2); }
  }
  // shrink values
  for (size_t i = 0; i < d.size() && wall() < end; i++) if (d[i].val > 1) {
    std::vector<std::vector<Decision>> cands; for (u32 v : { 1u, d[i].val / 4, d[i].val / 2, d[i].val - 1 }) if (v && v < d[i].val) { auto e = d; e[i].val = v; cands.push_back(e); }
    auto rs = runMany(pool, cands); tried += cands.size(); for (size_t k = 0; k < rs.size(); k++) if (same(rs[k])) { d = cands[k]; break; } }
  return d; }
static void writeReplay(const std::string& path, u64 run, u64 seed, const Res& r, const std::vector<Decision>& d, size_t orig, Shared* s) {
  std::ofstream f(path);
  f << "SIMREPLAY 1\nproperty " << gCheck->id << "\nkey " << r.key << "\nverif_seed " << gVerifSeed << "\nrun " << run << "\nrun_seed " << seed << "\ntier " << tier << "\ndecisions_original " << orig << "\ndecisions " << d.size() << "\n";
  for (auto& x : d) f << "D " << kCatName[x.cat] << " " << x.idx << " " << x.val << "\n";
  f << "END\nMESSAGE\n" << r.msg << "\nTRACE (minimised run)\n"; f.write(s->log, s->logLen); }
static bool readReplay(const std::string& path, std::vector<Decision>& d, std::string& prop, std::string& key, std::string& tr) {
  std::ifstream f(path); std::string l; if (!std::getline(f, l) || l != "SIMREPLAY 1") return false;
  while (std::getline(f, l) && l != "END") { std::istringstream is(l); std::string w; is >> w; if (w == "property") is >> prop; else if (w == "key") key = l.substr(4); else if (w == "tier") is >> tr; else if (w == "D") { std::string c; Decision x{}; is >> c >> x.idx >> x.val; for (int k = 0; k < C_COUNT; k++) if (c == kCatName[k]) x.cat = k; d.push_back(x); } }
  return true; }
static std::string js(const std::string& s) { std::string o = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
} // namespace sim

// memory limit of the simulated machine: huge requests fail the way they do in production
static void* (*dummy)(size_t) = nullptr;
extern "C" void* __real__Znwm(size_t); extern "C" void* __real__Znam(size_t); extern "C" void* __real_malloc(size_t); extern "C" void* __real_realloc(void*, size_t);
constexpr size_t kMemLimit = 1ull << 30;
extern "C" void* __wrap__Znwm(size_t n) { if (n > kMemLimit && active()) { fault(F_ENOMEM); throw std::bad_alloc(); } return __real__Znwm(n); }
// Buffers of the size of a packet (30 MB) are kept for reuse within a run: poisoned while free, so a use after free is still seen, and zero when handed out again.
extern "C" void __real__ZdaPv(void*); extern "C" void __real__ZdaPvm(void*, size_t);
static struct Big { char* p; size_t n; bool used; } gBig[256]; static int gBigN = 0;
extern "C" void* __wrap__Znam(size_t n) {
  if (n > kMemLimit && active()) { fault(F_ENOMEM); throw std::bad_alloc(); }
  if (n < (8u << 20) || !active()) return __real__Znam(n);
  for (int i = 0; i < gBigN; i++) if (!gBig[i].used && gBig[i].n == n) { __asan_unpoison_memory_region(gBig[i].p, n); gBig[i].used = true; return gBig[i].p; }
  char* p = (char*)__real__Znam(n); if (gBigN < 256) gBig[gBigN++] = { p, n, true }; return p; }
static bool bigFree(void* p) {
  for (int i = 0; i < gBigN; i++) if (gBig[i].p == p) { if (!gBig[i].used) violation("double-free", "a large buffer is freed twice"); gBig[i].used = false;
      char* a = (char*)(((uintptr_t)p + 4095) & ~(uintptr_t)4095); char* e = (char*)(((uintptr_t)p + gBig[i].n) & ~(uintptr_t)4095); memset(p, 0, a - (char*)p); memset(e, 0, (char*)p + gBig[i].n - e); madvise(a, e - a, MADV_DONTNEED); __asan_poison_memory_region(p, gBig[i].n); return true; }
  return false; }
extern "C" void __wrap__ZdaPv(void* p) { if (gBigN && p && active() && bigFree(p)) return; __real__ZdaPv(p); }
extern "C" void __wrap__ZdaPvm(void* p, size_t n) { if (gBigN && p && active() && bigFree(p)) return; __real__ZdaPvm(p, n); }
extern "C" void* __wrap_malloc(size_t n) { if (n > kMemLimit && active()) { fault(F_ENOMEM); errno = ENOMEM; return nullptr; } return __real_malloc(n); }
extern "C" void* __wrap_realloc(void* p, size_t n) { if (n > kMemLimit && active()) { fault(F_ENOMEM); errno = ENOMEM; return nullptr; } return __real_realloc(p, n); }

int main(int argc, char** argv) {
  std::string prop, replay, one; int W = 8; u64 runs = 0; double tlimit = 0; bool verb = false, list = false; const char* ev = getenv("VERIF_SEED"); if (ev) gVerifSeed = strtoull(ev, 0, 10); const char* et = getenv("VERIF_TIER"); if (et && !strcmp(et, "thorough")) tier = "thorough";
  std::string evid;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") prop = nx(); else if (a == "--tier") tier = nx() == "thorough" ? "thorough" : "quick"; else if (a == "--seed") gVerifSeed = strtoull(nx().c_str(), 0, 10); else if (a == "--runs") runs = strtoull(nx().c_str(), 0, 10); else if (a == "--time") tlimit = atof(nx().c_str()); else if (a == "--workers") W = atoi(nx().c_str()); else if (a == "--replay") replay = nx(); else if (a == "--verbose") verb = true; else if (a == "--one") one = nx(); else if (a == "--list") list = true; else if (a == "--evidence") evid = nx(); }
  { std::string id = prop; if (!replay.empty()) { std::vector<Decision> d; std::string k, t; readReplay(replay, d, id, k, t); }   // single threaded storage checks: cheaper instrumentation
    if (id.size() == 3 && id[0] == 'C' && id >= "C10" && !getenv("ASAN_OPTIONS")) { setenv("ASAN_OPTIONS", "malloc_context_size=0:detect_stack_use_after_return=0", 1); if (getenv("SIM_NOASLR")) execv("/proc/self/exe", argv); } }
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); int p = personality(0xffffffff); if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  char self[4096]; ssize_t sn = readlink("/proc/self/exe", self, sizeof self - 1); self[sn > 0 ? sn : 0] = 0; gSelf = self;
  if (list) { for (auto& c : checks()) printf("%s %s\n", c.id, c.title); return 0; }
  std::vector<Decision> rd; std::string rkey, rtier;
  if (!replay.empty()) { if (!readReplay(replay, rd, prop, rkey, rtier)) { fprintf(stderr, "bad replay file\n"); return 2; } if (rtier == "thorough") tier = "thorough"; }
  for (auto& c : checks()) if (prop == c.id) gCheck = &c;
  if (!gCheck) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  Shared* S = mapShared();
  if (!replay.empty()) {
    Res r = runOne(S, 0, &rd, true); if (verb) fwrite(S->log, 1, S->logLen, stdout);
    printf("REPLAY property=%s expected key=%s got kind=%d key=%s\n%s\n", gCheck->id, rkey.c_str(), r.kind, r.key.c_str(), r.msg.c_str());
    printf("hash=%016llx\n", (unsigned long long)r.hash);
    if (r.kind == 2 && r.key == rkey) return 1; return r.kind == 1 ? 0 : 3; }
  if (!one.empty()) { u64 i = strtoull(one.c_str(), 0, 10); Res r = runOne(S, runSeed(i), nullptr, verb); if (verb) fwrite(S->log, 1, S->logLen, stdout); printf("run %llu kind=%d key=%s hash=%016llx steps=%llu sim=%.3fs decisions=%u\n%s\nsample: %s\n", (unsigned long long)i, r.kind, r.key.c_str(), (unsigned long long)r.hash, (unsigned long long)S->steps, S->simTime / 1e9, S->nDec, r.msg.c_str(), S->sample); return 0; }

  double t0 = wall(); if (!runs) runs = thorough() ? gCheck->thoroughRuns : gCheck->quickRuns; if (!tlimit) tlimit = thorough() ? 1800 : 50; if (const char* e = getenv("SIM_TIME")) tlimit = atof(e);
  auto known = loadKnown(gCheck->id);
  for (auto& k : known) printf("KNOWN-FINDING: property=%s %s\n", gCheck->id, k.what.c_str());
  fflush(stdout);
  Ctl* C = (Ctl*)mmap(0, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> ws; for (int w = 0; w < W; w++) { pid_t p = fork(); if (!p) workerLoop(w, W, runs, t0 + tlimit, C, known); ws.push_back(p); }
  for (auto p : ws) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
  double tExplore = wall() - t0;
  WorkerStat T{}; std::map<std::string, u64> probes;
  for (int w = 0; w < W; w++) { auto& x = C->ws[w]; T.runs += x.runs; T.ok += x.ok; T.nontriv += x.nontriv; T.viol += x.viol; T.timeouts += x.timeouts; T.internal += x.internal; T.steps += x.steps; T.simTime += x.simTime; T.ops += x.ops; T.blocks += x.blocks; T.switches += x.switches; T.detChecked += x.detChecked; T.detMismatch += x.detMismatch; T.runsWithFault += x.runsWithFault; for (int f = 0; f < F_COUNT; f++) T.faults[f] += x.faults[f]; for (int k = 0; k < 32; k++) T.knownHits[k] += x.knownHits[k]; for (auto& p : x.probes) if (p.name[0]) probes[p.name] += p.n; if (x.intMsg[0]) snprintf(T.intMsg, sizeof T.intMsg, "%s", x.intMsg); }
  std::set<u64> hs(C->hashes, C->hashes + std::min<u32>((u32)C->nHash, MAXH)); u64 edges = 0; for (u32 i = 0; i < MAXEDGE; i++) edges += C->edges[i] != 0;

  int exitCode = 0; std::string vline; u32 nv = std::min<u32>((u32)C->nViol, MAXV); std::string unconfirmed;
  if (nv) {
    std::vector<u32> order; for (u32 i = 0; i < nv; i++) order.push_back(i); std::sort(order.begin(), order.end(), [&](u32 a, u32 b) { return C->viol[a].run < C->viol[b].run; });
    if (getenv("SIM_MANYVIOL")) for (u32 i : order) printf("  run %llu %s\n", (unsigned long long)C->viol[i].run, C->viol[i].key);
    std::vector<Shared*> pool; for (int i = 0; i < W; i++) pool.push_back(mapShared());
    exitCode = 3;
    for (u32 vi : order) {
      auto& v = C->viol[vi]; Res a = runOne(S, v.seed, nullptr); auto d0 = decs(S); Res b = runOne(S, v.seed, nullptr);
      if (a.kind != 2 || b.kind != 2 || a.key != v.key || b.key != a.key || a.hash != b.hash) { unconfirmed += std::string(v.key) + " run " + std::to_string(v.run) + " did not repeat (" + a.key + "," + b.key + (a.hash == b.hash ? "" : ",hash differs") + "); "; continue; }
      Res c = runOne(S, 0, &d0); if (c.kind != 2 || c.key != a.key) { unconfirmed += std::string(v.key) + " run " + std::to_string(v.run) + " not reproduced from its decisions; "; continue; }
      u64 tried = 0; const char* me = getenv("SIM_MINTIME"); auto d = minimise(pool, d0, a.key, me ? atof(me) : (thorough() ? 180 : 40), tried);
      Res m = runOne(S, 0, &d, true); if (m.kind != 2 || m.key != a.key) { d = d0; m = runOne(S, 0, &d, true); }
      mkdir((root() + "/replays").c_str(), 0755); std::string path = root() + "/replays/" + gCheck->id + "-seed" + std::to_string(gVerifSeed) + "-run" + std::to_string(v.run) + ".replay";
      writeReplay(path, v.run, v.seed, m, d, d0.size(), S);
      std::string cmd = gSelf + " --replay " + path + " >/dev/null 2>&1"; int st = system(cmd.c_str());
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { unconfirmed += std::string(v.key) + " replay in a fresh process did not reproduce; "; continue; }
      printf("violation %s (run %llu, seed %llu), %zu decisions minimised to %zu in %llu runs\n%s\n", m.key.c_str(), (unsigned long long)v.run, (unsigned long long)v.seed, d0.size(), d.size(), (unsigned long long)tried, m.msg.substr(0, 3000).c_str());
      vline = std::string("VIOLATION property=") + gCheck->id + " replay=" + path; exitCode = 1; break; }
  }
  if (!exitCode && T.ok == 0) exitCode = 3;
  double wallS = wall() - t0;
  if (evid.empty()) evid = root() + "/evidence/" + gCheck->id + ".json"; mkdir((root() + "/evidence").c_str(), 0755);
  std::ofstream f(evid); f.precision(6); f << std::fixed;
  f << "{\n \"property\": " << js(gCheck->id) << ", \"tier\": " << js(tier) << ", \"seed\": " << gVerifSeed << ", \"level\": \"exploration\",\n \"coverage\": {\n";
  f << "  \"evaluations\": " << T.runs << ", \"distinct_nontrivial\": " << hs.size() << ",\n  \"rule\": " << js(std::string(gCheck->rule) + " A run is non-trivial when the oracle of the property was actually evaluated in it; runs are distinct by the hash of the full event log plus the scheduling decisions.") << ",\n";
  f << "  \"simulated_runs\": " << T.runs << ", \"runs_per_hour\": " << (u64)(T.runs / std::max(0.001, tExplore) * 3600) << ", \"seeds_per_hour\": " << (u64)(T.runs / std::max(0.001, tExplore) * 3600) << ", \"simulated_seconds\": " << T.simTime / 1e9 << ",\n";
  f << "  \"scheduler_steps\": " << T.steps << ", \"context_switches\": " << T.switches << ", \"operations\": " << T.ops << ", \"basic_blocks_executed\": " << T.blocks << ", \"code_edges_reached\": " << edges << ",\n";
  f << "  \"runs_with_faults\": " << T.runsWithFault << ", \"faults_injected\": {"; bool first = true; for (int i = 0; i < F_COUNT; i++) if (T.faults[i]) { f << (first ? "" : ", ") << js(kFaultName[i]) << ": " << T.faults[i]; first = false; } f << "},\n";
  f << "  \"probes\": {"; first = true; for (auto& p : probes) { f << (first ? "" : ", ") << js(p.first) << ": " << p.second; first = false; } f << "},\n";
  f << "  \"determinism_reruns\": " << T.detChecked << ", \"determinism_mismatches\": " << T.detMismatch << ", \"inconclusive_runs\": " << T.timeouts + T.internal << ",\n";
  f << "  \"known_finding_hits\": {"; for (size_t k = 0; k < known.size() && k < 32; k++) f << (k ? ", " : "") << js(known[k].key) << ": " << T.knownHits[k]; f << "},\n";
  f << "  \"real_components\": " << js(gCheck->real) << ",\n  \"stubbed_components\": " << js(gCheck->stub) << ",\n";
  f << "  \"samples\": ["; for (u32 i = 0; i < std::min<u32>((u32)C->nSamples, 12); i++) f << (i ? ",\n   " : "") << js(std::string(C->samples[i]).substr(0, 1500)); f << "]\n },\n \"assumptions\": ["; for (size_t i = 0; i < gCheck->assumptions.size(); i++) f << (i ? ", " : "") << js(gCheck->assumptions[i]); f << "],\n \"wall_s\": " << wallS << ", \"violations\": " << (exitCode == 1 ? 1 : 0) << "\n}\n"; f.close();
  printf("%s %s: %llu runs (%llu non-trivial distinct %zu), %llu inconclusive, %.1f simulated s, %llu switches, %llu edges, det %llu/%llu mismatches, explore %.1fs wall %.1fs\n", gCheck->id, tier, (unsigned long long)T.runs, (unsigned long long)T.nontriv, hs.size(), (unsigned long long)(T.timeouts + T.internal), T.simTime / 1e9, (unsigned long long)T.switches, (unsigned long long)edges, (unsigned long long)T.detMismatch, (unsigned long long)T.detChecked, tExplore, wallS);
  if (getenv("SIM_STATS")) { for (int i = 0; i < F_COUNT; i++) if (T.faults[i]) printf("  fault %-20s %llu\n", kFaultName[i], (unsigned long long)T.faults[i]); for (auto& p : probes) printf("  probe %-30s %llu\n", p.first.c_str(), (unsigned long long)p.second); for (size_t k = 0; k < known.size() && k < 32; k++) printf("  known %s %llu\n", known[k].key.c_str(), (unsigned long long)T.knownHits[k]); }
  if (T.intMsg[0]) printf("note: %s\n", T.intMsg);
  if (!unconfirmed.empty()) printf("unconfirmed: %s\n", unconfirmed.c_str());
  if (!vline.empty()) printf("%s\n", vline.c_str());
  return exitCode;
}
