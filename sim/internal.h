#pragma once
#include "core.h"
#include "real.h"
#include <semaphore.h>
namespace sim {
struct Task {
  int id = 0, host = 0; std::string name; sem_t sem;
  enum St { RUN, BLOCK, DONE } st = RUN;
  const std::function<bool()>* pred = nullptr; u64 deadline = NEVER; bool timedOut = false;
  bool frozen = false, lib = false, detached = false, reaped = false; u64 stallUntil = 0; const char* what = "start";
  pthread_t thr{}; std::function<void()> fn; void* (*start)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
  u32 slice = 0; int noPreempt = 0; u32 sameCount = 0;
};
constexpr u32 MAXDEC = 600000, MAXPROBE = 96, MAXEDGE = 400000, LOGCAP = 1 << 20;
struct Shared {
  volatile int status; // 0 running 1 ok 2 violation 3 internal error
  char key[512]; char msg[16384]; char asan[16384];
  u64 hash, schedHash, steps, simTime, ops, blocks, switches; int nontriv; char sample[8192];
  u64 faults[F_COUNT];
  struct P { char name[56]; u64 n; } probes[MAXPROBE];
  u32 nDec, decOverflow; Decision dec[MAXDEC];
  u32 logLen; char log[LOGCAP];
  u32 nEdges; u8 edges[MAXEDGE];
};
extern Shared* sh;
extern u64 gSeed;
extern const std::vector<Decision>* gReplay; // non-null: replay mode
Task* cur();
void runScenario(Scenario fn);   // in the child; never returns
struct NoPreempt { NoPreempt(); ~NoPreempt(); };
[[noreturn]] void finishRun(int status);
}
