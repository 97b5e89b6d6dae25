// C14: documents that are open at the same time, in one thread or several, behave as if each were alone.
#include "dsess.h"
using namespace dl;
namespace {
void scenario() {
  limits.maxSteps = 4000000; xc::quietLog(); addHost("A", { "10.0.0.1" }); auto shared = sharedDocuments(true); u32 n = 2 + choose(C_CFG, 4), mode = choose(C_CFG, 3); std::vector<u64> keys; for (u32 i = 0; i < n; i++) keys.push_back(choose(C_CFG, 0x7fffffff)); std::vector<Map> alone(n); std::string kinds;
  int sick = choose(C_CFG, 4) == 1 ? (int)choose(C_CFG, n) : -1;      // the storage fails for the files of one of them
  for (u32 i = 0; i < n; i++) { std::string said; runProcess("alone", [&] { auto s = session((int)i, keys[i], shared); while (s->step()) {} say(s->kind); say(SEP); tell(s->log); }, &said); size_t e = said.find(SEP); kinds += (i ? ", " : "") + said.substr(0, e); auto l = maps(said.substr(e + SEP.size())); if (l.size() != 1) internalError("alone said %zu", l.size()); alone[i] = l[0]; fsRemoveTree(0, "/s" + std::to_string(i)); }
  nontrivial(); opCount(n); std::string said; u32 threads = mode == 0 ? 1 : 2 + choose(C_CFG, 3); static const u32 PM[] = { 0, 20000, 3000, 700, 200 }; u32 fine = PM[choose(C_CFG, 5)];
  runProcess("together", [&] {
    std::vector<std::unique_ptr<Session>> ss; for (u32 i = 0; i < n; i++) ss.push_back(session((int)i, keys[i], shared));
    if (sick >= 0) { fs.only = ss[sick]->dir + "/"; double p = 0.1; fs.openP = fs.writeP = fs.readP = fs.closeP = p; }
    if (threads == 1) { std::vector<size_t> live; for (u32 i = 0; i < n; i++) live.push_back(i); while (!live.empty()) { size_t k = choose(C_SCHED, (u32)live.size()); if (!ss[live[k]]->step()) live.erase(live.begin() + k); } }
    else { xc::randomSched(); sched.preemptMean = fine; std::vector<int> t; for (u32 w = 0; w < threads; w++) t.push_back(spawn(0, "worker", [&, w] { std::vector<size_t> live; for (u32 i = w; i < n; i += threads) live.push_back(i); while (!live.empty()) { size_t k = choose(C_SCHED, (u32)live.size()); if (!ss[live[k]]->step()) live.erase(live.begin() + k); sim::yield("step"); } })); for (int x : t) joinTask(x); }
    fs = FsCfg(); sched.preemptMean = 0; for (auto& s : ss) tell(s->log); }, &said);
  auto l = maps(said); if (l.size() != n) internalError("together said %zu", l.size());
  for (u32 i = 0; i < n; i++) if ((int)i != sick) compare("not as alone", alone[i], l[i], false);
  sample((threads == 1 ? "one thread: " : std::to_string(threads) + " threads: ") + kinds); }
static Reg r({ "C14", "independent documents", scenario, 100000, 1000000, "runs until the time limit", "MVR and GDTF object model, import and export, XML reader and writer (tinyxml2), zip (miniz), files and folders", "file system, clock, threads and their scheduler (simulated)", { "every document object is used by one thread at a time" } });
}
