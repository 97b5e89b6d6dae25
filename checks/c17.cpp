// C17: after a document is released nothing it opened is open, nothing it extracted is left, and the caller's files are untouched.
#include "dsess.h"
using namespace dl;
namespace {
bool under(const std::string& p, const std::string& dir) { return p == dir || !p.compare(0, dir.size() + 1, dir + "/"); }
u64 stuck() { return fsFailedOf("remove") + fsFailedOf("stat"); }
struct Tree {          // what is the caller's
  std::map<std::string, std::string> before = fsSnapshot(0); std::vector<std::string> dirs;
  bool target(const std::string& p) { for (auto& d : dirs) if (under(p, d) && !under(p, d + "/src")) return true; return false; }
  void see(const char* op, const std::string& p) { if (target(p)) return; auto i = before.find(p); if (i != before.end() && i->second != "<dir>") violation("caller's file", "%s of %s, which belongs to the caller", op, p.c_str()); for (auto& d : dirs) if (under(p, d + "/src") && (p.size() < 5 || p.compare(p.size() - 5, 5, ".gdtf"))) violation("caller's file", "%s of %s, which is a source of the document", op, p.c_str()); }
  void end(const char* when) {
    auto open = fsOpenFiles(0); if (!open.empty()) violation("open-file", "%s: %s is still open (%zu files)", when, open[0].c_str(), open.size());
    auto after = fsSnapshot(0); for (auto& e : before) if (e.second != "<dir>" && !target(e.first)) { auto i = after.find(e.first); if (i == after.end()) violation("caller's file", "%s: %s is gone", when, e.first.c_str()); if (i->second != e.second) violation("caller's file", "%s: %s was changed", when, e.first.c_str()); }
    if (stuck()) { probe("removal failed"); return; }
    for (auto& e : after) if (under(e.first, "/home/user") && e.second != "<dir>" && !before.count(e.first)) violation("left-over", "%s: %s is left", when, e.first.c_str()); }
};
void faults() {
  fs = FsCfg(); switch (choose(C_CFG, 6)) { default: break;
    case 1: fs.failIn = 1 + choose(C_FAULT, 400); break;
    case 2: fs.failIn = 1 + choose(C_FAULT, 400); fs.sticky = true; break;
    case 3: { double p = choose(C_CFG, 2) ? 0.02 : 0.2; double* a[] = { &fs.openP, &fs.readP, &fs.writeP, &fs.closeP, &fs.mkdirP, &fs.seekP, &fs.syncP, &fs.homeP }; for (auto x : a) if (choose(C_CFG, 2)) *x = p; break; }
    case 4: fs.capacity = (i64)range(C_FAULT, 0, 60000); break;
    case 5: { double p = 0.1; double* a[] = { &fs.removeP, &fs.statP, &fs.openP, &fs.writeP }; for (auto x : a) if (choose(C_CFG, 2)) *x = p; break; } } 
  if (choose(C_CFG, 6) == 1) fs.readChunk = 1 + choose(C_FAULT, 4096); }
void odd(Session& s) {      // what an application should not do, or does after a failure
  std::string out = s.dir + "/odd" + ext(!!s.m), none = "/nowhere/at/all" + std::string(ext(!!s.m)); 
  if (s.g) { IGdtfFixture* g = *s.g; switch (choose(C_OP, 7)) { case 0: g->Close(); break; case 1: g->OpenForWrite(out.c_str(), "Odd", "Acme", s.gd.uuid); break; case 2: g->ReadFromFile(none.c_str()); break; case 3: g->FromBuffer("PK\3\4garbage", 11); break; case 4: { std::string b; toBuffer(g, b); break; } case 5: g->AddFileToGdtfFile((s.dir + "/src/missing.png").c_str(), GD::ERessourceType::ImageWheel, "m.png"); break; default: g->OpenForWrite("/nowhere/x.gdtf", "Odd", "Acme", s.gd.uuid); g->Close(); } probe("odd call"); }
  if (s.m) { IMediaRessourceVectorInterface* m = *s.m; switch (choose(C_OP, 6)) { case 0: m->Close(); break; case 1: m->OpenForWrite(out.c_str()); break; case 2: m->OpenForRead(none.c_str()); break; case 3: m->AddFileToMvrFile((s.dir + "/src/missing.png").c_str()); break; case 4: m->OpenForWrite("/nowhere/x.mvr"); m->Close(); break; default: m->AddGdtfFolderLocation("/nowhere"); } probe("odd call"); } }
void scenario() {
  xc::quietLog(); addHost("A", { "10.0.0.1" }); auto shared = sharedDocuments(true); 
  fsPut(0, "/home/user/keep.txt", "mine"); if (choose(C_CFG, 2)) fsPut(0, "/home/user/GDTFs/keep.txt", "mine"); if (choose(C_CFG, 3) == 1) fsPut(0, "/home/user/MVR_Export/keep.txt", "mine"); if (choose(C_CFG, 3) == 1) fsPut(0, "/home/user/GDTFs/GdtfGroup/keep.txt", "mine"); if (choose(C_CFG, 5) == 1) fsMkdirs(0, "/home/user/MVR_Export_1");
  u32 rounds = 1 + choose(C_CFG, 3); std::string kinds;
  for (u32 round = 0; round < rounds; round++) { u32 n = 1 + choose(C_CFG, 3); u32 crash = choose(C_CFG, 6) == 1 ? 1 + choose(C_CRASH, 500) : 0; bool strange = choose(C_CFG, 3) == 1, calm = choose(C_CFG, 2); std::vector<u64> keys; for (u32 i = 0; i < n; i++) keys.push_back(choose(C_CFG, 0x7fffffff)); std::string said;
    nontrivial(); opCount(n);
    bool lived = runProcess("user", [&] {
      Tree t; std::vector<std::unique_ptr<Session>> ss; std::vector<bool> live(n, true); std::vector<u32> last; for (u32 i = 0; i < n; i++) { ss.push_back(session((int)(round * 10 + i), keys[i], shared)); t.dirs.push_back(ss[i]->dir); last.push_back(choose(C_OP, 3) ? 1000 : choose(C_OP, 6)); say(ss[i]->kind + (last[i] < 1000 ? " dropped after " + std::to_string(last[i]) : "") + ", "); }
      onFsMutate([&](int, const char* op, const std::string& p) { t.see(op, p); }); faults(); fs.crashIn = crash; u32 left = n;
      while (left) { u32 k = choose(C_SCHED, n); while (!live[k]) k = (k + 1) % n; Session& s = *ss[k]; bool more = last[k]-- > 0 && s.step(); if (more && strange && choose(C_OP, 3) == 1) odd(s); if (!more) { s.release(); live[k] = false; left--; if (n == 1 || !left) t.end("after releasing the documents"); } }
      onFsMutate(nullptr); FsCfg f = fs; fs = FsCfg(); (void)f; }, &said);
    kinds += "[" + said + (lived ? "" : "crashed") + "] "; fs = FsCfg();
    if (calm) for (auto& d : shared) if (d.find("/bad") == std::string::npos) { Map m; runProcess("next", [&] { Tree t; onFsMutate([&](int, const char* op, const std::string& p) { t.see(op, p); }); Map m; if (VCOMError e = load(!d.compare(d.size() - 4, 4, ".mvr"), d, m)) violation("later import", "%s could not be read afterwards: %d", d.c_str(), (int)e); t.end("after a later import"); onFsMutate(nullptr); }); } }
  sample(kinds); }
static Reg r({ "C17", "resources released", scenario, 100000, 1000000, "runs until the time limit", "MVR and GDTF object model, import and export, XML reader and writer (tinyxml2), zip (miniz), files and folders", "file system, clock, process crash (simulated)", { "files that could not be removed because the storage refused it are tolerated" } });
}
