// C15: an import that is told to stop, at whichever of its checks, stops, fails and leaves everything usable.
#include "dcase.h"
using namespace dl;
namespace {
enum { BOUND = 8 };
struct Stop {                        // the callback of one document
  u64 calls = 0, at = 0, after = 0; bool sticky = true, fired = false; bool* flag = nullptr; std::function<void()> extra;
  void import() { after = 0; fired = false; }
  std::function<void(bool&)> fn() { return [this](bool& abort) { calls++; if (fired) after++; if (extra && calls % 3 == 1) { auto e = extra; extra = nullptr; e(); } if ((at && calls == at) || (flag && *flag)) { fired = true; abort = true; } else if (fired && sticky) abort = true; }; } };
void ended(const Stop& s, VCOMError e, const char* what, bool mustWork) {
  if (s.fired && !e) violation("abort-ignored", "%s reported success although check %llu asked it to stop (%llu more checks)", what, (unsigned long long)(s.calls - s.after), (unsigned long long)s.after);
  if (s.fired && s.after > BOUND) violation("abort-late", "%s went through %llu more checks after it was asked to stop", what, (unsigned long long)s.after);
  if (!s.fired && e && mustWork) violation("spurious-failure", "%s failed with %d although nobody stopped it", what, (int)e); }
VCOMError read(IGdtfFixture* g, const std::string& path, bool buffer) { if (!buffer) return g->ReadFromFile(path.c_str()); std::string b = fsGet(0, path); return g->FromBuffer(b.data(), b.size()); }
void scenario() {
  xc::quietLog(); addHost("A", { "10.0.0.1" }); bool mvr = choose(C_CFG, 2), buffer = !mvr && choose(C_CFG, 3) == 1; Opt o = someOpt(); std::string path = std::string("/work/doc") + ext(mvr), said;
  runProcess("author", [&] { Map m; if (VCOMError e = store(mvr, path, o, m)) violation("store", "the document could not be stored: %d", (int)e); Opt q; q.src = "/second"; q.salt = 4; if (VCOMError e = store(!mvr, std::string("/work/other") + ext(!mvr), q, m)) violation("store", "the other document could not be stored: %d", (int)e); });
  runProcess("reader", [&] { Map full; Stop s; std::string other = std::string("/work/other") + ext(!mvr); if (mvr) { VCOMPtr<IMediaRessourceVectorInterface> p(IID_MediaRessourceVectorInterface); p->SetAbortCallback(s.fn()); ended(s, p->OpenForRead(path.c_str()), "import", true); say(std::to_string(s.calls) + " "); dumpMvr(p, full); say(std::to_string(s.calls) + SEP); } else { VCOMPtr<IGdtfFixture> g(IID_IGdtfFixture); g->SetAbortCallback(s.fn()); ended(s, read(g, path, buffer), "import", true); say(std::to_string(s.calls) + " " + std::to_string(s.calls) + SEP); dumpGdtf(g, full); } tell(full); Map second; if (load(!mvr, other, second)) violation("load", "the other document could not be read"); tell(second); }, &said);
  u64 imp = strtoull(said.c_str(), nullptr, 10), total = strtoull(said.c_str() + said.find(' ') + 1, nullptr, 10); auto l = maps(said); if (l.size() != 3) internalError("reader said %zu", l.size()); Map full = l[1], second = l[2]; nontrivial(); opCount(total);
  if (!imp) violation("never-asked", "importing a %s document never asked the callback", mvr ? "MVR" : "GDTF");
  u32 rounds = 1 + choose(C_OP, 3); bool threads = choose(C_CFG, 4) == 1; std::string how;
  runProcess("importer", [&] {
    std::string other = std::string("/work/other") + ext(!mvr); bool withOther = choose(C_CFG, 2); VCOMPtr<IGdtfFixture> og(IID_IGdtfFixture); VCOMPtr<IMediaRessourceVectorInterface> op(IID_MediaRessourceVectorInterface); Stop os; if (withOther) { if (mvr) og->SetAbortCallback(os.fn()); else op->SetAbortCallback(os.fn()); }
    VCOMPtr<IGdtfFixture> keep(IID_IGdtfFixture); 
    for (u32 r = 0; r < rounds; r++) {
      Stop s; s.sticky = choose(C_OP, 2); bool flag = false, done = false; int tid = -1; s.at = choose(C_CRASH, 3) == 1 ? 1 + choose(C_CRASH, (u32)std::min<u64>(total, 5)) : choose(C_CRASH, 4) == 1 ? imp - choose(C_CRASH, (u32)std::min<u64>(imp, 5)) : (u64)range(C_CRASH, 1, total); how += " " + std::to_string(s.at);
      if (threads) { s.at = 0; s.flag = &flag; xc::randomSched(); tid = spawn(here(), "canceller", [&] { u32 n = choose(C_OP, 300); for (u32 i = 0; i < n && !done; i++) sim::yield("cancel"); flag = true; }); }
      if (choose(C_OP, 4) == 1) s.extra = [&] { Map m; if (VCOMError e = load(!mvr, other, m)) violation("disturbed", "an import within the callback of another one failed with %d", (int)e); compare("import within a callback", second, m, false); };
      if (mvr) { VCOMPtr<IMediaRessourceVectorInterface> p(IID_MediaRessourceVectorInterface); p->SetAbortCallback(s.fn()); s.import(); VCOMError e = p->OpenForRead(path.c_str()); ended(s, e, "OpenForRead", true); if (e) probe("import aborted"); if (choose(C_OP, 3)) { bool was = false; fixtureAsked = [&](const VCOMError* e) { if (!e) { was = s.fired; s.import(); } else { ended(s, *e, "GetGdtfFixture", false); if (s.fired) probe("fixture aborted"); else s.fired = was; } }; Map m; dumpMvr(p, m); fixtureAsked = nullptr; } }
      else { VCOMPtr<IGdtfFixture> g(IID_IGdtfFixture); IGdtfFixture* x = choose(C_OP, 2) ? (IGdtfFixture*)g : (IGdtfFixture*)keep; x->SetAbortCallback(s.fn()); s.import(); VCOMError e = read(x, path, buffer); ended(s, e, "the import", true); if (e) probe("import aborted"); if (choose(C_OP, 3)) { Map m; dumpGdtf(x, m); if (!e) compare("not aborted", full, m, false); std::string b; if (choose(C_OP, 3) == 1) toBuffer(x, b); } x->SetAbortCallback([](bool&) {}); 
        if (choose(C_OP, 2)) { VCOMError e2 = read(x, path, buffer); if (e2) violation("import-after-abort", "importing with the same object afterwards failed with %d", (int)e2); Map m; dumpGdtf(x, m); compare("import after an abort", full, m, false); } }
      if (threads) { done = true; joinTask(tid); }
      auto open = fsOpenFiles(0); if (!open.empty()) violation("open-file", "after aborting an import %s is still open", open[0].c_str());
      if (withOther) { os = Stop(); VCOMError e = mvr ? og->ReadFromFile(other.c_str()) : r ? kVCOMError_NoError : op->OpenForRead(other.c_str()); if (e) violation("disturbed", "importing another document afterwards failed with %d", (int)e); Map m; if (mvr) dumpGdtf(og, m); else dumpMvr(op, m); compare("other document", second, m, false); }
      Map m; if (VCOMError e = load(mvr, path, m)) violation("import-after-abort", "importing the file again failed with %d", (int)e); compare("import after an abort", full, m, false); } say(how); }, &how);
  sample(std::string(mvr ? "MVR" : "GDTF") + " of " + std::to_string(imp) + "/" + std::to_string(total) + " checks aborted at" + how); }
static Reg r({ "C15", "aborted import", scenario, 100000, 1000000, "runs until the time limit", "MVR and GDTF import, XML reader (tinyxml2), zip (miniz), files and folders", "file system, clock, scheduler (simulated)", { "the callback is set before the import" } });
}
