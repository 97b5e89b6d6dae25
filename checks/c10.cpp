// C10: a save that reports success left a complete archive, whatever the storage did; one that reports failure had a reason.
#include "dcase.h"
using namespace dl;
namespace {
void weather() {
  fs = FsCfg(); fs.except = "/src/lib";      // a file of the library folder that cannot be read is not needed for the document
  switch (choose(C_CFG, 7)) {
    case 0: break;
    case 1: case 2: fs.failIn = 1 + choose(C_FAULT, choose(C_FAULT, 2) ? 40 : 400); fs.sticky = choose(C_FAULT, 2); break;
    case 3: { double p = choose(C_FAULT, 2) ? 0.02 : 0.2; switch (choose(C_FAULT, 5)) { case 0: fs.writeP = p; break; case 1: fs.openP = p; break; case 2: fs.closeP = p; break; case 3: fs.readP = p; break; default: fs.writeP = fs.openP = fs.closeP = fs.readP = fs.seekP = p / 3; } break; }
    case 4: fs.capacity = (i64)range(C_FAULT, 0, choose(C_FAULT, 2) ? 20000 : 400); break;
    case 5: fs.capacity = (i64)range(C_FAULT, 0, 3000); fs.failIn = 1 + choose(C_FAULT, 60); break;
    case 6: fs.writeP = 0; fs.readChunk = 1 + choose(C_FAULT, 5000); break; } }
void complete(bool mvr, const std::string& path, const Map& model, const char* when) {
  std::vector<Entry> es; std::string why; if (!fsExists(0, path) || fsIsDir(0, path)) violation("lost", "%s reported success but there is no file at the target path", when); if (!unzip(fsGet(0, path), es, &why)) violation("incomplete-archive", "%s reported success but the file is not a complete archive: %s", when, why.c_str());
  fs = FsCfg(); runProcess("reader", [&] { Map got; bool xe; if (VCOMError e = load(mvr, path, got, &xe)) violation("unreadable", "%s reported success but the file cannot be imported: %d", when, (int)e); if (xe) violation("unreadable", "%s reported success but the description cannot be parsed", when); compare("saved", model, got, true); }); }
void scenario() {
  xc::quietLog(); addHost("A", { "10.0.0.1" }); bool mvr = choose(C_CFG, 2), viaBuffer = !mvr && choose(C_CFG, 5) == 1; Opt o = someOpt(); std::string path = std::string("/work/doc") + ext(mvr), said; u32 old = choose(C_CFG, 3), late = choose(C_CFG, 2); u32 again = choose(C_OP, 4); bool ends = choose(C_CRASH, 2);
  if (old == 1) fsPut(0, path, blob(7, 1 + choose(C_DATA, 100000), 0)); if (old == 2) runProcess("earlier author", [&] { Map m; Opt q = o; q.salt = 9; store(mvr, path, q, m); });
  u64 f0 = fsFailed();
  runProcess("author", [&] {
    auto result = [&](const char* what, VCOMError e, const Map& model) { say(e ? "E" : "S"); say(what); say(SEP); tell(model); };
    if (!late) weather();
    if (!mvr) { GdtfDoc doc = planGdtf(o); VCOMPtr<IGdtfFixture> g(IID_IGdtfFixture); if (viaBuffer ? g->OpenForWrite(doc.name.c_str(), "Acme", doc.uuid) : g->OpenForWrite(path.c_str(), doc.name.c_str(), "Acme", doc.uuid)) return; buildGdtf(g, doc, o); doc.model["name"] = doc.name; doc.model["manufacturer"] = "Acme"; if (late) weather();
      if (viaBuffer) { std::string b; bool ok = toBuffer(g, b); if (!ok && fsFailed() == f0) violation("spurious-failure", "storing in a buffer failed though nothing went wrong"); if (ok) { fs = FsCfg(); fsPut(0, path, b); result("RefreshBuffer", kVCOMError_NoError, doc.model); } return; }
      VCOMError e = g->Close(); if (e && fsFailed() == f0) violation("spurious-failure", "Close failed with %d though nothing went wrong", (int)e); if (e && again == 1) { fs = FsCfg(); e = g->Close(); } result("Close", e, doc.model); if (ends) crashProcess(); }
    else { MvrDoc doc; VCOMPtr<IMediaRessourceVectorInterface> p(IID_MediaRessourceVectorInterface); if (p->OpenForWrite(path.c_str())) return; buildMvr(p, doc, o); if (late) weather(); VCOMError e = p->Close(); if (e && fsFailed() == f0) violation("spurious-failure", "Close failed with %d though nothing went wrong", (int)e); if (e && again == 1) { fs = FsCfg(); e = p->Close(); } result("Close", e, doc.model); if (ends) crashProcess(); } }, &said);
  fs = FsCfg(); nontrivial(); bool failed = fsFailed() != f0; size_t b = said.find(SEP); std::string head = b == std::string::npos ? "" : said.substr(0, b);
  if (head.empty()) { sample("not opened"); return; }
  auto m = maps(said.substr(b + SEP.size())); if (m.size() != 1) internalError("author said %zu maps", m.size()); opCount(m[0].size());
  bool ok = head[0] == 'S'; if (ok) complete(mvr, path, m[0], head.c_str() + 1); else probe("save reported failure"); if (ok && failed) probe("success in spite of a fault");
  sample(std::string(mvr ? "MVR " : "GDTF ") + (ok ? "saved" : "reported failure") + (failed ? " with faults" : "")); }
static Reg r({ "C10", "complete export", scenario, 100000, 1000000, "runs until the time limit", "MVR and GDTF object model, XML writer and reader (tinyxml2), zip (miniz), files and folders", "file system, clock (simulated)", { "the disk keeps what it accepted and closed", "the files of a library folder stay readable" } });
}
