#include "dsess.h"
#include <string.h>
namespace dl {
bool Session::step() { if (next >= steps.size()) return false; Script s(key, pos); auto& f = steps[next++]; std::swap(D, density); std::swap(gNames, names); f(); std::swap(D, density); std::swap(gNames, names); return true; }
void Session::release() { g.reset(); g2.reset(); m.reset(); m2.reset(); steps.clear(); next = 0; }
static bool isMvr(const std::string& p) { return p.size() > 4 && !p.compare(p.size() - 4, 4, ".mvr"); }
static void errors(Session& s, const std::string& pre, IGdtfFixture* g) { size_t n = 0; g->GetParsingErrorCount(n); std::string l; for (size_t i = 0; i < n; i++) { VCOMPtr<IGdtfXmlParsingError> pe; if (g->GetParsingErrorAt(i, &pe) || !pe) continue; GD::EGdtfParsingError t{}; pe->GetErrorType(t); l += std::to_string((int)t) + ":" + std::string(pe->GetNodeName()) + ":" + std::string(pe->GetErrorMessage()) + ";"; } s.log[pre + "errors"] = l; }
static Map entriesOf(const std::string& bytes) { std::vector<Entry> es; Map m; std::string why; if (!unzip(bytes, es, &why)) { m["archive"] = why; return m; } for (auto& e : es) m[e.name] = std::to_string(e.data.size()) + " bytes " + std::to_string(fnv(e.data.data(), e.data.size())); return m; }
std::unique_ptr<Session> session(int id, u64 key, const std::vector<std::string>& shared) {
  auto q = std::make_unique<Session>(); Session& s = *q; Session* p = &s; s.dir = "/s" + std::to_string(id); s.key = key; Script sc(key, s.pos); s.o = someOpt(); s.o.src = s.dir + "/src"; s.o.salt = 30 + id; std::vector<std::string> gs, ms; for (auto& f : shared) (isMvr(f) ? ms : gs).push_back(f);
  auto on = [p](std::function<void()> f) { p->steps.push_back(f); };
  auto newG = [](std::unique_ptr<VCOMPtr<IGdtfFixture>>& x) { x = std::make_unique<VCOMPtr<IGdtfFixture>>(IID_IGdtfFixture); }; auto newM = [](std::unique_ptr<VCOMPtr<IMediaRessourceVectorInterface>>& x) { x = std::make_unique<VCOMPtr<IMediaRessourceVectorInterface>>(IID_MediaRessourceVectorInterface); };
  auto readG = [&, p, newG](const std::string& path) {
    bool buf = choose(C_CFG, 3) == 1; u64 at = choose(C_CFG, 5) == 1 ? 1 + choose(C_DATA, 200) : 0; s.kind = std::string(buf ? "buffer " : "read ") + path + (at ? " aborted" : "");
    on([=] { newG(p->g); IGdtfFixture* g = *p->g; auto calls = std::make_shared<u64>(0); if (at) g->SetAbortCallback([=](bool& a) { if (++*calls >= at) a = true; }); VCOMError e; if (buf) { bool ok; std::string b = slurp(path, ok); e = g->FromBuffer(b.data(), b.size()); } else e = g->ReadFromFile(path.c_str()); p->note("read", e); if (at) p->log["aborted at"] = std::to_string(*calls); });
    on([=] { errors(*p, "", *p->g); }); on([=] { Map m; dumpGdtf(*p->g, m); p->add("doc.", m); });
    if (choose(C_CFG, 2)) on([=] { std::string b; bool ok = toBuffer(*p->g, b); p->log["to buffer"] = ok ? "ok" : "failed"; if (ok) p->add("entry.", entriesOf(b)); });
    if (choose(C_CFG, 3) == 1) on([=] { Map m; dumpGdtf(*p->g, m); p->add("again.", m); }); };
  auto readM = [&, p, newM](const std::string& path) {
    u64 at = choose(C_CFG, 5) == 1 ? 1 + choose(C_DATA, 200) : 0; s.kind = "read " + path + (at ? " aborted" : "");
    on([=] { newM(p->m); IMediaRessourceVectorInterface* m = *p->m; auto calls = std::make_shared<u64>(0); if (at) m->SetAbortCallback([=](bool& a) { if (++*calls >= at) a = true; }); p->note("read", m->OpenForRead(path.c_str())); if (at) p->log["aborted at"] = std::to_string(*calls); });
    on([=] { Map m; dumpMvr(*p->m, m, false); p->add("doc.", m); }); on([=] { Map m; dumpMvr(*p->m, m); p->add("files.", m); });
    if (choose(C_CFG, 2)) on([=] { IMediaRessourceVectorInterface* m = *p->m; std::string out = p->dir + "/out.mvr"; fsMkdirs(here(), p->dir); p->note("open again", m->OpenForWrite(out.c_str())); size_t n = 0; m->GetAttachedFileCount(n); for (size_t i = 0; i < n; i++) m->AddFileToMvrFile(std::string(m->GetAttachedFileCountAt(i)).c_str()); p->note("store again", m->Close()); bool ok; std::string b = slurp(out, ok); p->add("entry.", entriesOf(b)); }); };
  switch (choose(C_CFG, 5)) {
    default: if (!gs.empty()) { readG(gs[choose(C_CFG, (u32)gs.size())]); break; }
    // fall through
    case 1: if (!ms.empty()) { readM(ms[choose(C_CFG, (u32)ms.size())]); break; }
    // fall through
    case 2: case 3: { bool buf = choose(C_CFG, 3) == 1; s.kind = buf ? "write gdtf buffer" : "write gdtf"; std::string path = s.dir + "/new.gdtf";
      on([=] { newG(p->g); p->gd = planGdtf(p->o); IGdtfFixture* g = *p->g; fsMkdirs(here(), p->dir); p->note("open", buf ? g->OpenForWrite(p->gd.name.c_str(), "Acme", p->gd.uuid) : g->OpenForWrite(path.c_str(), p->gd.name.c_str(), "Acme", p->gd.uuid)); });
      on([=] { buildGdtf(*p->g, p->gd, p->o); }); on([=] { Map m; dumpGdtf(*p->g, m, false); p->add("built.", m); });
      on([=] { IGdtfFixture* g = *p->g; std::string b; if (buf) { bool ok = toBuffer(g, b); p->log["store"] = ok ? "ok" : "failed"; } else { p->note("store", g->Close()); bool ok; b = slurp(path, ok); } p->add("entry.", entriesOf(b)); newG(p->g2); p->note("read back", (*p->g2)->FromBuffer(b.data(), b.size())); errors(*p, "", *p->g2); });
      on([=] { Map m; dumpGdtf(*p->g2, m); p->add("doc.", m); }); if (choose(C_CFG, 2)) on([=] { p->g.reset(); Map m; dumpGdtf(*p->g2, m); p->add("again.", m); }); break; }
    case 4: { s.kind = "write mvr"; std::string path = s.dir + "/new.mvr";
      on([=] { newM(p->m); fsMkdirs(here(), p->dir); p->note("open", (*p->m)->OpenForWrite(path.c_str())); }); on([=] { buildMvr(*p->m, p->md, p->o); }); on([=] { Map m; dumpMvr(*p->m, m, false); p->add("built.", m); });
      on([=] { p->note("store", (*p->m)->Close()); bool ok; p->add("entry.", entriesOf(slurp(path, ok))); newM(p->m2); p->note("read back", (*p->m2)->OpenForRead(path.c_str())); }); on([=] { Map m; dumpMvr(*p->m2, m); p->add("doc.", m); }); break; } }
  on([=] { p->g.reset(); p->m.reset(); if (p->g2) { Map m; dumpGdtf(*p->g2, m); p->add("last.", m); } p->g2.reset(); p->m2.reset(); });
  return q; }
std::vector<std::string> sharedDocuments(bool damaged) {
  std::vector<std::string> r; u32 n = 1 + choose(C_CFG, 2); for (u32 i = 0; i < n; i++) for (bool mvr : { false, true }) { std::string path = "/lib/doc" + std::to_string(i) + ext(mvr); runProcess("author", [&] { Map m; Opt o = someOpt(); o.src = "/libsrc" + std::to_string(i) + ext(mvr); o.salt = i; fsMkdirs(0, "/lib"); if (VCOMError e = store(mvr, path, o, m)) violation("store", "the document could not be stored: %d", (int)e); }); r.push_back(path);
    if (damaged && choose(C_CFG, 2)) { std::string b = fsGet(0, path); if (choose(C_DATA, 2)) b.resize((size_t)range(C_DATA, 0, b.size() - 1)); else { std::vector<Entry> es; unzip(b, es); for (auto& e : es) if (e.name == "description.xml" || e.name == "GeneralSceneDescription.xml") { for (int k = 0; k < 5; k++) { size_t at = (size_t)range(C_DATA, 0, e.data.size() - 1), q = e.data.find("=\"", at); if (q != std::string::npos && q + 2 < e.data.size() && e.data[q + 2] != '"') e.data[q + 2] = '?'; } } b = zip(es); } std::string d = "/lib/bad" + std::to_string(i) + ext(mvr); fsPut(0, d, b); r.push_back(d); } }
  return r; }
}
