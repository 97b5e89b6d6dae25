// C11: what was put into a GDTF or MVR document is what a fresh process reads from the stored archive, and storing it again loses nothing.
#include "dcase.h"
using namespace dl;
namespace {
// other documents the process has open
struct Before { VCOMPtr<IGdtfFixture> g{ IID_IGdtfFixture }; VCOMPtr<IMediaRessourceVectorInterface> p{ IID_MediaRessourceVectorInterface }; Before() { if (fsExists(0, "/work/other.gdtf")) g->ReadFromFile("/work/other.gdtf"); if (fsExists(0, "/work/other.mvr")) p->OpenForRead("/work/other.mvr"); } };
void others() { if (choose(C_CFG, 4) != 1) return; runProcess("other author", [&] { Opt o; o.src = "/other"; o.salt = 5; Map m; bool mvr = choose(C_CFG, 2); if (store(mvr, std::string("/work/other") + ext(mvr), o, m)) violation("store", "another document could not be stored"); }); }
void wellFormed(const char* path, const char* what) { std::vector<Entry> es; std::string why; if (!unzip(fsGet(0, path), es, &why)) violation("not-an-archive", "%s is not a well-formed archive: %s", what, why.c_str()); }
void gdtf() {
  Opt o; o.big = choose(C_CFG, 2); o.names = choose(C_CFG, 3) != 1; bool viaBuffer = choose(C_CFG, 3) == 1; std::string said;
  runProcess("author", [&] { GdtfDoc doc = planGdtf(o); VCOMPtr<IGdtfFixture> g(IID_IGdtfFixture); if (viaBuffer ? g->OpenForWrite(doc.name.c_str(), "Acme", doc.uuid) : g->OpenForWrite("/work/doc.gdtf", doc.name.c_str(), "Acme", doc.uuid)) violation("open", "a new GDTF document could not be opened");
    buildGdtf(g, doc, o); doc.model["name"] = doc.name; doc.model["manufacturer"] = "Acme"; doc.model["guid"] = ""; doc.model.erase("guid"); Map built; dumpGdtf(g, built, false); compare("built", structure(doc.model), built, true);
    if (viaBuffer) { std::string b; if (!toBuffer(g, b)) violation("store", "the document could not be stored in a buffer"); fsPut(0, "/work/doc.gdtf", b); } else if (VCOMError e = g->Close()) violation("store", "the document could not be stored: %d", (int)e); tell(doc.model); tell(built); }, &said);
  auto m = maps(said); if (m.size() != 2) internalError("author said %zu", m.size()); nontrivial(); wellFormed("/work/doc.gdtf", "the stored document"); opCount(m[0].size()); std::string said2; bool fromBuf = choose(C_CFG, 3) == 1;
  auto load = [&](const char* path, Map& out, std::string* again) { VCOMPtr<IGdtfFixture> g(IID_IGdtfFixture); VCOMError e; if (fromBuf) { std::string b = fsGet(0, path); std::vector<char> tmp(b.begin(), b.end()); e = g->FromBuffer(tmp.data(), tmp.size()); } else e = g->ReadFromFile(path); if (e) violation("load", "the stored document could not be read: %d", (int)e); dumpGdtf(g, out);
    size_t n = 0; g->GetParsingErrorCount(n); for (size_t i = 0; i < n; i++) { VCOMPtr<IGdtfXmlParsingError> pe; g->GetParsingErrorAt(i, &pe); GD::EGdtfParsingError t{}; pe->GetErrorType(t); if (t == GD::EGdtfParsingError::eNodeWrongAttribute || t == GD::EGdtfParsingError::eNodeWrongName) violation((std::string("parsing-error:") + std::string(pe->GetNodeName()) + "." + std::string(pe->GetErrorMessage())).c_str(), "reading a document the library stored reports the unexpected '%s' in a node %s", pe->GetErrorMessage(), std::string(pe->GetNodeName()).c_str()); }
    if (again) { if (!toBuffer(g, *again)) violation("re-store", "the loaded document could not be stored in a buffer"); } };
  others(); runProcess("reader", [&] { elsewhere(); Before before; Map got; std::string again; load("/work/doc.gdtf", got, &again); compare("stored", m[0], got, true); Map g2 = structure(got), b2 = structure(m[1]); for (auto e = b2.begin(); e != b2.end();) if (e->second.empty() && e->first.size() > 8 && !e->first.compare(e->first.size() - 8, 8, ".initial")) e = b2.erase(e); else ++e;
    for (auto e = g2.begin(); e != g2.end();) if (e->first.size() > 8 && !e->first.compare(e->first.size() - 8, 8, ".initial") && !b2.count(e->first)) e = g2.erase(e); else ++e;   // the format makes the first function the initial one
    compare("as built", b2, g2, false); fsPut(0, "/work/again.gdtf", again); tell(got); }, &said2);
  auto l = maps(said2); if (l.size() != 1) internalError("reader said %zu", l.size());
  wellFormed("/work/again.gdtf", "the document stored again"); runProcess("second reader", [&] { elsewhere(); Map got; load("/work/again.gdtf", got, nullptr); compare("stored again", l[0], got, false); });
  sample("GDTF: " + std::to_string(m[0].size()) + " values");
}
void mvr() {
  Opt o; o.big = choose(C_CFG, 2); o.names = choose(C_CFG, 3) != 1; std::string said;
  runProcess("author", [&] { MvrDoc doc; VCOMPtr<IMediaRessourceVectorInterface> p(IID_MediaRessourceVectorInterface); if (p->OpenForWrite("/work/doc.mvr")) violation("open", "a new MVR document could not be opened"); buildMvr(p, doc, o); Map built; dumpMvr(p, built, false); compare("built", structure(doc.model), built, true);
    if (VCOMError e = p->Close()) violation("store", "the document could not be stored: %d", (int)e); tell(doc.model); tell(built); }, &said);
  auto m = maps(said); if (m.size() != 2) internalError("author said %zu", m.size()); nontrivial(); wellFormed("/work/doc.mvr", "the stored document"); opCount(m[0].size()); std::string said2;
  others(); runProcess("reader", [&] { elsewhere(); Before before; Map got; VCOMPtr<IMediaRessourceVectorInterface> p(IID_MediaRessourceVectorInterface); if (VCOMError e = p->OpenForRead("/work/doc.mvr")) violation("load", "the stored document could not be read: %d", (int)e); dumpMvr(p, got); compare("stored", m[0], got, true); compare("as built", structure(m[1]), structure(got), false);
    if (p->OpenForWrite("/work/again.mvr")) violation("open", "could not open for writing"); size_t n = 0; p->GetAttachedFileCount(n); for (size_t i = 0; i < n; i++) p->AddFileToMvrFile(std::string(p->GetAttachedFileCountAt(i)).c_str()); if (VCOMError e = p->Close()) violation("re-store", "the loaded document could not be stored: %d", (int)e); tell(got); }, &said2);
  auto l = maps(said2); if (l.size() != 1) internalError("reader said %zu", l.size());
  wellFormed("/work/again.mvr", "the document stored again"); runProcess("second reader", [&] { elsewhere(); Map got; VCOMPtr<IMediaRessourceVectorInterface> p(IID_MediaRessourceVectorInterface); if (VCOMError e = p->OpenForRead("/work/again.mvr")) violation("load", "the document stored again could not be read: %d", (int)e); dumpMvr(p, got); compare("stored again", l[0], got, false); });
  sample("MVR: " + std::to_string(m[0].size()) + " values");
}
void scenario() { xc::quietLog(); addHost("A", { "10.0.0.1" }); if (choose(C_CFG, 2)) mvr(); else gdtf(); }
static Reg r({ "C11", "round trip", scenario, 100000, 1000000, "runs until the time limit", "MVR and GDTF object model, XML writer and reader (tinyxml2), zip (miniz), files and folders", "file system, clock (simulated)", { "numbers to the six decimals of the format", "resources of one kind have different names" } });
}
