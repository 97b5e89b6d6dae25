// C16: a document in memory is the same document as in a file, through any history of the objects.
#include "dcase.h"
#include <string.h>
#include <stdlib.h>
using namespace dl;
namespace {
Map entries(const std::string& bytes, const char* what) { std::vector<Entry> es; std::string why; if (!unzip(bytes, es, &why)) violation("not-an-archive", "%s is not a complete archive: %s", what, why.c_str()); Map m; for (auto& e : es) { if (m.count(e.name)) violation("entry-twice", "%s has two entries %s", what, e.name.c_str()); m[e.name] = std::to_string(e.data.size()) + " bytes " + std::to_string(fnv(e.data.data(), e.data.size())); } return m; }
struct Obj {
  VCOMPtr<IGdtfFixture> g{ IID_IGdtfFixture }; enum St { EMPTY, READ, BUILT, BROKEN } st = EMPTY; size_t doc = 0; Map model, ents; bool knowEnts = false, knowBytes = false; std::string bytes, path; bool closed = false; };
VCOMError fromBuffer(IGdtfFixture* g, const std::string& b) { char* p = (char*)malloc(b.size() + !b.size()); memcpy(p, b.data(), b.size()); VCOMError e = g->FromBuffer(b.empty() && choose(C_OP, 2) ? nullptr : p, b.size()); memset(p, 0xdd, b.size()); free(p); return e; }
bool take(IGdtfFixture* g, std::string& out) { size_t n = 0; if (g->GetBufferLength(n) || !n) return false; char* p = (char*)malloc(n); memset(p, 0xee, n); VCOMError e = g->ToBuffer(p); out.assign(p, n); free(p); return !e; }
void scenario() {
  xc::quietLog(); addHost("A", { "10.0.0.1" }); u32 docs = 2; std::string how;
  for (u32 i = 0; i < docs; i++) runProcess("author", [&] { Map m; Opt o = someOpt(); o.src = "/src" + std::to_string(i); o.salt = i; if (VCOMError e = storeGdtf("/work/d" + std::to_string(i) + ".gdtf", o, m, choose(C_CFG, 2))) violation("store", "the document could not be stored: %d", (int)e); });
  // documents that are damaged: whatever reading the file says, reading the buffer says
  std::vector<std::string> files; for (u32 i = 0; i < docs; i++) files.push_back("/work/d" + std::to_string(i) + ".gdtf"); u32 bad = choose(C_CFG, 3); for (u32 i = 0; i < bad; i++) { std::string b = fsGet(0, files[choose(C_DATA, docs)]); switch (choose(C_DATA, 5)) { default: b.resize((size_t)range(C_DATA, 0, b.size() - 1)); break; case 1: for (u32 k = 1 + choose(C_DATA, 4); k--;) b[(size_t)range(C_DATA, 0, b.size() - 1)] ^= (char)(1 << choose(C_DATA, 8)); break; case 2: b = blob(5, 1 + choose(C_DATA, 2000), choose(C_DATA, 5)); break; case 3: { std::vector<Entry> es; unzip(b, es); if (!es.empty()) es.erase(es.begin() + choose(C_DATA, (u32)es.size())); b = zip(es); break; } case 4: { std::vector<Entry> es; unzip(b, es); for (auto& e : es) if (e.name == "description.xml") e.data = e.data.substr(0, (size_t)range(C_DATA, 0, e.data.size())); b = zip(es); break; } } files.push_back("/work/bad" + std::to_string(i) + ".gdtf"); fsPut(0, files.back(), b); }
  // what each of the files is, read by a process of its own
  std::vector<Map> full(files.size()), ents(files.size()); std::vector<bool> ok(files.size()), can(files.size());
  for (size_t i = 0; i < files.size(); i++) { std::string said; runProcess("reader", [&] { VCOMPtr<IGdtfFixture> g(IID_IGdtfFixture); VCOMError e = g->ReadFromFile(files[i].c_str()); Map m; dumpGdtf(g, m); say(e ? "E" : "S"); std::string b; bool c = toBuffer(g, b); say(c ? "S" : "E"); say(SEP); tell(m); tell(c ? entries(b, "the buffer of a document read from a file") : Map()); }, &said); auto l = maps(said.substr(2 + SEP.size())); if (l.size() != 2) internalError("reader said %zu", l.size()); ok[i] = said[0] == 'S'; can[i] = said[1] == 'S'; full[i] = l[0]; ents[i] = l[1]; }
  for (u32 i = 0; i < docs; i++) if (!ok[i] || !can[i]) violation("load", "a stored document could not be read");
  nontrivial(); u32 n = 4 + choose(C_OP, 16), nobj = 1 + choose(C_CFG, 3); opCount(n);
  runProcess("user", [&] {
    std::vector<std::unique_ptr<Obj>> objs; for (u32 i = 0; i < nobj; i++) objs.push_back(std::make_unique<Obj>()); u32 serial = 0;
    auto check = [&](Obj& o, const char* what) { Map m; if (o.st == Obj::EMPTY) { dumpGdtf(o.g, m); return; } dumpGdtf(o.g, m); if (o.st == Obj::READ) compare(what, full[o.doc], m, false); if (o.st == Obj::BUILT) compare(what, structure(o.model), structure(m), true); };
    auto sameBytes = [&](Obj& o, const char* when) { if (!o.knowBytes) return; std::string b; if (!take(o.g, b)) violation("buffer-lost", "%s: the buffer that was there cannot be handed out any more", when); if (b != o.bytes) violation("buffer-changed", "%s: the buffer handed out is another one than before (%zu and %zu bytes)", when, b.size(), o.bytes.size()); };
    for (u32 s = 0; s < n; s++) {
      Obj& o = *objs[choose(C_OP, nobj)]; u32 op = choose(C_OP, 12); how += " " + std::to_string(op);
      switch (op) {
        case 0: case 1: case 2: { size_t i = choose(C_OP, (u32)files.size()); std::string b = fsGet(0, files[i]); bool file = op == 0; VCOMError e = file ? o.g->ReadFromFile(files[i].c_str()) : fromBuffer(o.g, b); if (!e != ok[i]) violation(file ? "file-after-history" : "buffer-unlike-file", "%s reading %s: result %d, but reading the file in a fresh process %s", file ? "file" : "buffer", files[i].c_str(), (int)e, ok[i] ? "succeeds" : "fails"); o.st = Obj::READ; o.doc = i; o.model.clear(); o.knowEnts = can[i]; o.ents = ents[i]; o.closed = true; o.path.clear(); o.knowBytes = !e; o.bytes = b; if (!b.empty()) check(o, file ? "read from the file" : "read from the buffer"); else { o.st = Obj::BROKEN; o.knowEnts = false; } break; }
        case 3: { // too little to be a document
          std::string b; switch (choose(C_DATA, 4)) { case 0: break; case 1: b = std::string(1 + choose(C_DATA, 30), 'P'); break; case 2: b = "PK\x05\x06" + std::string(18, 0); break; default: b = blob(9, 1 + choose(C_DATA, 300), choose(C_DATA, 5)); } bool none = b.empty(); VCOMError e = fromBuffer(o.g, b); if (!e) violation("garbage-accepted", "%zu bytes of garbage were read as a document", b.size()); if (!none) { o.st = Obj::BROKEN; o.knowEnts = o.knowBytes = false; o.closed = true; } break; }
        case 4: case 5: { // export to a buffer
          if (o.st == Obj::EMPTY) { if (!o.g->RefreshBuffer()) violation("nothing-exported", "an object without a document was exported to a buffer"); break; } VCOMError e = o.g->RefreshBuffer(); if (o.st == Obj::BROKEN) { std::string b; take(o.g, b); o.knowBytes = false; break; } if (o.st == Obj::READ && !can[o.doc]) { o.knowBytes = false; break; } if (e) violation("export-failed", "the document could not be exported to a buffer: %d", (int)e); std::string b; if (!take(o.g, b)) violation("export-failed", "the exported buffer cannot be handed out"); Map m = entries(b, "the exported buffer"); if (o.knowEnts) compare("exported buffer", o.ents, m, false); o.ents = m; o.knowEnts = true; o.knowBytes = true; o.bytes = b;
          if (o.st == Obj::BUILT) { Obj q; if (VCOMError e2 = fromBuffer(q.g, b)) violation("reimport", "an exported buffer could not be read: %d", (int)e2); Map m2; dumpGdtf(q.g, m2); compare("exported and read again", o.model, m2, true); } break; }
        case 6: case 7: { // a new document
          Opt q; q.src = "/new" + std::to_string(s); q.salt = 20 + s; GdtfDoc d = planGdtf(q); o.path = op == 6 ? "/work/new" + std::to_string(serial++) + ".gdtf" : ""; if (o.path.empty() ? o.g->OpenForWrite(d.name.c_str(), "Acme", d.uuid) : o.g->OpenForWrite(o.path.c_str(), d.name.c_str(), "Acme", d.uuid)) violation("open", "a new document could not be opened"); buildGdtf(o.g, d, q); d.model["name"] = d.name; d.model["manufacturer"] = "Acme"; o.model = d.model; o.st = Obj::BUILT; o.knowEnts = false; o.knowBytes = false; o.closed = false; break; }
        case 8: { // store the file
          if (o.path.empty() || o.st != Obj::BUILT || o.closed) break; if (VCOMError e = o.g->Close()) violation("close", "the document could not be stored: %d", (int)e); o.closed = true; Map m = entries(fsGet(0, o.path), "the stored file"); if (o.knowEnts) compare("file and buffer", o.ents, m, false); o.ents = m; o.knowEnts = true; o.knowBytes = false; break; }
        case 9: { u32 k = 1 + choose(C_OP, 3); for (u32 i = 0; i < k; i++) sameBytes(o, "asked again"); break; }
        case 10: { bool keep = choose(C_OP, 2); if (keep) { std::string before = o.knowBytes ? o.bytes : ""; sameBytes(o, "before release"); } objs[0].swap(objs[choose(C_OP, nobj)]); objs[choose(C_OP, nobj)] = std::make_unique<Obj>(); break; }
        case 11: check(o, "asked again"); break; }
      for (auto& x : objs) if (choose(C_OP, 6) == 1) sameBytes(*x, "after working with another object"); } say(how); }, &how);
  sample(std::to_string(files.size()) + " files," + how); }
static Reg r({ "C16", "buffer and file", scenario, 100000, 1000000, "runs until the time limit", "GDTF import and export from and to memory and files, zip (miniz), XML reader and writer (tinyxml2)", "file system, clock (simulated)", { "the time stamps in an archive are not part of its content" } });
}
