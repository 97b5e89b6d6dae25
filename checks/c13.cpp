// C13: whatever an archive is named or contains, the library only touches its own working folders and the export target.
#include "dcase.h"
#include <set>
#include <string.h>
using namespace dl;
namespace {
std::string flat(const std::string& base, const std::string& name) {   // the path a name leads to when nobody checks it
  std::vector<std::string> parts; std::string all = (!name.empty() && name[0] == '/' ? "" : base + "/") + name, cur; for (auto& c : all) if (c == '\\') c = '/'; all += '/';
  for (char c : all) { if (c != '/') { cur += c; continue; } if (cur == "..") { if (!parts.empty()) parts.pop_back(); } else if (!cur.empty() && cur != ".") parts.push_back(cur); cur.clear(); } std::string r; for (auto& p : parts) r += "/" + p; return r.empty() ? "/" : r; }
std::string evilName() {
  static const char* pre[] = { "../", "../../", "../../../../../../", "/", "./", "", "..\\", "..\\..\\", "wheels/../../", "models/gltf/../../../", "a/../../", "....//", "C:\\", "C:/", "\\\\host\\share\\", "../MVR_Export/", "../GdtfGroup/", "../MVR_Export_1/", "../Other/", "../../GDTFs/GdtfGroup/", "../../MVR_Export/", "wheels/", "wheels\\..\\..\\", "/home/user/", "/etc/", "wheels//", "/home/user/GDTFs/", "a/b/../../../", "models/3ds/./../../../" };
  static const char* post[] = { "evil", "keep.txt", "thumb.png", "..", ".", "", "passwd", "x/y/z", "x/../../y", "\xff\xfe", "%2e%2e/evil", "description.xml", "GeneralSceneDescription.xml", " ", "evil ", "-rf", "*", "GdtfGroup", "MVR_Export", "Other/keep.txt", "evil\n", "con", "~", "$HOME", "a:b" };
  std::string n = pre[choose(C_DATA, sizeof pre / sizeof *pre)]; if (choose(C_DATA, 4) == 1) n += pre[choose(C_DATA, sizeof pre / sizeof *pre)]; u32 k = choose(C_DATA, 14); n += k == 1 ? std::string(1 + choose(C_DATA, 400), 'x') : k == 2 ? std::string("nul\0x", 5) : k == 3 ? std::string(choose(C_DATA, 5000), '/') + "e" : k == 4 ? [] { std::string s; for (u32 i = choose(C_DATA, 60); i--;) s += "d/"; return s + "e"; }() : std::string(post[choose(C_DATA, sizeof post / sizeof *post)]); return n; }
void replaceAll(std::string& s, const std::string& a, const std::string& b) { if (a.empty()) return; for (size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b); }
std::string escape(const std::string& s) { std::string r; for (char c : s) { if (c == '&') r += "&amp;"; else if (c == '<') r += "&lt;"; else if (c == '"') r += "&quot;"; else if ((u8)c < 32) r += '_'; else r += c; } return r; }
std::vector<std::string> names;      // every evil name used
std::string evil(const std::string& bytes, bool mvr, int depth = 0) {
  std::vector<Entry> es; if (!unzip(bytes, es)) internalError("the archive of the author"); const char* desc = mvr ? "GeneralSceneDescription.xml" : "description.xml"; auto text = [&]() -> std::string* { for (auto& e : es) if (e.name == desc) return &e.data; return nullptr; };
  u32 n = 1 + choose(C_DATA, 5); for (u32 i = 0; i < n; i++) {
    std::string nm = evilName(); names.push_back(nm); switch (choose(C_DATA, 5)) {
      default: { Entry x; x.name = nm; x.data = "evil " + std::to_string(i); es.insert(es.begin() + choose(C_DATA, (u32)es.size() + 1), x); break; }
      case 1: case 2: { if (es.empty()) break; auto& e = es[choose(C_DATA, (u32)es.size())]; if (e.name == desc) break; std::string old = e.name, base = old.substr(old.rfind('/') == std::string::npos ? 0 : old.rfind('/') + 1), stem = base.substr(0, base.rfind('.')), suf = base.substr(stem.size()); bool keep = choose(C_DATA, 2); std::string now = keep ? nm + suf : nm; e.name = now; names.push_back(now); if (auto* t = text()) { replaceAll(*t, "\"" + escape(base) + "\"", "\"" + escape(now) + "\""); replaceAll(*t, "\"" + escape(stem) + "\"", "\"" + escape(nm) + "\""); replaceAll(*t, ">" + escape(base) + "<", ">" + escape(now) + "<"); } break; }
      case 3: { if (auto* t = text()) { static const char* at[] = { "fileName=\"", "MediaFileName=\"", "File=\"", "Thumbnail=\"", "GDTFSpec>", "Name=\"", "name=\"", "Source=\"", "FixtureTypeID=\"", "Manufacturer=\"" }; std::string a = at[choose(C_DATA, sizeof at / sizeof *at)]; std::vector<size_t> w; for (size_t p = 0; (p = t->find(a, p)) != std::string::npos; p++) w.push_back(p + a.size()); if (w.empty()) break; size_t b = w[choose(C_DATA, (u32)w.size())], e = t->find_first_of("\"<", b); if (e != std::string::npos) t->replace(b, e - b, escape(nm)); } break; }
      case 4: if (mvr && depth == 0) { std::vector<Entry*> g; for (auto& e : es) if (e.name.size() > 5 && !e.name.compare(e.name.size() - 5, 5, ".gdtf")) g.push_back(&e); if (!g.empty()) { auto* e = g[choose(C_DATA, (u32)g.size())]; e->data = evil(e->data, false, 1); } } break; } }
  return zip(es); }
bool numbered(const std::string& s, const char* base) { size_t n = strlen(base); if (s.compare(0, n, base)) return false; if (s.size() == n) return true; if (s[n] != '_' || s.size() == n + 1) return false; for (size_t i = n + 1; i < s.size(); i++) if (s[i] < '0' || s[i] > '9') return false; return true; }
struct Watch {       // what may be touched
  std::map<std::string, std::string> before; std::set<std::string> own; std::string target;
  bool occupied(const std::string& dir) { auto i = before.upper_bound(dir + "/"); return i != before.end() && !i->first.compare(0, dir.size() + 1, dir + "/"); }
  void see(const char* op, const std::string& p) {
    if (!target.empty() && p == target) return; std::string home = "/home/user", rest = p.compare(0, home.size() + 1, home + "/") ? "" : p.substr(home.size() + 1); size_t s = rest.find('/'); std::string top = rest.substr(0, s), dir; bool mk = !strcmp(op, "mkdir"); if ((p == home || p == home + "/GDTFs") && mk) return;
    if (numbered(top, "MVR_Export")) dir = home + "/" + top; else if (top == "GDTFs" && s != std::string::npos) { std::string r = rest.substr(s + 1); dir = home + "/GDTFs/" + r.substr(0, r.find('/')); }
    if (dir.empty()) violation("outside", "%s of %s, which is not in a working folder", op, p.c_str()); if (occupied(dir)) violation("outside", "%s of %s: the folder %s was there before, with other files in it", op, p.c_str(), dir.c_str());
    if (p == dir) { if (mk) own.insert(dir); else if (strcmp(op, "remove") && strcmp(op, "rmdir") && !own.count(dir)) violation("outside", "%s of %s, which is not a working folder but a file beside them", op, p.c_str()); return; }
    if (!own.count(dir)) violation("outside", "%s of %s: the folder %s is not one the library created", op, p.c_str(), dir.c_str()); }
  void end(const char* when) { auto after = fsSnapshot(0); for (auto& e : before) { auto i = after.find(e.first); if (e.second == "<dir>" && i == after.end() && (e.first.find("/home/user/MVR_Export") == 0 || e.first.find("/home/user/GDTFs/") == 0)) continue; if (i == after.end()) violation("removed", "%s: %s is gone", when, e.first.c_str()); if (i->second != e.second) violation("changed", "%s: %s was changed", when, e.first.c_str()); } }
};
void scenario() {
  xc::quietLog(); addHost("A", { "10.0.0.1" }); bool mvr = choose(C_CFG, 2); Opt o = someOpt(); o.big = false; std::string path = std::string("/work/doc") + ext(mvr); names.clear();
  runProcess("author", [&] { Map m; if (VCOMError e = store(mvr, path, o, m)) violation("store", "the document could not be stored: %d", (int)e); }); nontrivial();
  std::string first = choose(C_CFG, 2) ? "/work/first.gdtf" : "/work/first.mvr"; bool pair = choose(C_CFG, 2); if (pair) runProcess("first author", [&] { Map m; Opt q; q.src = "/first"; q.salt = 3; if (VCOMError e = store(first == "/work/first.mvr", first, q, m)) violation("store", "the document could not be stored: %d", (int)e); });
  std::string bytes = evil(fsGet(0, path), mvr); if (choose(C_CFG, 6) == 1) { // only names, no description
    std::vector<Entry> es; unzip(bytes, es); for (auto e = es.begin(); e != es.end();) if (e->name == "description.xml" || e->name == "GeneralSceneDescription.xml") e = es.erase(e); else ++e; bytes = zip(es); }
  fsPut(0, path, bytes); std::string all; for (auto& n : names) all += " [" + n.substr(0, 60) + "]"; opCount(names.size());
  // what others have on this machine
  fsPut(0, "/home/user/keep.txt", "mine"); fsPut(0, "/etc/passwd", "mine"); if (choose(C_CFG, 2)) fsPut(0, "/home/user/GDTFs/Other/keep.txt", "mine"); if (choose(C_CFG, 3) == 1) fsPut(0, "/home/user/GDTFs/GdtfGroup/keep.txt", "mine"); if (choose(C_CFG, 3) == 1) fsPut(0, "/home/user/MVR_Export/keep.txt", "mine"); if (choose(C_CFG, 5) == 1) fsMkdirs(0, "/home/user/MVR_Export_1"); if (choose(C_CFG, 5) == 1) fsPut(0, "/home/user/MVR_Export_1", "a file with this name"); if (choose(C_CFG, 5) == 1) fsPut(0, "/home/user/GDTFs/GdtfGroup_1/wheels/keep.txt", "mine");
  static const char* bases[] = { "/home/user/MVR_Export", "/home/user/MVR_Export_1", "/home/user/GDTFs/GdtfGroup", "/home/user/GDTFs/Acme@Type0", "/home/user/GDTFs/GdtfGroup/wheels", "/work", "/" };
  if (choose(C_CFG, 4)) for (auto& n : names) for (auto b : bases) { std::string v = flat(b, n); if (v.size() > 200 || v.find('\0') != std::string::npos || v == "/" || v.compare(0, 6, "/work/") == 0 || fsExists(0, v) || fsIsDir(0, v)) continue; bool okp = true; for (size_t s = v.find('/', 1); s != std::string::npos; s = v.find('/', s + 1)) { std::string d = v.substr(0, s); if (fsExists(0, d) && !fsIsDir(0, d)) okp = false; } bool inside = v.find("/home/user/GDTFs/") == 0 || v.find("/home/user/MVR_Export") == 0; if (!okp || v == "/home" || v == "/home/user" || v == "/home/user/GDTFs" || v == "/work" || (inside && choose(C_CFG, 6) != 1)) continue; fsPut(0, v, "mine: " + v); }
  if (choose(C_CFG, 5) == 1) { fs.failIn = 1 + choose(C_FAULT, 60); fs.sticky = choose(C_FAULT, 2); }
  bool abuse = choose(C_CFG, 4) == 1; FsCfg f = fs; fs = FsCfg();
  runProcess("importer", [&] {
    Watch w; w.before = fsSnapshot(0); onFsMutate([&](int, const char* op, const std::string& p) { w.see(op, p); });
    { VCOMPtr<IGdtfFixture> g(IID_IGdtfFixture); VCOMPtr<IMediaRessourceVectorInterface> p(IID_MediaRessourceVectorInterface); Map was, is; VCOMPtr<IGdtfFixture> g1(IID_IGdtfFixture); VCOMPtr<IMediaRessourceVectorInterface> p1(IID_MediaRessourceVectorInterface); bool firstMvr = first == "/work/first.mvr"; auto look = [&](Map& m) { if (firstMvr) dumpMvr(p1, m); else dumpGdtf(g1, m); };
      if (pair) { if (firstMvr ? p1->OpenForRead(first.c_str()) : g1->ReadFromFile(first.c_str())) probe("no working folder for the other document"); look(was); }
      fs = f; u32 rounds = mvr ? 1 : 1 + choose(C_OP, 2); for (u32 i = 0; i < rounds; i++) { Map got; VCOMError e; if (mvr) e = p->OpenForRead(path.c_str()); else if (choose(C_OP, 3) == 1) { std::string b = fsGet(0, path); e = g->FromBuffer(b.data(), b.size()); } else e = g->ReadFromFile(path.c_str()); probe(e ? "refused" : "imported"); if (mvr) dumpMvr(p, got); else dumpGdtf(g, got); }
      if (abuse) { w.target = std::string("/work/out") + ext(mvr); if (mvr) { if (!p->OpenForWrite(w.target.c_str())) { size_t n = 0; p->GetAttachedFileCount(n); for (size_t i = 0; i < n; i++) p->AddFileToMvrFile(std::string(p->GetAttachedFileCountAt(i)).c_str()); p->Close(); } } else { std::string b; toBuffer(g, b); } }
      fs = FsCfg(); if (pair) { look(is); compare("other document", was, is, false); } }
    w.end("after releasing the document"); onFsMutate(nullptr); });
  sample(std::string(mvr ? "MVR" : "GDTF") + all.substr(0, 200)); }
static Reg r({ "C13", "containment", scenario, 100000, 1000000, "runs until the time limit", "MVR and GDTF import and export, zip (miniz), files and folders", "file system, clock (simulated)", { "no symbolic links below the working folders", "one process at a time uses the home folder" } });
}
