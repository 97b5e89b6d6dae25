// C12: importing an archive that is missing, damaged or cannot be read properly is safe, and what it delivers is right.
#include "dcase.h"
#include <string.h>
using namespace dl;
namespace {
struct Harm { bool any = false, names = false, xml = false, xmlCut = false, missing = false; std::string what; };
void poke(std::string& b, size_t at, u32 v, int n) { for (int i = 0; i < n && at + i < b.size(); i++) b[at + i] = (char)(v >> (8 * i)); }
// damage to the bytes of the archive, as a disk or a transfer does it
void physical(std::string& b, Harm& h) {
  if (b.empty()) return; h.any = true; std::string was = b; std::vector<Entry> es; unzip(b, es); u32 rounds = 1 + (choose(C_FAULT, 4) == 1 ? choose(C_FAULT, 6) : 0);
  for (u32 r = 0; r < rounds && !b.empty(); r++) switch (choose(C_FAULT, 10)) {
    default: { size_t n = (size_t)range(C_FAULT, 0, b.size() - 1); b.resize(n); fault(F_FS_TRUNC); h.what += " cut to " + std::to_string(n); break; }
    case 1: case 2: { u32 k = 1 + choose(C_FAULT, 4); for (u32 i = 0; i < k; i++) { size_t at = (size_t)range(C_FAULT, 0, b.size() - 1); b[at] ^= (char)(1 << choose(C_FAULT, 8)); h.what += " bit at " + std::to_string(at); } fault(F_FS_BITFLIP); break; }
    case 3: case 4: { // one field of one header
      size_t e = b.size() < 22 ? 0 : b.size() - 22; static const u32 big[] = { 0, 1, 0xffff, 0x7fffffff, 0xffffffff, 0x80000000u, 100 }; u32 v = choose(C_FAULT, 2) ? big[choose(C_FAULT, 7)] : (u32)range(C_FAULT, 0, b.size() + 50); fault(F_FS_BITFLIP);
      if (es.empty() || choose(C_FAULT, 4) == 1) { static const int off[] = { 4, 6, 8, 10, 12, 16, 20 }, len[] = { 2, 2, 2, 2, 4, 4, 2 }; u32 f = choose(C_FAULT, 7); poke(b, e + off[f], v, len[f]); h.what += " end record +" + std::to_string(off[f]) + "=" + std::to_string(v); }
      else { auto& x = es[choose(C_FAULT, (u32)es.size())]; if (choose(C_FAULT, 2)) { static const int off[] = { 4, 6, 8, 14, 18, 22, 26, 28 }, len[] = { 2, 2, 2, 4, 4, 4, 2, 2 }; u32 f = choose(C_FAULT, 8); poke(b, x.local + off[f], v, len[f]); h.what += " " + x.name + " header +" + std::to_string(off[f]) + "=" + std::to_string(v); if (off[f] == 26) h.names = true; } else { static const int off[] = { 6, 8, 10, 16, 20, 24, 28, 30, 32, 38, 42 }, len[] = { 2, 2, 2, 4, 4, 4, 2, 2, 2, 4, 4 }; u32 f = choose(C_FAULT, 11); poke(b, x.central + off[f], v, len[f]); h.what += " " + x.name + " directory +" + std::to_string(off[f]) + "=" + std::to_string(v); if (off[f] == 28) h.names = true; } } break; }
    case 5: { size_t at = (size_t)range(C_FAULT, 0, b.size() - 1) & ~(size_t)511, n = 512 * (1 + choose(C_FAULT, 8)); u32 fill = choose(C_FAULT, 3); for (size_t i = at; i < b.size() && i < at + n; i++) b[i] = fill == 0 ? 0 : fill == 1 ? (char)0xff : (char)(i * 131); fault(F_FS_TORN); h.what += " sectors from " + std::to_string(at); break; }
    case 6: { size_t at = (size_t)range(C_FAULT, 0, b.size() - 1), n = (size_t)range(C_FAULT, 1, b.size() - at); b.erase(at, n); fault(F_FS_LOST_WRITE); h.what += " without " + std::to_string(at) + "+" + std::to_string(n); break; }
    case 7: { size_t at = (size_t)range(C_FAULT, 0, b.size() - 1), n = 1 + choose(C_FAULT, 700); b.insert(at, std::string(n, (char)choose(C_FAULT, 256))); fault(F_FS_TORN); h.what += " inserted at " + std::to_string(at); break; }
    case 8: { b += std::string(1 + choose(C_FAULT, 70000), (char)choose(C_FAULT, 3)); fault(F_FS_TORN); h.what += " longer"; break; }
    case 9: { b = blob(3, 1 + choose(C_FAULT, 3000), choose(C_FAULT, 5)); fault(F_GARBAGE_INPUT); h.what += " garbage"; es.clear(); break; } }
  // did it change a name somewhere?
  for (auto& x : es) { if (b.size() < was.size() || b.compare(x.local + 30, x.name.size(), x.name) || b.compare(x.central + 46, x.name.size(), x.name)) h.names = true; }
  if (b == was) h.any = false; }
// damage to the description that the archive does not notice
void description(std::string& b, Harm& h, bool mvr) {
  std::vector<Entry> es; if (!unzip(b, es)) internalError("the archive of the author"); Entry* x = nullptr; for (auto& e : es) if (e.name == (mvr ? "GeneralSceneDescription.xml" : "description.xml")) x = &e; if (!x) violation("no-description", "the archive has no description"); std::string& s = x->data; h.any = h.xml = true; fault(F_GARBAGE_INPUT);
  switch (choose(C_FAULT, 7)) {
    default: { size_t last = s.rfind('>'); s.resize((size_t)range(C_FAULT, 0, last == std::string::npos ? 0 : last - 1)); h.xmlCut = true; h.what += " description cut to " + std::to_string(s.size()); break; }
    case 1: { u32 k = 1 + choose(C_FAULT, 5); for (u32 i = 0; i < k && !s.empty(); i++) { size_t at = (size_t)range(C_FAULT, 0, s.size() - 1); s[at] = (char)choose(C_FAULT, 256); } h.what += " bytes of the description"; break; }
    case 2: case 3: { // other values in attributes and texts
      static const char* odd[] = { "", "-1", "0", "99999999999999999999", "1e400", "-1e308", "nan", "x", "4294967296", "1/0", "255/9", "16777216/1", "{1,2}", "{{1,0,0}{0,1,0}}", "{1,0,0}{0,1,0}{0,0,1}{0,0,0}", "0x", "0xFFFFFFFFFFFFFFFFFF", "1.2.3", "None", "&amp;&lt;", "\xff\xfe", "../../x", "A.B.C.D", "00000000-0000-0000-0000-000000000000", ",,,", "0.3,0.3", "1,2,3,4,5,6,7,8" };
      u32 k = 1 + choose(C_FAULT, 6); for (u32 i = 0; i < k; i++) { std::vector<std::pair<size_t, size_t>> v; size_t p = 0; while ((p = s.find("=\"", p)) != std::string::npos) { size_t e = s.find('"', p + 2); if (e == std::string::npos) break; v.push_back({ p + 2, e - p - 2 }); p = e + 1; } if (v.empty()) break; auto q = v[choose(C_FAULT, (u32)v.size())]; std::string nv = choose(C_FAULT, 3) ? odd[choose(C_FAULT, sizeof odd / sizeof *odd)] : s.substr(v[choose(C_FAULT, (u32)v.size())].first, 30); size_t cut = nv.find_first_of("\"<"); if (cut != std::string::npos) nv.resize(cut); s.replace(q.first, q.second, nv); } h.what += " values of the description"; break; }
    case 4: { // an element, or an attribute, is gone
      u32 k = 1 + choose(C_FAULT, 3); for (u32 i = 0; i < k; i++) { std::vector<std::pair<size_t, size_t>> v; bool attr = choose(C_FAULT, 2); size_t p = 0; if (attr) { while ((p = s.find("=\"", p)) != std::string::npos) { size_t a = s.rfind(' ', p), e = s.find('"', p + 2); if (a == std::string::npos || e == std::string::npos) break; v.push_back({ a, e + 1 - a }); p = e + 1; } } else { while ((p = s.find("/>", p)) != std::string::npos) { size_t a = s.rfind('<', p); v.push_back({ a, p + 2 - a }); p += 2; } } if (v.empty()) break; auto q = v[choose(C_FAULT, (u32)v.size())]; s.erase(q.first, q.second); } h.what += " parts of the description"; break; }
    case 5: { // elements twice, or somewhere else
      std::vector<std::pair<size_t, size_t>> v; size_t p = 0; while ((p = s.find("/>", p)) != std::string::npos) { size_t a = s.rfind('<', p); v.push_back({ a, p + 2 - a }); p += 2; } if (v.empty()) break; u32 k = 1 + choose(C_FAULT, 3); for (u32 i = 0; i < k; i++) { auto q = v[choose(C_FAULT, (u32)v.size())]; auto w = v[choose(C_FAULT, (u32)v.size())]; std::string t = s.substr(q.first, q.second); s.insert(w.first, t); p = 0; v.clear(); while ((p = s.find("/>", p)) != std::string::npos) { size_t a = s.rfind('<', p); v.push_back({ a, p + 2 - a }); p += 2; } } h.what += " elements of the description"; break; }
    case 6: { // other element names
      std::vector<std::pair<size_t, size_t>> v; size_t p = 0; while ((p = s.find("<", p)) != std::string::npos) { size_t e = s.find_first_of(" />", p + 1); if (e == std::string::npos) break; if (e > p + 1 && s[p + 1] != '/' && s[p + 1] != '?') v.push_back({ p + 1, e - p - 1 }); p = e; } if (v.size() < 2) break; auto q = v[choose(C_FAULT, (u32)v.size())], w = v[choose(C_FAULT, (u32)v.size())]; std::string from = s.substr(q.first, q.second), to = s.substr(w.first, w.second); if (choose(C_FAULT, 2)) { for (size_t at = 0; (at = s.find(from, at)) != std::string::npos; at += to.size()) s.replace(at, from.size(), to); } else { size_t close = s.find("</" + from + ">", q.first), self = s.find("/>", q.first), gt = s.find(">", q.first); if (self + 1 == gt) s.replace(q.first, q.second, to); else if (close != std::string::npos) { s.replace(close + 2, from.size(), to); s.replace(q.first, q.second, to); } } h.what += " " + from + " is " + to; break; } }
  b = zip(es); }
// damage to the compressed data of an entry, in an archive that is consistent otherwise
void stream(std::string& b, Harm& h) {
  std::vector<Entry> es; if (!unzip(b, es)) internalError("the archive of the author"); if (es.empty()) return; u32 k = 1 + (choose(C_FAULT, 3) == 1 ? choose(C_FAULT, 3) : 0); h.any = true;
  while (k--) { Entry& x = es[choose(C_FAULT, (u32)es.size())]; std::string was = x.raw; fault(F_GARBAGE_INPUT); h.what += " data of " + x.name;
    switch (choose(C_FAULT, 9)) {
      default: x.raw.resize((size_t)range(C_FAULT, 0, x.raw.empty() ? 0 : x.raw.size() - 1)); h.what += " cut"; break;
      case 1: x.raw += blob(8, 1 + choose(C_FAULT, 400), choose(C_FAULT, 5)); h.what += " longer"; break;
      case 2: x.data.resize((size_t)range(C_FAULT, 0, 2 * x.data.size() + 5)); h.what += " claims a wrong size"; break;
      case 3: x.raw.clear(); h.what += " missing"; break;
      case 4: x.method = x.method ? 0 : 8; h.what += " other method"; break;
      case 5: for (u32 i = 1 + choose(C_FAULT, 4); i-- && !x.raw.empty();) x.raw[(size_t)range(C_FAULT, 0, x.raw.size() - 1)] ^= (char)(1 << choose(C_FAULT, 8)); h.what += " bits"; break;
      case 6: x.crc ^= 1u << choose(C_FAULT, 32); h.what += " checksum"; break;
      case 7: { size_t n = 1 + choose(C_FAULT, 300); x.raw = blob(9, n, 0); u32 type = choose(C_FAULT, 4); x.raw[0] = (char)((x.raw[0] & ~7) | type << 1 | choose(C_FAULT, 2)); x.method = 8; h.what += " nonsense"; break; }
      case 8: { static const char e[] = { 0, 0, 0, (char)0xff, (char)0xff }; x.raw.clear(); for (u32 i = choose(C_FAULT, 200); i--;) x.raw.append(e, 5); x.method = 8; h.what += " empty blocks"; break; } } }
  std::string was = b; b = zipRaw(es); }
void weather(const std::string& path) {
  fs = FsCfg(); switch (choose(C_CFG, 6)) {
    case 0: break;
    case 1: case 2: fs.failIn = 1 + choose(C_FAULT, choose(C_FAULT, 2) ? 12 : 150); fs.sticky = choose(C_FAULT, 2); if (choose(C_FAULT, 3) == 1) fs.only = path; break;
    case 3: { double p = choose(C_FAULT, 2) ? 0.02 : 0.2; switch (choose(C_FAULT, 7)) { case 0: fs.writeP = p; break; case 6: fs.homeP = 0.5; break; case 1: fs.openP = p; break; case 2: fs.closeP = p; break; case 3: fs.readP = p; break; case 4: fs.mkdirP = p; break; default: fs.writeP = fs.openP = fs.closeP = fs.readP = fs.seekP = p / 3; } break; }
    case 4: fs.capacity = (i64)range(C_FAULT, 0, choose(C_FAULT, 2) ? 40000 : 800); break;
    case 5: fs.readChunk = 1 + choose(C_FAULT, 3000); break; } }
void scenario() {
  xc::quietLog(); addHost("A", { "10.0.0.1" }); bool mvr = choose(C_CFG, 2); Opt o = someOpt(); std::string path = std::string("/work/doc") + ext(mvr), said; u32 kind = choose(C_CFG, 10);
  runProcess("author", [&] { Map m; if (VCOMError e = store(mvr, path, o, m)) violation("store", "the document could not be stored: %d", (int)e); });
  runProcess("reader", [&] { Map full; bool xe; if (VCOMError e = load(mvr, path, full, &xe)) violation("load", "the stored document could not be read: %d", (int)e); tell(full); }, &said);
  auto l = maps(said); if (l.size() != 1) internalError("reader said %zu", l.size()); Map full = l[0]; nontrivial(); opCount(full.size());
  std::string bytes = fsGet(0, path); Harm h; bool bad = false; fsPut(0, "/work/good" + std::string(ext(mvr)), bytes);
  if (kind == 1 || kind == 2 || kind == 3) physical(bytes, h); if (kind == 4 || kind == 5) description(bytes, h, mvr); if (kind >= 8) { stream(bytes, h); } if (kind == 6) { fsRemoveTree(0, path); h.any = h.missing = true; if (choose(C_FAULT, 2)) fsMkdirs(0, path); } else fsPut(0, path, bytes);
  bool disturb = kind == 0 || kind == 7 || choose(C_CFG, 5) == 1, buffer = !mvr && !disturb && !h.missing && choose(C_CFG, 3) == 1; logev("harm%s", h.what.c_str());
  runProcess("importer", [&] { u64 f0 = fsFailed(); if (disturb) weather(path); Map got; bool xe = false; auto done = [&] { bad = fsFailed() != f0; fs = FsCfg(); }; bool again = choose(C_OP, 3) == 1; VCOMError e = mvr ? loadMvr(path, got, done, again) : loadGdtf(path, got, buffer, &xe, done, again);
    if (e) { if (!h.any && !bad) violation("spurious-failure", "importing an intact archive failed with %d", (int)e); probe("import reported failure"); }
    else if (h.missing) violation("missing-reported-read", "a file that is not there was imported");
    else if (h.xml) { if (h.xmlCut && !xe) violation("silently-partial", "a description that ends in the middle was imported without an error (%s)", h.what.c_str()); }
    else if (!h.names) { if (h.any) probe("damage without a consequence"); if (bad && contents(full).empty()) for (auto& v : got) { const std::string& k = v.first; bool file = k.size() > 5 && !k.compare(k.size() - 5, 5, ".file") && v.second.empty(), cont = k.size() > 13 && !k.compare(k.size() - 13, 13, ".file.content") && v.second == "none"; if (file || (cont && full[k] == "missing")) v.second = full[k]; }   // a path in a working folder that could not be created, and nothing was to be put there
 std::string k, d = diff(full, got, false, &k); if (!d.empty()) violation("silently-wrong:" + k, "the import reported success (%s): %s", h.what.c_str(), d.c_str()); }
    else { std::string k, d = diff(structure(full), structure(got), false, &k); if (!d.empty()) violation("silently-wrong:" + k, "the import reported success (%s): %s", h.what.c_str(), d.c_str()); std::set<std::string> vals; for (auto& v : contents(full)) vals.insert(v.second); for (auto& v : contents(got)) if (!vals.count(v.second)) violation("silently-wrong:" + keyClass(v.first), "the import reported success and %s is %s (%s)", v.first.c_str(), v.second.c_str(), h.what.c_str()); }
    Map next; if (VCOMError e2 = load(mvr, "/work/good" + std::string(ext(mvr)), next)) violation("next-import", "importing an intact archive afterwards failed with %d", (int)e2); compare("next import", full, next, false); });
  sample(std::string(mvr ? "MVR" : "GDTF") + h.what + (disturb ? " with faults" : "")); }
static Reg r({ "C12", "damaged import", scenario, 100000, 1000000, "runs until the time limit", "MVR and GDTF import, XML reader (tinyxml2), zip (miniz), files and folders", "file system, clock (simulated)", { "the checksum of an entry is not hit by accident" } });
}
