#include "dcase.h"
#include <string.h>
namespace dl {
void tell(const Map& m) { say(text(m)); say(SEP); }
std::vector<Map> maps(const std::string& s) { std::vector<Map> r; size_t p = 0; while (true) { size_t e = s.find(SEP, p); if (e == std::string::npos) break; r.push_back(parse(s.substr(p, e - p))); p = e + SEP.size(); } return r; }
static bool fileKey(const std::string& k, const std::string& v) { return v.find(" bytes ") != std::string::npos || v == "none" || v == "missing" || k.find("gdtf.") != std::string::npos || k.find("gdtf<") == 0 || k.find("attached<") == 0 || k.find("image<") == 0; }
Map structure(const Map& m) { Map r; for (auto& e : m) if (!fileKey(e.first, e.second)) r.insert(e); return r; }
Map contents(const Map& m) { Map r; for (auto& e : m) if (fileKey(e.first, e.second) && e.second.find(" bytes ") != std::string::npos) r.insert(e); return r; }
void compare(const char* what, const Map& want, const Map& got, bool subset) { std::string k, d = diff(want, got, subset, &k); if (!d.empty()) violation((std::string(what) + ":" + k).c_str(), "%s: %s", what, d.c_str()); }
Opt someOpt() { Opt o; o.big = choose(C_CFG, 2); o.names = choose(C_CFG, 3) != 1; return o; }
void elsewhere() {
  if (choose(C_CFG, 3) == 1) fs.readChunk = 1 + choose(C_CFG, 5000); if (choose(C_CFG, 4) == 1) jumpWall(here(), (i64)range(C_CFG, 0, 4000000000ull) * 1000000000ll - 1000000000000000000ll); if (choose(C_CFG, 4) == 1) { fsMkdirs(here(), "/elsewhere"); fsCwd(here(), "/elsewhere"); }
  switch (choose(C_CFG, 5)) { case 1: fsMkdirs(here(), "/home/other"); fsHome(here(), "/home/other"); break; case 2: fsPut(here(), "/home/user/GDTFs/GdtfGroup/keep.txt", "left here"); fsPut(here(), "/home/user/MVR_Export/keep.txt", "left here"); break; case 3: fsPut(here(), "/home/user/GDTFs/Acme@Type0/wheels", "a file"); break; default: break; } }
const char* ext(bool mvr) { return mvr ? ".mvr" : ".gdtf"; }
VCOMError storeGdtf(const std::string& path, const Opt& o, Map& model, bool viaBuffer, Map* built) {
  GdtfDoc doc = planGdtf(o); VCOMPtr<IGdtfFixture> g(IID_IGdtfFixture); if (VCOMError e = viaBuffer ? g->OpenForWrite(doc.name.c_str(), "Acme", doc.uuid) : g->OpenForWrite(path.c_str(), doc.name.c_str(), "Acme", doc.uuid)) return e;
  buildGdtf(g, doc, o); doc.model["name"] = doc.name; doc.model["manufacturer"] = "Acme"; model = doc.model; if (built) dumpGdtf(g, *built, false);
  if (viaBuffer) { std::string b; if (!toBuffer(g, b)) return kVCOMError_Failed; fsPut(0, path, b); return kVCOMError_NoError; }
  return g->Close(); }
VCOMError storeMvr(const std::string& path, const Opt& o, Map& model, Map* built) {
  MvrDoc doc; VCOMPtr<IMediaRessourceVectorInterface> p(IID_MediaRessourceVectorInterface); if (VCOMError e = p->OpenForWrite(path.c_str())) return e; buildMvr(p, doc, o); model = doc.model; if (built) dumpMvr(p, *built, false); return p->Close(); }
VCOMError store(bool mvr, const std::string& path, const Opt& o, Map& model, bool viaBuffer) { return mvr ? storeMvr(path, o, model) : storeGdtf(path, o, model, viaBuffer); }
VCOMError loadGdtf(const std::string& path, Map& out, bool fromBuffer, bool* xmlError, const std::function<void()>& loaded, bool store) {
  VCOMPtr<IGdtfFixture> g(IID_IGdtfFixture); VCOMError e; if (fromBuffer) { std::string b = fsGet(0, path); std::vector<char> tmp(b.begin(), b.end()); e = g->FromBuffer(tmp.data(), tmp.size()); if (!tmp.empty()) memset(tmp.data(), 0x5a, tmp.size()); } else e = g->ReadFromFile(path.c_str());
  if (loaded) loaded(); if (xmlError) { *xmlError = false; size_t n = 0; g->GetParsingErrorCount(n); for (size_t i = 0; i < n; i++) { VCOMPtr<IGdtfXmlParsingError> pe; g->GetParsingErrorAt(i, &pe); GD::EGdtfParsingError t{}; if (pe && !pe->GetErrorType(t) && t == GD::EGdtfParsingError::eXmlParsingError) *xmlError = true; } }
  dumpGdtf(g, out); if (store) { std::string b; toBuffer(g, b); } return e; }
VCOMError loadMvr(const std::string& path, Map& out, const std::function<void()>& loaded, bool store) { VCOMPtr<IMediaRessourceVectorInterface> p(IID_MediaRessourceVectorInterface); VCOMError e = p->OpenForRead(path.c_str()); if (loaded) loaded(); dumpMvr(p, out); if (store && !p->OpenForWrite("/work/stored.mvr")) { size_t n = 0; p->GetAttachedFileCount(n); for (size_t i = 0; i < n; i++) p->AddFileToMvrFile(std::string(p->GetAttachedFileCountAt(i)).c_str()); p->Close(); } return e; }
VCOMError load(bool mvr, const std::string& path, Map& out, bool* xmlError, const std::function<void()>& loaded) { if (xmlError) *xmlError = false; return mvr ? loadMvr(path, out, loaded) : loadGdtf(path, out, false, xmlError, loaded); }
// ------------------------------------------------------------------ archives
static u32 rd(const std::string& b, size_t p, int n) { u32 v = 0; for (int i = 0; i < n && p + i < b.size(); i++) v |= (u32)(u8)b[p + i] << (8 * i); return v; }
static void wr(std::string& b, u32 v, int n) { for (int i = 0; i < n; i++) b += (char)(v >> (8 * i)); }
static u32 crc32(const std::string& s) { u32 c = ~0u; for (u8 x : s) { c ^= x; for (int i = 0; i < 8; i++) c = (c >> 1) ^ (0xEDB88320u & (0 - (c & 1))); } return ~c; }
// a small inflate of the harness' own, so that the library does not vouch for itself
namespace {
struct Inf {
  const u8* p; size_t n, at; int bit; std::string out; bool bad;
  struct H { u32 cnt[16]; u32 sym[320]; };
  u32 get(int k) { u32 v = 0; for (int i = 0; i < k; i++) { if (at >= n) { bad = true; return 0; } v |= (u32)(p[at] >> bit & 1) << i; if (++bit == 8) { bit = 0; at++; } } return v; }
  void make(H& h, const u8* len, int m) { memset(&h, 0, sizeof h); for (int i = 0; i < m; i++) h.cnt[len[i]]++; h.cnt[0] = 0; u32 off[17] = {}; for (int i = 1; i < 16; i++) off[i + 1] = off[i] + h.cnt[i]; for (int i = 0; i < m; i++) if (len[i]) h.sym[off[len[i]]++] = i; }
  int sym(const H& h) { int code = 0, first = 0, index = 0; for (int l = 1; l < 16; l++) { code |= (int)get(1); if (bad) return -1; int c = (int)h.cnt[l]; if (code - c < first) return (int)h.sym[index + (code - first)]; index += c; first += c; first <<= 1; code <<= 1; } bad = true; return -1; }
  void codes(const H& a, const H& b) {
    static const u32 lb[] = { 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258 }, le[] = { 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0 }, db[] = { 1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577 }, de[] = { 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13 };
    while (!bad) { int s = sym(a); if (bad || s == 256) return; if (s < 256) { out += (char)s; continue; } s -= 257; if (s > 28) { bad = true; return; } u32 len = lb[s] + get((int)le[s]); int d = sym(b); if (bad || d > 29) { bad = true; return; } size_t dist = db[d] + get((int)de[d]); if (dist > out.size() || out.size() > (64u << 20)) { bad = true; return; } for (u32 i = 0; i < len; i++) out += out[out.size() - dist]; } }
  void run() { u32 last = 0; do { last = get(1); u32 type = get(2); if (bad) return;
      if (type == 0) { if (bit) { bit = 0; at++; } if (at + 4 > n) { bad = true; return; } u32 len = p[at] | p[at + 1] << 8; at += 4; if (at + len > n) { bad = true; return; } out.append((const char*)p + at, len); at += len; }
      else if (type == 1) { u8 l[320]; int i = 0; for (; i < 144; i++) l[i] = 8; for (; i < 256; i++) l[i] = 9; for (; i < 280; i++) l[i] = 7; for (; i < 288; i++) l[i] = 8; H a, b; make(a, l, 288); for (i = 0; i < 30; i++) l[i] = 5; make(b, l, 30); codes(a, b); }
      else if (type == 2) { static const u8 ord[] = { 16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15 }; u32 nl = get(5) + 257, nd = get(5) + 1, nc = get(4) + 4; u8 l[320] = {}; for (u32 i = 0; i < nc; i++) l[ord[i]] = (u8)get(3); H c; make(c, l, 19); u8 q[340] = {}; u32 i = 0; while (i < nl + nd && !bad) { int s = sym(c); if (bad) return; if (s < 16) { q[i++] = (u8)s; continue; } u8 v = 0; u32 r = 0; if (s == 16) { if (!i) { bad = true; return; } v = q[i - 1]; r = 3 + get(2); } else if (s == 17) r = 3 + get(3); else r = 11 + get(7); if (i + r > nl + nd) { bad = true; return; } while (r--) q[i++] = v; } H a, b; make(a, q, (int)nl); make(b, q + nl, (int)nd); codes(a, b); }
      else bad = true; } while (!last && !bad); }
};
}
bool unzip(const std::string& b, std::vector<Entry>& out, std::string* why) {
  auto no = [&](const std::string& w) { if (why) *why = w; return false; }; out.clear(); if (b.size() < 22) return no("it has " + std::to_string(b.size()) + " bytes");
  size_t e = b.size() - 22; if (b.compare(e, 4, "PK\x05\x06")) return no("it does not end with an end record"); u32 cnt = rd(b, e + 10, 2), clen = rd(b, e + 12, 4), cat = rd(b, e + 16, 4); if ((size_t)cat + clen != e) return no("the directory is not in front of the end record");
  size_t c = cat; size_t want = 0; for (u32 i = 0; i < cnt; i++) { if (c + 46 > e || b.compare(c, 4, "PK\x01\x02")) return no("directory entry " + std::to_string(i) + " is damaged"); Entry x; x.central = (u32)c; x.method = rd(b, c + 10, 2); x.crc = rd(b, c + 16, 4); u32 cs = rd(b, c + 20, 4), us = rd(b, c + 24, 4), nl = rd(b, c + 28, 2), el = rd(b, c + 30, 2), ml = rd(b, c + 32, 2); x.local = rd(b, c + 42, 4); x.name = b.substr(c + 46, nl); c += 46 + nl + el + ml;
    if ((size_t)x.local + 30 > cat || b.compare(x.local, 4, "PK\x03\x04")) return no("the entry " + x.name + " has no header"); if (x.local != want) return no("the entry " + x.name + " is not where the one before it ends"); u32 nl2 = rd(b, x.local + 26, 2), el2 = rd(b, x.local + 28, 2); x.dataAt = x.local + 30 + nl2 + el2; if (b.substr(x.local + 30, nl2) != x.name) return no("the entry " + x.name + " has two names"); if ((size_t)x.dataAt + cs > cat) return no("the entry " + x.name + " is longer than the archive"); x.raw = b.substr(x.dataAt, cs); want = x.dataAt + cs;
    if (x.method == 0) x.data = x.raw; else if (x.method == 8) { Inf f{ (const u8*)x.raw.data(), x.raw.size(), 0, 0, "", false }; f.run(); if (f.bad) return no("the entry " + x.name + " cannot be decompressed"); x.data = f.out; } else return no("the entry " + x.name + " has method " + std::to_string(x.method)); if (x.data.size() != us) return no("the entry " + x.name + " has the wrong size"); if (crc32(x.data) != x.crc) return no("the entry " + x.name + " has the wrong checksum"); out.push_back(x); }
  if (c != e) return no("the directory has the wrong length"); return true; }
std::string zipRaw(const std::vector<Entry>& entries) { std::string b, d; for (auto& x : entries) { u32 at = (u32)b.size(); std::string h; wr(h, 20, 2); wr(h, 0, 2); wr(h, x.method, 2); wr(h, 0x6020, 2); wr(h, 0x5021, 2); wr(h, x.crc, 4); wr(h, (u32)x.raw.size(), 4); wr(h, (u32)x.data.size(), 4); wr(h, (u32)x.name.size(), 2); wr(h, 0, 2); b += "PK\x03\x04" + h + x.name + x.raw; d += "PK\x01\x02"; wr(d, 20, 2); d += h; wr(d, 0, 2); wr(d, 0, 2); wr(d, 0, 2); wr(d, 0, 4); wr(d, at, 4); d += x.name; }
  u32 at = (u32)b.size(); b += d + "PK\x05\x06"; wr(b, 0, 4); wr(b, (u32)entries.size(), 2); wr(b, (u32)entries.size(), 2); wr(b, (u32)d.size(), 4); wr(b, at, 4); wr(b, 0, 2); return b; }
std::string zip(const std::vector<Entry>& entries) { std::string b, d; for (auto& x : entries) { u32 at = (u32)b.size(), c = crc32(x.data); std::string h; wr(h, 20, 2); wr(h, 0, 2); wr(h, 0, 2); wr(h, 0x6020, 2); wr(h, 0x5021, 2); wr(h, c, 4); wr(h, (u32)x.data.size(), 4); wr(h, (u32)x.data.size(), 4); wr(h, (u32)x.name.size(), 2); wr(h, 0, 2); b += "PK\x03\x04" + h + x.name + x.data; d += "PK\x01\x02"; wr(d, 20, 2); d += h; wr(d, 0, 2); wr(d, 0, 2); wr(d, 0, 2); wr(d, 0, 4); wr(d, at, 4); d += x.name; }
  u32 at = (u32)b.size(); b += d + "PK\x05\x06"; wr(b, 0, 4); wr(b, (u32)entries.size(), 2); wr(b, (u32)entries.size(), 2); wr(b, (u32)d.size(), 4); wr(b, at, 4); wr(b, 0, 2); return b; }
}
