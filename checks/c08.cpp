// C08: a requested file arrives byte-exact or is reported as failed.
#include "xlib.h"
#include "fs.h"
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
using namespace xc;
namespace {
enum How { BUFFER, PATH, MISSING, FOLDER, REFUSE, EMPTY_PATH, NOFILE, HOWS };
struct File { std::string data, path; How how = BUFFER; size_t size = 0; };
std::string content(u32 key, size_t n, int style) {
  std::string s; s.resize(n); u64 z = key * 0x9E3779B97F4A7C15ull + 1; static const std::string head = "\x00\x0b\xe1\xba\x00\x00\x00\x01";
  for (size_t i = 0; i < n; i++) { if ((i & 7) == 0) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; } s[i] = (char)(z >> ((i & 7) * 8)); }
  if (style == 1) for (size_t i = 0; i + 4 < n; i += 97) memcpy(&s[i], "\x00\x0b\xe1\xba", 4);                                            // looks like package headers
  if (style == 2) { std::string j = "{\"Type\":\"MVR_REQUEST_RET\",\"OK\":true,\"Message\":\"\"}"; for (size_t i = 0; i < n && i < j.size(); i++) s[i] = j[i]; }   // looks like a message
  if (style == 3) for (size_t i = 0; i < n; i++) s[i] = 0;
  if (style == 4) for (size_t i = 0; i < n; i += 5) s[i] = '\r', i + 1 < n ? s[i + 1] = '\n' : 0, i + 2 < n ? s[i + 2] = 26 : 0;
  if (n) s[0] = (char)key, s[n - 1] = (char)(key >> 3); return s; }
size_t genSize() { switch (choose(C_DATA, 40)) { default: return 1 + choose(C_DATA, 3000); case 1: return 1; case 2: return 1 + choose(C_DATA, 40); case 3: case 4: case 5: case 6: return 1 + choose(C_DATA, 300000); case 7: return 4096 * (1 + choose(C_DATA, 16)) + choose(C_DATA, 3) - 1; case 8: return 65536 * (1 + choose(C_DATA, 8)) - 30 + choose(C_DATA, 60); case 9: return 30 * 1024 * 1024 - 60 + choose(C_DATA, 90); case 10: return 30 * 1024 * 1024 + 1 + choose(C_DATA, 3000000); case 11: return 0; } }
const int PKT = 28;
void scenario() {
  quietLog(); randomSched(); calmNet(); net.latHi = choose(C_CFG, 2) ? 20 * MS : 2 * MS; net.mss = 16384; net.rxCap = 1 << 19; u32 chaos = choose(C_CFG, 7);   // 0 plain 1 segmentation 2 break-off 3 storage 4 storage+segmentation 5 break-off+storage 6 broken foreign answers
  bool seg = chaos == 1 || chaos == 4, brk = chaos == 2 || chaos == 5, sto = chaos >= 3 && chaos <= 5;
  int ha = addHost("A", { "10.0.0.1" }), hb = addHost("B", { "10.0.0.2" }), hc = addHost("C", { "10.0.0.3" });
  Station A(ha, "Owner"), B(hb, "Reader"), C(hc, "Other"); A.uuid = Uuid(1, 1, 1, 1); B.uuid = Uuid(2, 2, 2, 2); C.uuid = Uuid(3, 3, 3, 3); A.provider = B.provider = C.provider = "P"; bool useC = choose(C_CFG, 3) == 1;
  std::map<u32, File> files; u32 n = 1 + choose(C_OP, 4); size_t total = 0, biggest = 0;
  for (u32 i = 1; i <= n; i++) { File f; f.how = (How)(choose(C_OP, 4) == 1 ? choose(C_OP, HOWS) : choose(C_OP, 2)); f.size = genSize(); if (f.size > 1000000 && total > 1000000) f.size = 1 + f.size % 1000; total += f.size; biggest = std::max(biggest, f.size); f.data = content(i, f.size, choose(C_DATA, 6)); f.path = std::string(choose(C_DATA, 2) ? "/srv/files/" : "/srv/") + (choose(C_DATA, 3) == 1 ? "\xc3\xa4 b" : "f") + std::to_string(i) + (choose(C_DATA, 2) ? ".mvr" : "");
    if (f.how == PATH) fsPut(ha, f.path, f.data); if (f.how == FOLDER) fsMkdirs(ha, f.path); files[i] = f; }
  if (seg) { net.shortReadP = 0.3; net.shortWriteP = 0.3; net.tcpDelayP = 0.02; net.mss = biggest > 1000000 ? 4000 + choose(C_NET, 60000) : 200 + choose(C_NET, 3000); net.rxCap = biggest > 1000000 ? 1 << 18 : 4096 + choose(C_NET, 60000); }
  A.reply = [&](const XMsg& in) { XMsg r = okReply(in, A); if (in.Type != MT::MVR_REQUEST) return r; auto it = files.find(in.REQUEST.FileUUID.d); r.Type = MT::MVR_REQUEST_RET; if (it == files.end()) { r.RetIsOK = false; r.RetError = "no such file"; return r; } File& f = it->second; r.RetIsOK = f.how != REFUSE; r.RetError = f.how == REFUSE ? "not for you" : "";
    if (f.how == BUFFER) { r.BufferToFile = new char[f.data.size()]; memcpy(r.BufferToFile, f.data.data(), f.data.size()); r.BufferToFileLength = f.data.size(); }
    else if (f.how == PATH || f.how == FOLDER || f.how == REFUSE) r.PathToFile = f.path.c_str(); else if (f.how == MISSING) r.PathToFile = "/srv/is/not/there"; else if (f.how == EMPTY_PATH) r.PathToFile = ""; return r; };
  A.create(); A.reg(); A.connect("Grp"); B.create(); B.reg(); B.connect("Grp"); if (useC) { C.create(); C.reg(); C.connect("Grp"); } sleepNs(20 * SEC);
  // a foreign station that breaks its answers off
  std::shared_ptr<RawPeer> raw; std::map<u32, bool> cut; std::string rawData; u32 mode = 0;
  if (chaos == 6) { int hr = addHost("R", { "10.0.0.9" }); raw = std::make_shared<RawPeer>(hr, "Grp", "Raw", Uuid(9, 9, 9, 9)); rawData = content(77, 1 + choose(C_DATA, 60000), 0); mode = choose(C_FAULT, 8); u32 at = choose(C_FAULT, (u32)rawData.size() + PKT); size_t lie = 1 + choose(C_FAULT, 5000);
    raw->behave = [&, at, lie](int fd) { Packet q; if (!readPacket(fd, q, now() + 20 * SEC)) return; if (q.body.find("MVR_REQUEST\"") == std::string::npos) { Packet a; a.body = retJson(q.body, true, "", *raw); sendAll(fd, a.bytes()); return; } Packet a; a.type = 1; a.body = rawData; std::string b;
      if (mode == 5) { a.lieLen = true; a.len = rawData.size() + lie; } if (mode == 6) { a.lieLen = true; a.len = 1 + (lie % rawData.size()); } if (mode == 7) a.type = 2 + choose(C_FAULT, 9); b = a.bytes(); fault(F_PEER_GARBAGE);
      if (mode >= 1 && mode <= 4) b.resize(at); sendFor(fd, b, 5 * SEC); if (mode == 2) { struct linger l = { 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } if (mode == 3) { fault(F_PEER_STALL); sleepNs(30 * SEC); } if (mode == 4) { sleepNs(choose(C_FAULT, 12) * SEC); a = Packet(); a.type = 1; a.body = rawData; sendFor(fd, a.bytes().substr(at), 5 * SEC); } };
    raw->start(); Packet x; raw->join(hostIp(hb), listenPort(hb), &x); sleepNs(60 * SEC); B.ret.clear(); }
  if (sto) { fs.host = ha; u32 k = choose(C_FS, 4); if (k == 0) fs.failIn = 1 + choose(C_FS, 12); if (k == 1) { fs.readP = 0.3; fs.seekP = 0.2; } if (k == 2) { fs.openP = 0.4; fs.statP = 0.3; } if (k == 3) { fs.failIn = 1 + choose(C_FS, 12); fs.sticky = true; } fs.readChunk = choose(C_FS, 2) ? 1 + choose(C_FS, 5000) : 0; if (biggest > 1000000) fs.readChunk = 0; }
  B.ret.clear(); C.ret.clear();
  // ---- the requests, possibly at the same time
  std::vector<int> ts; bool par = choose(C_OP, 2); auto ask = [&](Station& s, u32 key) { XMsg m; m.Type = MT::MVR_REQUEST; m.REQUEST.FileUUID = Uuid(5, 5, 5, key); m.REQUEST.FromStationUUID.clear(); if (choose(C_OP, 2)) m.REQUEST.FromStationUUID.push_back(A.uuid); if (raw) { m.REQUEST.FromStationUUID.clear(); m.REQUEST.FromStationUUID.push_back(raw->uuid); if (choose(C_OP, 2)) m.REQUEST.FromStationUUID.push_back(A.uuid); } s.send(m, choose(C_OP, 2)); };
  auto one = [&](u32 key) { ask(B, key); }; for (u32 i = 1; i <= n + (choose(C_OP, 4) == 1); i++) { if (par) ts.push_back(spawn(hb, "reader", [&, i] { one(i); })); else { one(i); if (choose(C_OP, 2)) sleepNs(range(C_OP, 0, 2000) * MS); } if (useC && choose(C_OP, 2)) ts.push_back(spawn(hc, "other reader", [&, i] { ask(C, i); }));
    if (brk && choose(C_FAULT, 2)) { u64 d = range(C_FAULT, 0, 60000) * US * (biggest > 100000 ? 20 : 1); u32 kind = choose(C_FAULT, 4); at(now() + d, [&, kind] { if (kind == 0) { resetAllConnections(ha, 1); } else if (kind == 1) { isolate(ha, true); fault(F_PARTITION); at(now() + 25 * SEC, [&] { isolate(ha, false); fault(F_HEAL); }); } else if (kind == 2) resetAllConnections(hb, 0.5); else { net.rstP = 0.01; } }); } }
  for (int t : ts) joinTask(t); sleepNs(30 * SEC); net.rstP = 0; fs = FsCfg(); nontrivial(); opCount(n);
  // ---- what the requesters were told
  size_t good = 0, failed = 0; auto judge = [&](Station& s, bool lossy) { std::map<u32, int> ok, bad; size_t fromRaw = 0;
    for (auto& r : s.ret) { if (r.sent.type != MT::MVR_REQUEST) continue; u32 key = 0; for (auto& f : r.sent.f) if (f.first == "FileUUID") { for (auto& e : files) { XMsg t; t.Type = MT::MVR_REQUEST; t.REQUEST.FileUUID = Uuid(5, 5, 5, e.first); if (contentOf(t).f[0].second == f.second) key = e.first; } if (!key) key = 999; }
      auto it = files.find(key); bool claims = r.gotMsg.RetIsOK && r.gotMsg.Type == MT::MVR_REQUEST_RET; if (r.gotMsg.RetIsOK && r.gotMsg.Type != MT::MVR_REQUEST_RET) violation("wrong-answer", "a file request was answered with a valid message of type %d", (int)r.gotMsg.Type);
      if (!claims) { failed++; bad[key]++; if (raw) fromRaw++; continue; }
      good++; if (raw && r.got.buf == rawData && (mode == 0 || mode == 4)) { fromRaw++; continue; }
      if (raw && mode == 6 && r.got.buf.size() < rawData.size() && rawData.compare(0, r.got.buf.size(), r.got.buf) == 0) continue;   // the foreign station really said its file is that short
      if (raw && (r.got.buf == rawData || (r.got.buf.size() < rawData.size() && r.got.buf == rawData.substr(0, r.got.buf.size()) && (it == files.end() || r.got.buf != it->second.data)))) violation("broken-off-as-success", "%zu bytes of an answer of %zu bytes that was broken off (mode %u) were handed out as the file", r.got.buf.size(), rawData.size(), mode);
      if (it == files.end()) violation("foreign-bytes", "%zu bytes were handed out for a file that does not exist", r.got.buf.size());
      File& f = it->second; if (f.how == BUFFER || f.how == PATH) { if (r.got.buf != f.data) { size_t d = 0; while (d < r.got.buf.size() && d < f.data.size() && r.got.buf[d] == f.data[d]) d++; violation(r.got.buf.size() < f.data.size() ? "truncated" : r.got.buf.size() > f.data.size() ? "padded" : "altered", "a file of %zu bytes (%s) arrived as %zu bytes reported as success, first difference at %zu", f.data.size(), f.how == PATH ? "path" : "buffer", r.got.buf.size(), d); } }
      else violation("unreadable-as-success", "a request answered with %s was reported as success with %zu bytes", f.how == MISSING ? "a missing path" : f.how == FOLDER ? "the path of a folder" : f.how == REFUSE ? "a refusal" : "no file at all", r.got.buf.size());
      ok[key]++; }
    if (!lossy && !raw) for (auto& e : files) { int total = ok[e.first] + bad[e.first]; (void)total; bool readable = (e.second.how == BUFFER || e.second.how == PATH) && e.second.size > 0; if (&s == &B) { if (readable && !(seg && biggest > 1000000) && !(sto && e.second.how == PATH) && ok[e.first] < 1) violation("lost", "a file of %zu bytes (%s) did not arrive over a working network (%d failed answers)", e.second.size, e.second.how == PATH ? "path" : "buffer", bad[e.first]); if (!ok[e.first] && !bad[e.first] && !(seg && biggest > 1000000)) violation("no-answer", "a request got no answer over a working network"); } } };
  judge(B, brk); if (useC) judge(C, brk);
  sample("chaos " + std::to_string(chaos) + ", " + std::to_string(n) + " files, largest " + std::to_string(biggest) + " bytes, " + std::to_string(good) + " answers, " + std::to_string(failed) + " failed");
  // ---- nothing stays open, and the next request is served
  if (auto o = fsOpenFiles(ha); !o.empty()) violation("file-left-open", "%s is still open", o[0].c_str());
  if (!raw) { net.shortReadP = net.shortWriteP = net.tcpDelayP = 0; sleepNs(20 * SEC); B.ret.clear(); File f; f.how = PATH; f.path = "/srv/last"; f.data = content(200, 5000, 0); f.size = 5000; fsPut(ha, f.path, f.data); files[200] = f; XMsg m; m.Type = MT::MVR_REQUEST; m.REQUEST.FileUUID = Uuid(5, 5, 5, 200); m.REQUEST.FromStationUUID = { A.uuid }; B.send(m); bool hit = false; for (auto& r : B.ret) if (r.gotMsg.RetIsOK && r.got.buf == f.data) hit = true; if (!hit) violation("not-served-later", "after the faults a file is not delivered any more"); }
  A.release(); B.release(); if (useC) C.release(); if (raw) raw->shutdown();
}
static Reg r({ "C08", "file transfer", scenario, 6000, 400000, "runs until the time limit", "MVR-xchange service, packets, sessions, clients, file reading (RawOSFile, stdio), boost.asio reactor", "kernel sockets, file system, clock, scheduler (simulated)", { "a file that does not change while it is read", "an answer with zero bytes may be reported as failed" } });
}
