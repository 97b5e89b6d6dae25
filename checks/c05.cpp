// C05: a station survives hostile TCP peers and keeps serving.
#include "xlib.h"
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
using namespace xc;
namespace {
typedef std::vector<std::pair<std::string, std::string>> Fields;
enum Verdict { VALID, BAD, DROP, ANY };      // what the station may make of a packet: deliver as it is, report as failed, ignore, whatever it likes
struct Shot { std::string bytes; Verdict v = ANY; Content want; std::string what; MT type = MT::MVR_UNDEFINED; bool surplus = false; };
std::string uq(const Uuid& u) { return jsonStr(uuidStr(u)); }
std::string list(const std::vector<Uuid>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + uq(v[i]); return s + "]"; }
std::string render(const Fields& f, bool fancy) {
  static const char* WS[] = { "", " ", "\n", "\t ", "/* {\"Type\":1} */", "// x\n", "\r\n" }; auto ws = [&] { return fancy ? WS[choose(C_DATA, 7)] : ""; };
  std::vector<size_t> o; for (size_t i = 0; i < f.size(); i++) o.push_back(i); if (fancy) for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[choose(C_DATA, (u32)i)]);
  std::string s = "{"; for (size_t i = 0; i < o.size(); i++) { if (i) s += ","; s += ws(); s += jsonStr(f[o[i]].first); s += ws(); s += ":"; s += ws(); s += f[o[i]].second; s += ws(); }
  return s + "}"; }
Fields commitFields(const Svc::MVR_COMMIT_MESSAGE& m) { return { { "Type", "\"MVR_COMMIT\"" }, { "FileName", jsonStr(m.FileName.fBuffer) }, { "Comment", jsonStr(m.Comment.fBuffer) }, { "FileSize", std::to_string(m.FileSize) }, { "FileUUID", uq(m.FileUUID) }, { "StationUUID", uq(m.StationUUID) }, { "verMajor", std::to_string(m.VersionMajor) }, { "verMinor", std::to_string(m.VersionMinor) }, { "ForStationsUUID", list(m.ForStationsUUID) } }; }
Fields fieldsOf(const XMsg& m) {
  Fields f; auto num = [](u32 v) { return choose(C_DATA, 3) == 1 ? "\"" + std::to_string(v) + "\"" : std::to_string(v); };
  auto join = [&](const char* t) { std::string c = "["; for (size_t i = 0; i < m.JOIN.Commits.size(); i++) c += (i ? "," : "") + render(commitFields(m.JOIN.Commits[i]), false); f = { { "Type", t }, { "Provider", jsonStr(m.JOIN.Provider.fBuffer) }, { "StationName", jsonStr(m.JOIN.StationName.fBuffer) }, { "StationUUID", uq(m.JOIN.StationUUID) }, { "verMajor", num(m.JOIN.VersionMajor) }, { "verMinor", num(m.JOIN.VersionMinor) }, { "Commits", c + "]" } }; };
  auto ret = [&](const char* t) { if (f.empty()) f.push_back({ "Type", t }); std::string b = m.RetIsOK ? "true" : "false"; f.push_back({ "OK", choose(C_DATA, 3) == 1 ? "\"" + b + "\"" : b }); f.push_back({ "Message", jsonStr(m.RetError.fBuffer) }); };
  switch (m.Type) { case MT::MVR_JOIN: join("\"MVR_JOIN\""); break; case MT::MVR_JOIN_RET: join("\"MVR_JOIN_RET\""); ret(""); break; case MT::MVR_COMMIT: f = commitFields(m.COMMIT); break;
    case MT::MVR_LEAVE: f = { { "Type", "\"MVR_LEAVE\"" }, { choose(C_DATA, 3) == 1 ? "StationUUID" : "FromStationUUID", uq(m.LEAVE.FromStationUUID) } }; break;
    case MT::MVR_REQUEST: f = { { "Type", "\"MVR_REQUEST\"" }, { "FileUUID", uq(m.REQUEST.FileUUID) }, { "FromStationUUID", list(m.REQUEST.FromStationUUID) } }; break;
    case MT::MVR_LEAVE_RET: ret("\"MVR_LEAVE_RET\""); break; case MT::MVR_COMMIT_RET: ret("\"MVR_COMMIT_RET\""); break; case MT::MVR_REQUEST_RET: ret("\"MVR_REQUEST_RET\""); break; default: break; }
  return f; }
std::string noise(u32 n) { std::string s; for (u32 i = 0; i < n; i++) s += (char)choose(C_DATA, 256); return s; }
Shot genShot() {
  Shot s; Packet p; static const MT T[] = { MT::MVR_COMMIT, MT::MVR_JOIN, MT::MVR_LEAVE, MT::MVR_REQUEST, MT::MVR_JOIN_RET, MT::MVR_LEAVE_RET, MT::MVR_COMMIT_RET, MT::MVR_REQUEST_RET };
  XMsg m = genMessage(T[choose(C_DATA, 8)]); s.type = m.Type; Fields f = fieldsOf(m); u32 k = choose(C_FAULT, 22); s.want = contentOf(m); s.v = VALID; s.what = std::string(typeName(m.Type)) + "/" + std::to_string(k); if (k) fault(F_PEER_GARBAGE);
  // a failed answer is itself reported as "not OK": it cannot be told from a malformed one by its flag alone
  auto body = [&](const std::string& b) { p.body = b; s.bytes = p.bytes(); };
  switch (k) {
    case 0: case 1: if (choose(C_DATA, 3) == 1) f.push_back({ "Unknown", "{\"a\":[1,null,{}]}" }); body(render(f, k == 1)); break;
    case 2: { size_t i = choose(C_FAULT, (u32)f.size()); s.v = BAD; f.erase(f.begin() + i); body(render(f, choose(C_DATA, 2))); break; }                                            // a required field is missing
    case 3: { size_t i = choose(C_FAULT, (u32)f.size()); std::string old = f[i].second; bool isList = f[i].first == "Commits" || f[i].first == "ForStationsUUID" || (m.Type == MT::MVR_REQUEST && f[i].first == "FromStationUUID"); bool isNum = f[i].first.compare(0, 3, "ver") == 0 || f[i].first == "FileSize"; bool isBool = f[i].first == "OK"; s.v = BAD;
      static const char* forStr[] = { "5", "null", "[]", "{}", "true", "-1.5", "[\"x\"]" }; static const char* forList[] = { "5", "true", "[5]", "[[]]", "[null]", "{\"a\":5}", "[true]" }; static const char* forNum[] = { "null", "[]", "{}", "\"\"", "\"abc\"", "[1]", "{\"a\":1}" }; static const char* forBool[] = { "null", "[]", "{}", "5", "[true]", "{\"a\":true}", "1.5" };
      f[i].second = (isList ? forList : isNum ? forNum : isBool ? forBool : forStr)[choose(C_FAULT, 7)]; body(render(f, choose(C_DATA, 2))); break; }                               // a field of the wrong type
    case 4: { static const char* U[] = { "\"\"", "\"x\"", "\"00000000-0000-0000-0000-00000000000\"", "\"0000000000000000-0000-0000-000000000000\"", "\"{05000000-0600-0000-0700-000008000000}\"", "\"0500000000600-0000-0700-000008000000\"", "\"\xc3\xa4\"" }; bool done = false; for (auto& x : f) if ((x.first == "StationUUID" || x.first == "FileUUID" || (x.first == "FromStationUUID" && m.Type == MT::MVR_LEAVE)) && !done) { x.second = U[choose(C_FAULT, 7)]; done = true; }
      if (done) s.v = BAD; body(render(f, false)); break; }                                                                                                                           // a text that is no UUID
    case 5: { static const char* Y[] = { "\"MVR_NOPE\"", "\"\"", "5", "null", "[]", "{\"Type\":\"MVR_COMMIT\"}", "\"mvr_commit\"", "\"MVR_COMMIT \"", "\"MVR_NEW_SESSION_HOST\"" }; f[0].second = Y[choose(C_FAULT, 9)]; s.v = BAD; body(render(f, choose(C_DATA, 2))); break; }
    case 6: { std::string b = render(f, false); b.resize(choose(C_FAULT, (u32)b.size())); s.v = BAD; body(b); break; }                                                             // cut text, possibly empty
    case 7: { std::string b = render(f, false); u32 n = 1 + choose(C_FAULT, 5); for (u32 i = 0; i < n; i++) b[choose(C_FAULT, (u32)b.size())] = (char)choose(C_FAULT, 256); s.v = ANY; body(b); break; }
    case 8: { static const char* B[] = { "null", "[]", "5", "\"MVR_COMMIT\"", "[{\"Type\":\"MVR_LEAVE\"}]", "{}", "true", "{", "}", "{\"Type\":\"MVR_COMMIT\"", "\xff\xfe\x00", "\xef\xbb\xbf", "/*", "//", "{\"Type\":\"MVR_LEAVE\",\"FromStationUUID\":\"\xff\xff\"}", "1e999999", "-", "\"\\ud800\"", "{\"\":{\"\":0}}" }; s.v = BAD; body(B[choose(C_FAULT, 19)]); break; }
    case 9: { s.v = BAD; std::string b = noise(choose(C_FAULT, 400)); if (!b.empty() && (b[0] == '{' || b[0] == ' ' || b[0] == '/' || b[0] == '\n' || b[0] == '\r' || b[0] == '\t' || (u8)b[0] == 0xef)) b[0] = '!'; body(b); break; }
    case 10: { u32 n = 1 + choose(C_FAULT, 30000); std::string b; const char* o = choose(C_FAULT, 2) ? "[" : "{\"a\":"; for (u32 i = 0; i < n; i++) b += o; if (choose(C_FAULT, 2)) { b += "1"; for (u32 i = 0; i < n; i++) b += *o == '[' ? "]" : "}"; } s.v = BAD; if (choose(C_FAULT, 2)) { b = "{\"Type\":\"MVR_REQUEST\",\"FileUUID\":" + b + "}"; } body(b); break; }   // deep nesting
    case 11: { for (auto& x : f) if (x.second[0] == '"') { x.second = "\"" + std::string(1024 + choose(C_FAULT, 60000), 'a') + "\""; break; } s.v = ANY; body(render(f, false)); break; }    // (the first text is the type)
    case 12: { bool any = false; for (auto& x : f) if (x.first == "FileName" || x.first == "Comment" || x.first == "Provider" || x.first == "StationName" || x.first == "Message") { x.second = "\"" + std::string(1000 + choose(C_FAULT, 9000), choose(C_FAULT, 2) ? 'a' : 'b') + "\""; any = true; } s.v = any ? ANY : VALID; body(render(f, false)); break; }   // texts larger than the message's buffers
    case 13: { static const char* N[] = { "-1", "4294967296", "18446744073709551616", "1e300", "-1e300", "1.5", "0.0", "99999999999999999999999999999", "\"99999999999999999999\"", "\"-1\"", "\" 7\"", "\"7x\"" }; for (auto& x : f) if (x.first.compare(0, 3, "ver") == 0 || x.first == "FileSize") x.second = N[choose(C_FAULT, 12)]; s.v = ANY; body(render(f, false)); break; }
    case 14: { p.type = choose(C_FAULT, 2) ? 2 + choose(C_FAULT, 100) : 0xffffffffu; s.v = BAD; body(render(f, false)); break; }
    case 15: { p.type = 1; p.body = noise(1 + choose(C_FAULT, 2000)); s.v = VALID; s.type = MT::MVR_REQUEST_RET; s.want = Content(); s.want.type = MT::MVR_REQUEST_RET; s.want.buf = p.body; s.bytes = p.bytes(); break; }   // a file nobody asked for
    case 16: { p.type = choose(C_FAULT, 3); s.v = BAD; body(""); break; }
    case 17: { p.flag = choose(C_FAULT, 2) ? genU32() : 778682u ^ (1u << choose(C_FAULT, 32)); if (p.flag == 778682) p.flag++; s.v = DROP; body(render(f, false)); break; }
    case 18: { static const u64 L[] = { 1ull << 31, 1ull << 32, ~0ull, 1ull << 63, ~0ull - 27, ~0ull - 28, ~0ull - 29, 1ull << 40, 0x7fffffffffffffffull, (1ull << 30) + 1 }; p.lieLen = true; p.len = L[choose(C_FAULT, 10)]; s.v = DROP; body(render(f, false)); break; }
    case 19: { std::string b = render(f, false); p.lieLen = true; if (choose(C_FAULT, 2)) { p.len = b.size() + 1 + choose(C_FAULT, 100000); s.v = DROP; } else { p.len = choose(C_FAULT, (u32)b.size()); s.v = BAD; s.surplus = true; } body(b); break; }   // says more or less than it sends
    case 20: { body(noise(choose(C_FAULT, 400))); s.bytes = noise(choose(C_FAULT, 400)); if (s.bytes.compare(0, 4, Packet().bytes(), 0, 4) == 0) s.bytes[0] = 'x'; s.v = DROP; break; }
    default: { body(render(f, false)); s.bytes.resize(choose(C_FAULT, (u32)s.bytes.size())); s.v = DROP; break; }                                                               // a packet cut anywhere
  }
  return s;
}
enum Manner { PLAIN, BYTEWISE, HALFCLOSE, RST_END, STALL, NOREAD, TWICE, CLOSE_FAST, MANNERS };
struct W { std::vector<Shot> must, may; size_t badMust = 0, badMay = 0, anyCount = 0; std::string ip; int port = 0; bool lossy = false; };
void rstNow(int fd) { struct linger l = { 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
void attack(W& w, int n) {
  for (int i = 0; i < n; i++) {
    Shot s = genShot(); Manner k = (Manner)choose(C_FAULT, MANNERS); int fd = tcpConnect(w.ip, w.port, 20 * SEC); if (fd < 0) { sleepNs(100 * MS); continue; }
    logev("attack %s manner %d (%zu bytes)", s.what.c_str(), k, s.bytes.size());
    // whatever happens below, from here on the packet may be seen; record before the first byte leaves
    bool sure = !w.lossy && k != RST_END && k != CLOSE_FAST; bool failedRet = s.v == VALID && !s.want.ok; (void)failedRet;
    if (s.v == VALID) { (sure ? w.must : w.may).push_back(s); } else if (s.v == BAD) { (sure ? w.badMust : w.badMay)++; } else if (s.v == ANY) w.anyCount++;
    bool ok = true;
    if (k == BYTEWISE && s.bytes.size() < 300) for (char c : s.bytes) { if (!(ok = sendAll(fd, std::string(1, c)))) break; sleepNs(choose(C_FAULT, 40) * MS); }
    else if (k == STALL) { size_t at = choose(C_FAULT, (u32)s.bytes.size() + 1); fault(F_PEER_STALL); ok = sendFor(fd, s.bytes.substr(0, at), 60 * SEC); sleepNs(range(C_FAULT, 1, 100) * SEC); if (ok) ok = sendFor(fd, s.bytes.substr(at), 60 * SEC); }
    else ok = sendFor(fd, s.bytes, 60 * SEC);
    if (k == TWICE && ok) { Shot t = genShot(); if (t.v == VALID) w.may.push_back(t); else if (t.v == BAD) w.badMay++; else if (t.v == ANY) w.anyCount++; if (s.v == DROP) { w.anyCount++; w.badMay++; } sendFor(fd, t.bytes, 30 * SEC); }   // one connection carries one message: a second one is not read, but may complete the first
    if (k == HALFCLOSE) shutdown(fd, SHUT_WR);
    if (k == RST_END) { sleepNs(choose(C_FAULT, 3) * MS); rstNow(fd); fault(F_TCP_RST); close(fd); continue; }
    if (k == CLOSE_FAST) { close(fd); continue; }
    if (k == NOREAD) { fault(F_PEER_STALL); sleepNs(range(C_FAULT, 1, 60) * SEC); if (choose(C_FAULT, 2)) rstNow(fd); close(fd); continue; }
    if (s.v == DROP && k != TWICE && s.bytes.size() >= 28) shutdown(fd, SHUT_WR);
    Packet a; bool got = readPacket(fd, a, now() + 60 * SEC); 
    if (sure && k != TWICE && s.v != DROP && !s.surplus && !got) violation("no-answer", "a peer sent %s (manner %d) and got no answer in 60 s", s.what.c_str(), k);
    close(fd); }
}
bool serve(W& w, int id, bool must) {       // a well-behaved client of another make
  XMsg m; m.Type = choose(C_OP, 2) ? MT::MVR_COMMIT : MT::MVR_REQUEST; m.COMMIT = genCommit(); m.COMMIT.FileUUID = Uuid(0x600D, id, 1, 1); m.REQUEST.FileUUID = Uuid(0x600D, id, 2, 2); Shot s; s.want = contentOf(m); Packet p; p.body = render(fieldsOf(m), false); s.what = "good"; s.v = VALID; u64 t0 = now();
  if (must) w.must.push_back(s); else w.may.push_back(s);
  int fd = tcpConnect(w.ip, w.port, 60 * SEC); if (fd < 0) { if (must) violation("not-served", "a well-behaved peer cannot connect (%.1f s)", (now() - t0) / 1e9); return false; }
  Packet a; bool ok = sendAll(fd, p.bytes()) && readPacket(fd, a, now() + 60 * SEC); std::string want = m.Type == MT::MVR_COMMIT ? "MVR_COMMIT_RET" : "MVR_REQUEST_RET"; close(fd);
  if (must && (!ok || a.body.find(want) == std::string::npos)) violation("not-served", "a well-behaved peer %s after %.1f s: %s", ok ? "got a wrong answer" : "got no answer", (now() - t0) / 1e9, hex(a.body, 200).c_str());
  if (must && now() - t0 > 60 * SEC) violation("slow-service", "a well-behaved peer waited %.1f s", (now() - t0) / 1e9);
  return ok;
}
void scenario() {
  quietLog(); randomSched(); calmNet(); W w; net.latHi = choose(C_CFG, 2) ? 30 * MS : 2 * MS; if (choose(C_CFG, 3) == 1) { net.mss = 100 + choose(C_CFG, 500); net.rxCap = 8192; net.shortReadP = 0.2; }
  int hv = addHost("V", { "10.0.0.1" }), hg = addHost("G", { "10.0.0.2" }); std::vector<int> ha; u32 na = 1 + choose(C_CFG, 4); for (u32 i = 0; i < na; i++) ha.push_back(addHost(("A" + std::to_string(i)).c_str(), { "10.0.1." + std::to_string(i + 1) }));
  Station V(hv, "Victim"), G(hg, "Good"); V.uuid = Uuid(1, 1, 1, 1); G.uuid = Uuid(2, 2, 2, 2); V.provider = G.provider = "P"; if (choose(C_CFG, 3) == 1) V.callbackDelayMax = 500 * MS;
  std::string big(100000 + choose(C_DATA, 200000), 'B');
  V.reply = [&](const XMsg& in) { XMsg r = okReply(in, V); if (in.Type == MT::MVR_REQUEST && in.REQUEST.FileUUID.a % 2 == 0) { r.RetIsOK = true; r.BufferToFileLength = big.size(); r.BufferToFile = new char[big.size()]; memcpy(r.BufferToFile, big.data(), big.size()); } return r; };
  V.create(); V.reg(); V.connect("Grp"); G.create(); G.reg(); G.connect("Grp"); sleepNs(20 * SEC);
  w.ip = hostIp(hv); w.port = listenPort(hv); V.in.clear(); int base = openFds(hv);
  u32 fm = choose(C_CFG, 5); net.faultHost = hv; if (fm == 1) net.emfileP = 0.2; if (fm == 2) net.eintrP = 0.1; if (fm == 3) { net.acceptAbortP = 0.1; w.lossy = true; } if (fm == 4) { net.emfileP = 0.1; net.eintrP = 0.1; net.shortWriteP = 0.1; }
  std::vector<int> ts; u32 shots = 3 + choose(C_CFG, 6);
  for (u32 i = 0; i < na; i++) { u32 par = 1 + choose(C_CFG, 2); for (u32 q = 0; q < par; q++) { u64 d = choose(C_SCHED, 2000) * MS; ts.push_back(spawn(ha[i], "attacker", [&w, shots, d] { sleepNs(d); attack(w, (int)shots); })); } }
  int good = spawn(hg, "good-raw", [&] { for (int i = 0; i < 4; i++) { sleepNs(range(C_SCHED, 0, 5000) * MS); serve(w, i, !w.lossy); } });
  std::vector<Uuid> marks; for (u32 i = 0; i < 3; i++) { sleepNs(range(C_SCHED, 0, 4000) * MS); XMsg m; m.Type = MT::MVR_COMMIT; m.COMMIT.FileUUID = Uuid(0x600D, i, 3, 3); m.COMMIT.Comment = "from a good station"; m.COMMIT.ForStationsUUID.clear(); marks.push_back(m.COMMIT.FileUUID); Shot s; s.want = contentOf(m); s.what = "station"; (w.lossy || fm == 1 || fm == 4 ? w.may : w.must).push_back(s); G.send(m); }
  joinTask(good); for (int t : ts) joinTask(t);
  net.emfileP = net.eintrP = net.acceptAbortP = net.shortWriteP = 0; sleepNs(60 * SEC);
  // ---- everything is gone again
  for (int i = 0; i < 15 && openFds(hv) > base; i++) sleepNs(SEC);   // a background query has sockets of its own for a while
  if (openFds(hv) > base) violation("connection-leak", "%d descriptors before, %d after all peers disconnected: %s", base, openFds(hv), fdReport(hv).c_str());
  serve(w, 100, true); { XMsg m; m.Type = MT::MVR_COMMIT; m.COMMIT.FileUUID = Uuid(0x600D, 9, 9, 9); Shot s; s.want = contentOf(m); s.what = "last"; w.must.push_back(s); G.send(m); sleepNs(5 * SEC); }
  // ---- what the application was told
  std::vector<const InRec*> left; for (auto& r : V.in) left.push_back(&r);
  for (auto& s : w.must) { bool hit = false; for (size_t i = 0; i < left.size() && !hit; i++) if (left[i]->c == s.want) { left.erase(left.begin() + i); hit = true; } if (!hit) { std::string near; for (auto* r : left) if (r->c.type == s.want.type) near = s.want.diff(r->c); violation("lost", "a well-formed message (%s) never reached the application; closest: %s", s.what.c_str(), near.c_str()); } }
  for (auto& s : w.may) for (size_t i = 0; i < left.size(); i++) if (left[i]->c == s.want) { left.erase(left.begin() + i); break; }
  size_t bad = 0, ok = 0; std::string ex; for (auto* r : left) { if (!r->m.RetIsOK || r->m.Type == MT::MVR_UNDEFINED) bad++; else { ok++; ex += std::string(typeName(r->m.Type)) + " "; } if (r->m.Type == MT::MVR_UNDEFINED && r->m.RetIsOK) violation("undefined-ok", "an undefined message was reported as successful"); }
  if (ok > w.anyCount) violation("malformed-as-valid", "%zu messages that nobody sent in this form were reported as valid (%zu could have been): %s", ok, w.anyCount, ex.c_str());
  if (bad < w.badMust) violation("malformed-not-reported", "%zu malformed messages were reported, at least %zu were sent", bad, w.badMust);
  if (bad + ok > w.badMust + w.badMay + w.anyCount) violation("invented", "%zu messages reported beyond those sent (%zu)", bad + ok, w.badMust + w.badMay + w.anyCount);
  // ---- and it still sends
  G.in.clear(); XMsg m; m.Type = MT::MVR_COMMIT; m.COMMIT.FileUUID = Uuid(7, 7, 7, 7); V.send(m); size_t c = 0; for (auto& r : G.in) if (r.c == contentOf(m)) c++; if (c != 1) violation("still-sends", "after the attack a message of the station arrived %zu times", c);
  nontrivial(); sample(std::to_string(na) + " attackers x " + std::to_string(shots) + " shots, fault mode " + std::to_string(fm) + ", " + std::to_string(V.in.size()) + " callbacks, " + std::to_string(w.badMust) + " malformed");
  V.release(); G.release();
}
static Reg r({ "C05", "hostile TCP peers", scenario, 6000, 400000, "runs until the time limit", "MVR-xchange server, session, packet and JSON decoding, service, boost.asio reactor", "kernel sockets, clock, scheduler, attackers (simulated)", { "a peer machine that vanishes without closing its connection keeps it open (no such attack is counted as a leak)" } });
}
