// C06: mDNS processing survives arbitrary datagrams.
#include "xlib.h"
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
#include <arpa/inet.h>
using namespace xc;
namespace {
const char* kSvc = "_mvrxchange._tcp.local.";
u32 fc(u32 n) { return choose(C_FAULT, n); }
std::string noise(u32 n) { std::string s; for (u32 i = 0; i < n; i++) s += (char)fc(256); return s; }
// A name written the wrong way: pointers to itself, to each other, forward, past the end; labels longer than allowed or than the packet; no end.
std::string oddName(size_t at) {
  std::string s; auto ptr = [&](u32 o) { s += (char)(0xC0 | ((o >> 8) & 0x3f)); s += (char)o; };
  switch (fc(14)) {
    case 0: s = dnsName(kSvc); break; case 1: ptr((u32)at); break; case 2: ptr((u32)at + 2); ptr((u32)at); break; case 3: ptr(fc(40)); break; case 4: ptr(fc(0x4000)); break; case 5: ptr(12); break;
    case 6: s += (char)(64 + fc(128)); s += noise(fc(100)); break; case 7: s += (char)255; break; case 8: { u32 n = 1 + fc(140); for (u32 i = 0; i < n; i++) { s += '\1'; s += 'a'; } s += '\0'; break; }
    case 9: { u32 n = 1 + fc(8); for (u32 i = 0; i < n; i++) { s += (char)63; s += std::string(63, 'b' + i); } if (fc(2)) s += '\0'; else ptr(12); break; } case 10: s += '\0'; break; case 11: s += '\3'; s += "abc"; ptr((u32)at); break; case 12: s = dnsName("Grp." + std::string(kSvc)); break; default: { std::string nm = kSvc; s = dnsName(nm.substr(0, fc((u32)nm.size()))); s.pop_back(); ptr(12); break; } }
  return s; }
std::string oddTxt() {
  std::string s; u32 n = fc(5); static const char* T[] = { "StationName=", "StationUUID=", "StationName=x", "StationUUID=01000000-0200-0000-0300-000004000000", "=", "StationUUID=01 00 00 00 02 00 00 00 03 00 00 00 04 00 00 00", "StationUUID=                                               ", "StationName", "" };
  for (u32 i = 0; i < n; i++) { std::string t = T[fc(9)]; if (fc(4) == 1) t += noise(fc(200)); if (t.size() > 255) t.resize(255); s += (char)(fc(4) == 1 ? fc(256) : t.size()); s += t; }
  if (fc(4) == 1) s += (char)fc(256); return s; }
std::string oddPacket() {
  Dns d; bool q = fc(3) == 1; static const int C[] = { 0, 1, 2, 3, 17, 255, 256, 65535 }; u32 nq = q ? 1 + fc(3) : fc(4) == 1 ? fc(3) : 0, na = fc(4), nu = fc(3) == 1 ? fc(3) : 0, nx = fc(5);
  d.u16_(fc(4) == 1 ? fc(65536) : 0); d.u16_(fc(8) == 1 ? fc(65536) : q ? 0 : 0x8400); d.u16_(fc(6) == 1 ? C[fc(8)] : nq); d.u16_(fc(6) == 1 ? C[fc(8)] : na); d.u16_(fc(8) == 1 ? C[fc(8)] : nu); d.u16_(fc(6) == 1 ? C[fc(8)] : nx);
  static const int T[] = { 12, 33, 1, 28, 16, 255, 0, 47, 65535 };
  for (u32 i = 0; i < nq; i++) { d.b += fc(3) == 1 ? dnsName(fc(2) ? kSvc : "_services._dns-sd._udp.local.") : oddName(d.b.size()); d.u16_(T[fc(9)]); d.u16_(fc(4) == 1 ? fc(65536) : fc(2) ? 0x8001 : 1); }
  for (u32 i = 0; i < na + nu + nx; i++) { d.b += oddName(d.b.size()); int t = T[fc(9)]; d.u16_(t); d.u16_(1); d.u32_(fc(2) ? 60 : genU32()); std::string r; size_t at = d.b.size() + 2;
    switch (t) { case 12: r = oddName(at); break; case 33: { Dns s; s.u16_(0); s.u16_(0); s.u16_(fc(65536)); r = s.b; if (fc(5) == 1) r.resize(fc(7)); else r += oddName(at + 6); break; } case 1: r = noise(fc(4) == 1 ? fc(9) : 4); break; case 28: r = noise(fc(4) == 1 ? fc(20) : 16); break; case 16: r = oddTxt(); break; default: r = noise(fc(60)); break; }
    static const int L[] = { 0, 1, 2, 7, 255, 2048, 32768, 65535 }; d.u16_(fc(7) == 1 ? L[fc(8)] : fc(9) == 1 ? (int)r.size() + 1 + (int)fc(20) : (int)r.size()); d.b += r; }
  return d.b; }
std::string attackDatagram(const std::string& grp) {
  std::string b; u32 k = fc(8);
  if (k == 0) b = noise(fc(5) == 1 ? 2000 + fc(3000) : fc(100)); else if (k == 1) b = mvrQuery(); else if (k == 2) b = mvrAnswer(grp, "10.9.9.9", 1 + fc(65535), genString(180), uuidStr(genUuid())); else b = oddPacket();
  u32 m = fc(6); if (m == 1 && !b.empty()) b.resize(fc((u32)b.size() + 1)); if (m == 2 || k == 1) { u32 n = 1 + fc(4); for (u32 i = 0; i < n && !b.empty(); i++) b[fc((u32)b.size())] = (char)fc(256); } if (m == 3) { size_t n = b.size(); b += b; b.resize(n + fc((u32)n + 1)); } if (m == 4) b += std::string(fc(3000), (char)fc(256));
  return b; }
struct Ask { u64 t; bool answered = false; };
struct W { int hv; std::string grp; std::vector<std::pair<u64, std::string>> answers; };
void scenario() {
  quietLog(); randomSched(); calmNet(); W w; net.latHi = choose(C_CFG, 2) ? 20 * MS : 2 * MS; net.ipv6 = choose(C_CFG, 3) != 1;
  int ips = 1 + choose(C_CFG, 2); std::vector<std::string> vi = { "10.0.0.1" }; if (ips == 2) vi.push_back("10.1.0.1"); w.hv = addHost("V", vi); int hq = addHost("Q", { "10.0.0.2" }), hr = addHost("R", { "10.0.0.3" }), ha = addHost("A", { "10.0.0.4" });
  w.grp = "Grp"; Station V(w.hv, genString(100, false)), Q(hq, "Query"); V.uuid = Uuid(1, 2, 3, 4); Q.uuid = Uuid(4, 3, 2, 1); RawPeer R(hr, "Grp", "Raw station", Uuid(7, 7, 7, 7)); R.start(); V.create(); V.reg(); V.connect("Grp"); Q.create(); Q.reg(); sleepNs(8 * SEC);
  int fd = -1; { On o(ha); fd = socket(AF_INET, SOCK_DGRAM, 0); int one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, &one, sizeof one); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(5353); if (bind(fd, (sockaddr*)&a, sizeof a)) internalError("attacker cannot bind"); }
  u64 lastQuery = 0; onUdp([&](int h, const std::string& d, u32, int) { if (d.size() < 12) return; if (h == w.hv && ((u8)d[2] & 0x80)) w.answers.push_back({ now(), d }); if ((h == w.hv || h == hq) && !((u8)d[2] & 0x80)) lastQuery = now(); });
  auto shoot = [&](const std::string& d, bool unicast, const std::string& ip) { On o(ha); sockaddr_in t{}; t.sin_family = AF_INET; t.sin_port = htons(5353); t.sin_addr.s_addr = inet_addr(unicast ? ip.c_str() : "224.0.0.251"); sendto(fd, d.data(), d.size(), 0, (sockaddr*)&t, sizeof t); };
  bool stop = false; u32 count = 30 + choose(C_CFG, 300), mode = choose(C_CFG, 3), burst = 1 + choose(C_CFG, 6), fm = choose(C_CFG, 3); size_t sent = 0;
  net.faultHost = w.hv; if (fm == 1) net.eintrP = 0.2; if (fm == 2) { net.eintrP = 0.05; net.udpDupP = 0.2; net.udpReorderP = 0.2; }
  int at = spawn(ha, "attacker", [&] { while (!stop && sent < count) { if (mode == 1) { u64 q0 = lastQuery; blockUntil([&] { return stop || lastQuery != q0; }, now() + 3 * SEC, "wait for a query"); sleepNs(range(C_FAULT, 0, 2000) * MS); } else sleepNs(range(C_FAULT, 1, 400) * MS);
      for (u32 i = 0; i < burst; i++) { std::string d = attackDatagram(w.grp); fault(F_UDP_FORGED); logev("forge %s", hex(d, 1500).c_str()); shoot(d, fc(4) == 1, fc(2) ? "10.0.0.1" : "10.0.0.2"); sent++; } } });
  // queries of the application while it goes on
  u32 qn = 1 + choose(C_OP, 5); for (u32 i = 0; i < qn; i++) { size_t n = 0; Station& s = choose(C_OP, 2) ? Q : V; setCpuBudget(80000000, "an mDNS query under attack"); u64 d = s.query(n); u64 bound = &s == &V ? 14 * SEC : 4 * SEC + 600 * MS; if (d > bound) violation("slow:query", "a query under attack took %.2f s", d / 1e9);
    std::vector<ConnArgs> v = s.list(n); if (v.size() != n) violation("index", "%zu services announced, %zu readable", n, v.size()); for (auto& e : v) { if (strnlen(e.StationName.fBuffer, 1024) >= 1024 || strnlen(e.Service.fBuffer, 1024) >= 1024) violation("unterminated", "a listed service has an unterminated name"); } 
    sleepNs(range(C_OP, 0, 8) * SEC);
    // a well-formed query in between is answered
    if (choose(C_OP, 2)) { size_t a0 = w.answers.size(); bool uni = choose(C_OP, 2); std::string q = mvrQuery(); if (uni) q[q.size() - 2] = (char)0x80; shoot(q, false, ""); u64 t0 = now(); auto hit = [&] { for (size_t k = a0; k < w.answers.size(); k++) if (w.answers[k].second.find(std::string("\3Grp")) != std::string::npos) return true; return false; }; if (!blockUntil(hit, t0 + 5 * SEC, "answer")) violation("silenced", "a well-formed query stays without an answer (%zu datagrams so far)", sent); } }
  joinTask(at); stop = true; net.eintrP = net.udpDupP = net.udpReorderP = 0; sleepNs(3 * SEC); setCpuBudget(~0ull, "");
  // ---- afterwards everything is as before
  for (int kind = 0; kind < 3; kind++) { size_t a0 = w.answers.size(); std::string q = mvrQuery(); if (kind == 1) q[q.size() - 2] = (char)0x80; if (kind == 2) { Dns d; d.u16_(0); d.u16_(0); d.u16_(1); d.u16_(0); d.u16_(0); d.u16_(0); d.name("_services._dns-sd._udp.local."); d.u16_(12); d.u16_(1); q = d.b; }
    shoot(q, false, ""); sleepNs(3 * SEC); bool hit = false; for (size_t k = a0; k < w.answers.size(); k++) if (w.answers[k].second.find(kind == 2 ? std::string("\xb_mvrxchange") : std::string("\3Grp")) != std::string::npos) hit = true; if (!hit) violation("silenced", "after the attack query kind %d stays without an answer", kind); }
  for (Station* s : { &Q, &V }) { size_t n = 0; s->query(n); if (s == &V) { s->query(n); } auto v = s->list(n); bool seeR = false, seeV = false; for (auto& e : v) { bool isR = e.StationUUID == R.uuid, isV = e.StationUUID == V.uuid; std::string ip = e.IPv4_list.empty() ? "" : e.IPv4_list[0].fBuffer;
      if (isR) { seeR = true; if (std::string(e.StationName.fBuffer) != R.name || e.Port != R.port || ip != hostIp(hr) || std::string(e.Service.fBuffer) != "Grp." + std::string(kSvc)) violation("wrong-entry", "after the attack the raw station is listed wrongly"); } else if (isV && s == &Q) { seeV = true; if (std::string(e.StationName.fBuffer) != V.name) violation("wrong-entry", "after the attack the station is listed with the name %s", hex(e.StationName.fBuffer, 100).c_str()); } else violation("leftover", "after the attack %s lists a service that nobody announces: %s %s", s == &Q ? "a querier" : "the station", e.Service.fBuffer, uuidStr(e.StationUUID).c_str()); }
    if (!seeR || (s == &Q && !seeV)) violation("blind", "after the attack %s lists %zu services (raw station %d, station %d)", s == &Q ? "a querier" : "the station", n, seeR, seeV); }
  nontrivial(); sample(std::to_string(sent) + " datagrams in bursts of " + std::to_string(burst) + ", mode " + std::to_string(mode) + ", faults " + std::to_string(fm) + ", " + std::to_string(qn) + " queries meanwhile");
  onUdp(nullptr); { On o(ha); close(fd); } V.release(); Q.release(); R.shutdown();
}
static Reg r({ "C06", "arbitrary mDNS datagrams", scenario, 6000, 400000, "runs until the time limit", "mDNS responder and querier, DNS decoding, TXT decoding, MVR-xchange service", "kernel sockets, clock, scheduler, attacker (simulated)", { "received datagrams are poisoned behind their last byte, so that reading bytes of an earlier datagram is seen as an overflow" } });
}
