// C04: discovery lists what stations announced, and always terminates.
#include "xlib.h"
#include <string.h>
using namespace xc;
namespace {
struct Ann { std::string svc, name; Uuid uuid; std::vector<std::string> ips; int port = 0; int host = 0; u64 from = 0, to = NEVER; std::string self; };   // one announcement and when it was made
struct W { std::vector<Ann> ann; std::vector<StationP> st; std::vector<std::shared_ptr<RawPeer>> raw; };
std::string filtered(const std::string& g) { std::string o; for (char c : g) if (isalnum((u8)c) || c == '-' || c == '_') o += c; return o; }
bool nameOk(const std::string& got, const std::string& real) {   // the record has 255 bytes, so a long name arrives as a prefix of whole characters
  if (got == real) return true; return real.size() > 160 && got.size() >= 160 && real.compare(0, got.size(), got) == 0 && ((u8)real[got.size()] & 0xC0) != 0x80; }
std::string show(const ConnArgs& a) { std::string s = std::string(a.Service.fBuffer) + "|" + hex(a.StationName.fBuffer, 40) + "|" + uuidStr(a.StationUUID) + ":" + std::to_string(a.Port) + "@"; for (auto& i : a.IPv4_list) s += std::string(i.fBuffer) + ","; return s; }
void checkList(W& w, Station& q, size_t n, u64 t0, bool complete, const char* when) {
  On o(q.host); std::vector<ConnArgs> v;
  for (size_t i = 0; i < n; i++) { ConnArgs a; if ((*q.svc)->GetLocalServiceAt(i, a) != VectorworksMVR::kVCOMError_NoError) violation("index", "index %zu of %zu cannot be read %s", i, n, when); v.push_back(a); }
  size_t bad[] = { n, n + 1, n + 100, (size_t)-1 }; for (size_t b : bad) { ConnArgs a; a.Port = 4711; if ((*q.svc)->GetLocalServiceAt(b, a) == VectorworksMVR::kVCOMError_NoError) violation("index", "index %zu of %zu succeeds %s", b, n, when); }
  std::set<size_t> seen;
  for (auto& e : v) {
    size_t hit = w.ann.size(); std::string why = "no station announced this UUID";
    for (size_t k = 0; k < w.ann.size(); k++) { auto& a = w.ann[k]; if (!(a.uuid == e.StationUUID) || a.to < t0 || a.from > now()) continue;
      if (std::string(e.Service.fBuffer) != a.svc + "._mvrxchange._tcp.local.") { why = "service differs from " + a.svc; continue; } if (!nameOk(e.StationName.fBuffer, a.name)) { why = "name differs from " + hex(a.name, 300); continue; } if (e.Port != a.port) { why = "port differs from " + std::to_string(a.port); continue; }
      bool ipsOk = !e.IPv4_list.empty(); for (auto& i : e.IPv4_list) if (std::find(a.ips.begin(), a.ips.end(), std::string(i.fBuffer)) == a.ips.end()) ipsOk = false; if (!ipsOk) { why = "addresses differ"; continue; } hit = k; }
    if (hit == w.ann.size()) violation("entry", "listed %s: %s (%s)", show(e).c_str(), why.c_str(), when);
    if (w.ann[hit].self == "st" && w.ann[hit].host == q.host && w.ann[hit].uuid == q.uuid) violation("self", "the caller's own announcement is listed: %s (%s)", show(e).c_str(), when);
    if (!seen.insert(hit).second) violation("twice", "a station is listed twice: %s (%s)", show(e).c_str(), when); }
  if (complete) for (size_t k = 0; k < w.ann.size(); k++) { auto& a = w.ann[k]; if (a.uuid == q.uuid || a.from > t0 || a.to < now()) continue; if (!seen.count(k)) { std::string l; for (auto& e : v) l += show(e) + " "; violation("incomplete", "station %s (%s:%d) is announced but not listed %s; list: %s", uuidStr(a.uuid).c_str(), a.ips[0].c_str(), a.port, when, l.c_str()); } }
  if (!v.empty()) nontrivial();
}
void announced(W& w, Station& s) { Ann a; a.svc = filtered(s.group); a.name = s.name; a.uuid = s.uuid; for (int i = 0; i < ipCount(s.host); i++) a.ips.push_back(hostIp(s.host, i)); a.host = s.host; a.self = "st"; a.from = NEVER; w.ann.push_back(a); }
void scenario() {
  quietLog(); randomSched(); calmNet(); W w; net.latHi = choose(C_CFG, 2) ? 100 * MS : 2 * MS; u32 hosts = 2 + choose(C_CFG, 3), chaos = choose(C_CFG, 3); std::string desc;
  std::vector<int> hs; for (u32 h = 0; h < hosts; h++) { std::vector<std::string> ips; int k = choose(C_CFG, 4) == 1 ? 2 : 1; for (int q = 0; q < k; q++) ips.push_back(choose(C_CFG, 6) == 1 ? "10." + std::to_string(h + 1) + "." + std::to_string(q) + "." + std::to_string(choose(C_CFG, 2) ? 127 : 254) : "10.0." + std::to_string(q) + "." + std::to_string(h + 1)); hs.push_back(addHost(("H" + std::to_string(h)).c_str(), ips)); }
  static const char* G[] = { "Grp", "Grp2", "Gr", "Other group", "x_y-z", "0123456789012345678901234567890123456789012345678901234567890" };
  u32 uid = 1;
  auto newStation = [&](int host) { auto s = std::make_shared<Station>(host, choose(C_CFG, 3) ? genString(choose(C_CFG, 3) == 1 ? 1023 : 190, false) : "Station " + std::to_string(uid)); s->uuid = choose(C_CFG, 2) ? Uuid(uid, 2, 3, 4) : genUuid(); s->uuid.b ^= uid << 8; if (s->uuid == Uuid(0, 0, 0, 0)) s->uuid.a = 1; uid++; s->create(); s->reg(); w.st.push_back(s); return s; };
  auto connect = [&](Station& s, const std::string& g) { s.group = g; announced(w, s); Ann* a = &w.ann.back(); size_t k = w.ann.size() - 1; (void)a; u64 d = s.connect(g); if (d > 60 * SEC) violation("slow:connect", "connect took %.1f s", d / 1e9); w.ann[k].port = listenPort(s.host); for (int p : std::vector<int>{ w.ann[k].port }) (void)p; w.ann[k].from = now(); };
  // stations, one or two per machine
  for (u32 h = 0; h < hosts; h++) { u32 n = h == 0 ? 1 : choose(C_CFG, 4) == 1 ? 2 : 1; for (u32 q = 0; q < n; q++) { if (h > 0 && q == 0 && choose(C_CFG, 4) == 1) { // a peer of another make
          auto r = std::make_shared<RawPeer>(hs[h], G[choose(C_CFG, 2)], genString(180, false), Uuid(uid, 9, 9, 9)); uid++; r->start(); w.raw.push_back(r); Ann a; a.svc = r->group; a.name = r->name; a.uuid = r->uuid; for (int z = 0; z < ipCount(hs[h]); z++) a.ips.push_back(hostIp(hs[h], z)); a.port = r->port; a.host = hs[h]; a.from = now(); w.ann.push_back(a); desc += "raw "; continue; }
        auto s = newStation(hs[h]); if (h == 0) continue; std::set<int> before; 
        s->group = G[choose(C_CFG, 6)]; Ann a; announced(w, *s); size_t k = w.ann.size() - 1; 
        std::vector<int> known; for (auto& x : w.ann) if (x.host == hs[h]) known.push_back(x.port);
        s->connect(s->group); for (int p = 1024; p < 65536; p++) if (listening(hs[h], p) && std::find(known.begin(), known.end(), p) == known.end()) w.ann[k].port = p; w.ann[k].from = now(); desc += "st@" + std::to_string(h) + "/" + s->group.substr(0, 8) + " "; } }
  sleepNs(3 * SEC);
  Station& q = *w.st[0]; bool qConnected = false;
  auto calm = [&] { net.udpLossP = net.udpDupP = net.udpReorderP = net.eintrP = net.ifaddrFailP = net.sockFailP = net.udpSendFailP = 0; };
  auto storm = [&] { if (chaos == 0) return; if (chaos == 1) { net.udpLossP = 0.3; net.udpDupP = 0.3; net.udpReorderP = 0.3; } else { net.faultHost = q.host; net.eintrP = 0.2; net.ifaddrFailP = 0.2; net.sockFailP = 0.1; net.udpDupP = 0.2; net.udpSendFailP = 0.2; } };
  u32 steps = 2 + choose(C_OP, 5); bool twice = choose(C_CFG, 2);
  for (u32 i = 0; i < steps; i++) {
    u32 op = i == 0 ? 0 : choose(C_OP, 9);
    if (op <= 3) { bool st = chaos && choose(C_OP, 2); if (st) storm(); u64 t0 = now(); size_t n = 0; std::vector<int> ts; size_t n2 = 0;
      if (op == 3) ts.push_back(spawn(q.host, "query2", [&] { u64 d2 = q.query(n2); if (d2 > 14 * SEC) violation("slow:query", "a concurrent query took %.1f s", d2 / 1e9); }));
      u64 d = q.query(n); for (int t : ts) joinTask(t); calm(); u64 bound = qConnected ? 14 * SEC : 4 * SEC + 600 * MS; if (d > bound) violation("slow:query", "a query took %.2f s (connected: %d)", d / 1e9, qConnected);
      if (qConnected || op == 3) { calm(); size_t m = 0; if (st) { q.query(m); n = m; t0 = now() - 5 * SEC; } else if (op == 3) { q.query(n); } t0 = std::min(t0, now()); }
      desc += st ? "Q! " : "Q "; checkList(w, q, n, t0, !st || qConnected, st ? "in a storm" : "on a calm network"); }
    else if (op == 4) { if (qConnected) { q.leave(); for (auto& a : w.ann) if (a.uuid == q.uuid && a.to == NEVER) a.to = now(); qConnected = false; desc += "leave "; } else { connect(q, G[choose(C_CFG, 4)]); for (auto& a : w.ann) (void)a; qConnected = true; desc += "connect "; sleepNs(8 * SEC); } }
    else if (op == 5) { size_t k = choose(C_OP, (u32)w.st.size()); Station& s = *w.st[k]; if (k && s.connected) { s.leave(); for (auto& a : w.ann) if (a.uuid == s.uuid && a.to == NEVER) a.to = now(); desc += "gone "; } }
    else if (op == 6) { jumpWall(q.host, (i64)(range(C_FAULT, 0, 7200)) * (i64)SEC - 3600 * (i64)SEC); desc += "jump "; }
    else if (op == 7) { u64 s = range(C_OP, 1, 200) * SEC; sleepNs(s); }
    else { // background refresh: its pace over ten idle minutes
      if (!qConnected) continue; sleepNs(60 * SEC); std::set<u64> ticks; u64 cnt = 0; onUdp([&](int h, const std::string& d, u32, int) { if (h == q.host && d.size() > 12 && !((u8)d[2] & 0x80)) { cnt++; ticks.insert(now() / (3 * SEC)); } });
      bool jump = choose(C_OP, 2); u64 t0 = now(); for (int m = 0; m < 10; m++) { sleepNs(60 * SEC); if (jump) jumpWall(q.host, (i64)range(C_FAULT, 0, 4000) * (i64)SEC - 2000 * (i64)SEC); } onUdp(nullptr); u64 el = (now() - t0) / SEC; size_t perTick = 0; for (auto& s : w.st) if (s->host == q.host && s->connected) perTick += ipCount(q.host);
      u64 maxQ = (el / 45 + 2) * perTick, minQ = (el / 52 - 1) * perTick; if (cnt > maxQ) violation("refresh-pace", "%llu background queries in %llu s, expected at most %llu", (unsigned long long)cnt, (unsigned long long)el, (unsigned long long)maxQ); if (cnt < minQ) violation("refresh-dead", "%llu background queries in %llu s, expected at least %llu", (unsigned long long)cnt, (unsigned long long)el, (unsigned long long)minQ);
      desc += "idle "; nontrivial(); }
  }
  (void)twice; calm();
  { sleepNs(5 * SEC); u64 t0 = now(); size_t n = 0; u64 d = q.query(n); if (d > 14 * SEC) violation("slow:query", "last query took %.1f s", d / 1e9); checkList(w, q, n, t0, true, "after the faults"); }
  sample(desc); for (auto& s : w.st) s->release(); for (auto& r : w.raw) r->shutdown();
}
static Reg r({ "C04", "discovery", scenario, 6000, 400000, "runs until the time limit", "MVR-xchange service, mDNS announcer and querier, boost.asio timers", "kernel sockets, clocks, interfaces, scheduler (simulated)", { "addresses of the machines do not change during a run", "group names fit into one DNS label" } });
}
