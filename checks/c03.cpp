// C03: group membership follows the joins and leaves that happened.
#include "xlib.h"
using namespace xc;
namespace {
enum { NO = 0, YES = 1, UNSURE = 2 };
struct Node { StationP s; int host; Uuid uuid; std::string name; bool up = false; std::string grp; std::set<int> oldPorts; int port = 0; };
std::string filtered(const std::string& g) { std::string o; for (char c : g) if (isalnum((u8)c) || c == '-' || c == '_') o += c; return o; }
struct World {
  std::vector<Node> n; std::map<std::pair<int, int>, int> mem;   // (i,j): i believes j is in its group
  struct Conn { int from; std::string ip; int port; }; std::vector<Conn> conns; std::vector<std::shared_ptr<RawPeer>> strangers; u32 probes = 0; std::string hist;
  int nodeOfIp(const std::string& ip) { for (size_t i = 0; i < n.size(); i++) for (int k = 0; k < ipCount(n[i].host); k++) if (hostIp(n[i].host, k) == ip) return (int)i; return -1; }
};
void connectOne(World& w, int i, const std::string& grp) {
  Node& x = w.n[i]; u64 d = x.s->connect(grp); if (d > 60 * SEC) violation("slow:connect", "connect took %.1f s", d / 1e9);
  x.port = listenPort(x.host); x.oldPorts.erase(x.port); }
// model updates; `with` are the nodes that change state at the same time
void left(World& w, int i, bool told, const std::set<int>& with) {
  Node& x = w.n[i]; if (!x.up) return; if (x.port) x.oldPorts.insert(x.port); x.port = 0;
  for (size_t j = 0; j < w.n.size(); j++) { w.mem[{ i, (int)j }] = NO; if ((int)j == i) continue; int& m = w.mem[{ (int)j, i }]; if (!w.n[j].up) { m = NO; continue; } if (w.n[j].grp != x.grp) { if (m == YES) m = UNSURE; continue; } m = told && !with.count((int)j) ? NO : m == NO ? NO : UNSURE; }
  x.up = false; x.grp = ""; }
void joined(World& w, int i, const std::string& grp) {
  Node& x = w.n[i]; x.up = true; x.grp = filtered(grp);
  for (size_t j = 0; j < w.n.size(); j++) { if ((int)j == i) continue; bool same = w.n[j].up && w.n[j].grp == x.grp; w.mem[{ i, (int)j }] = same ? YES : NO; int& m = w.mem[{ (int)j, i }]; if (w.n[j].up) m = same ? YES : m == UNSURE ? UNSURE : NO; } }   // whoever kept a crashed station of its group is not told that it came back elsewhere
void probeAll(World& w) {
  for (size_t i = 0; i < w.n.size(); i++) {
    if (!w.n[i].s->has()) continue;
    for (auto& x : w.n) x.s->in.clear(); w.conns.clear();
    XMsg m; m.Type = MT::MVR_COMMIT; m.COMMIT.FileUUID = Uuid(0xF00, ++w.probes, 3, (u32)i); m.COMMIT.FileName = "probe";
    bool filter = choose(C_OP, 4) == 1; int only = filter ? (int)choose(C_OP, (u32)w.n.size()) : -1; if (filter) m.COMMIT.ForStationsUUID.push_back(w.n[only].uuid);
    u64 d = w.n[i].s->send(m); if (d > 32 * SEC) violation("slow:send", "send took %.1f s", d / 1e9);
    nontrivial();
    for (size_t j = 0; j < w.n.size(); j++) {
      size_t got = 0; for (auto& r : w.n[j].s->in) if (r.m.Type == MT::MVR_COMMIT && r.m.COMMIT.FileUUID == m.COMMIT.FileUUID) got++;
      if (i == j) { if (got) violation("self", "station %zu got its own message", i); continue; }
      int e = w.n[i].up ? w.mem[{ (int)i, (int)j }] : NO; if (e == YES && filter && (int)j != only) e = NO;
      size_t ips = ipCount(w.n[j].host); size_t tries = 0, old = 0; for (auto& c : w.conns) if (c.from == w.n[i].host && w.nodeOfIp(c.ip) == (int)j) { tries++; if (w.n[j].up && c.port != w.n[j].port) old++; }
      if (e == YES && got != ips) violation(got > ips ? "duplicate-member" : "missing-member", "message of station %zu reached member %zu %zu times, expected %zu (history: %s)", i, j, got, ips, w.hist.c_str());
      if (e == YES && tries != ips) violation("duplicate-member", "station %zu made %zu connections to member %zu, expected %zu (history: %s)", i, tries, j, ips, w.hist.c_str());
      if (e == YES && old) violation("stale-port", "station %zu still contacts an old port of %zu (history: %s)", i, j, w.hist.c_str());
      if (e == NO && got) violation("non-member", "message of station %zu reached %zu, which is not in its group (history: %s)", i, j, w.hist.c_str());
      if (e == NO && tries) violation(w.n[i].up ? "still-member" : "left-sends", "station %zu contacted %zu, which is not in its group any more (history: %s)", i, j, w.hist.c_str());
      if (e == UNSURE && got > ips) violation("duplicate-member", "message of station %zu reached %zu %zu times (history: %s)", i, j, got, w.hist.c_str()); }
    for (auto& st : w.strangers) for (auto& c : w.conns) if (c.from == w.n[i].host && c.ip == hostIp(st->host)) violation("stranger", "station %zu contacted a station of another service (history: %s)", i, w.hist.c_str());
  } }
void scenario() {
  quietLog(); randomSched(); calmNet(); net.latHi = choose(C_CFG, 2) ? 40 * MS : 2 * MS; World w;
  static const char* G[] = { "Grp", "Grp2", "Gr p!", "G-r_p" }; std::vector<std::string> groups; groups.push_back(G[0]); groups.push_back(G[1 + choose(C_CFG, 3)]);
  int n = 2 + choose(C_CFG, 3);
  for (int i = 0; i < n; i++) { Node x; std::vector<std::string> ips; int k = choose(C_CFG, 6) == 1 ? 2 : 1; for (int q = 0; q < k; q++) ips.push_back(choose(C_CFG, 8) == 1 ? "10." + std::to_string(i + 2) + "." + std::to_string(q) + ".127" : "10.1." + std::to_string(q) + "." + std::to_string(i + 1)); x.host = addHost(("N" + std::to_string(i)).c_str(), ips); x.name = choose(C_CFG, 4) == 1 ? genString(200, false) : "Node" + std::to_string(i); x.uuid = choose(C_CFG, 3) ? Uuid(i + 1, 0xfffffff0u - i, 7, i) : genUuid(); if (choose(C_CFG, 2)) x.uuid.a = 0x100 + i;  
    bool dup = false; for (auto& o : w.n) if (o.uuid == x.uuid) dup = true; if (dup) x.uuid.c ^= 0x5000 + i; if (x.uuid == Uuid(0, 0, 0, 0)) x.uuid.a = 77;
    x.s = std::make_shared<Station>(x.host, x.name); x.s->uuid = x.uuid; w.n.push_back(x); }
  onConnect([&](int h, const std::string& ip, int port) { w.conns.push_back({ h, ip, port }); });
  for (auto& x : w.n) { x.s->create(); x.s->reg(); }
  bool withStranger = choose(C_CFG, 3) == 1; u32 steps = 3 + choose(C_OP, 6);
  auto settle = [&] { sleepNs(range(C_OP, 10, 30) * SEC); if (choose(C_OP, 5) == 1) sleepNs(60 * SEC); };
  for (u32 st = 0; st < steps; st++) {
    u32 op = st == 0 ? 0 : choose(C_OP, 8); int i = st == 0 ? 0 : (int)choose(C_OP, n); Node& x = w.n[i];
    auto grpOf = [&] { return groups[choose(C_OP, 4) == 1 ? 1 : 0]; };
    if (op <= 2) { // connect (or reconnect)
      std::string g = grpOf(); w.hist += "c" + std::to_string(i) + (filtered(g) == "Grp" ? "A " : "B ");
      bool newId = x.up && choose(C_OP, 3) == 1; for (size_t j = 0; j < w.n.size(); j++) if (w.mem[{ (int)j, i }] == UNSURE) newId = false; if (newId) { x.uuid = Uuid(0x7000 + st, i, 3, 9); x.s->uuid = x.uuid; w.hist += "u "; } left(w, i, true, {}); if (newId && choose(C_OP, 2)) {} else if (choose(C_OP, 3) == 1) { size_t c; x.s->query(c); sleepNs(choose(C_OP, 30) * SEC); } connectOne(w, i, g); joined(w, i, g); settle(); }
    else if (op == 3) { w.hist += "l" + std::to_string(i) + " "; x.s->leave(); left(w, i, true, {}); settle(); }
    else if (op == 4) { // two or more stations connect at the same time
      std::set<int> who; who.insert(i); who.insert((int)choose(C_OP, n)); if (choose(C_OP, 3) == 1) for (int q = 0; q < n; q++) who.insert(q); std::string g = groups[0]; std::vector<int> ts; w.hist += "cc("; for (int q : who) w.hist += std::to_string(q); w.hist += ") ";
      for (int q : who) { if (w.n[q].up) { w.n[q].s->leave(); left(w, q, true, {}); } } settle();
      for (int q : who) { u64 dly = range(C_OP, 0, 6000) * MS; ts.push_back(spawn(w.n[q].host, "connector", [&w, q, g, dly] { sleepNs(dly); connectOne(w, q, g); })); }
      for (int t : ts) joinTask(t); for (int q : who) joined(w, q, g); settle(); }
    else if (op == 5) { // one leaves while another one connects
      int q = (int)choose(C_OP, n); if (q == i || !x.up) continue; std::string g = groups[0]; w.hist += "lc(" + std::to_string(i) + "," + std::to_string(q) + ") "; if (w.n[q].up) { w.n[q].s->leave(); left(w, q, true, {}); settle(); }
      u64 d1 = range(C_OP, 0, 7000) * MS; int t1 = spawn(w.n[q].host, "connector", [&w, q, g] { connectOne(w, q, g); }); int t2 = spawn(x.host, "leaver", [&x, d1] { sleepNs(d1); x.s->leave(); }); joinTask(t1); joinTask(t2);
      left(w, i, true, { q }); joined(w, q, g); w.mem[{ q, i }] = UNSURE; settle(); }
    else if (op == 6) { // crash without leaving, and come back with the same UUID
      if (!x.up) continue; bool power = choose(C_CRASH, 2); w.hist += std::string(power ? "P" : "K") + std::to_string(i) + " "; crashHost(x.host, power); left(w, i, false, {}); for (size_t j = 0; j < w.n.size(); j++) if (w.n[j].up && (int)j != i && w.mem[{ (int)j, i }] == YES) w.mem[{ (int)j, i }] = UNSURE;
      sleepNs(range(C_CRASH, 1, 60) * SEC); if (power) restartHost(x.host); x.s = std::make_shared<Station>(x.host, x.name); x.s->uuid = x.uuid; x.s->create(); x.s->reg(); std::string g = grpOf();
      connectOne(w, i, g); joined(w, i, g); settle(); }
    else if (op == 7 && withStranger && w.strangers.size() < 2) { // a station of another service, or one that announces nothing, sends a join
      int h = addHost("X", { "10.7.0." + std::to_string(w.strangers.size() + 1) }); auto r = std::make_shared<RawPeer>(h, choose(C_OP, 2) ? "Grpx" : "xGrp", "Stranger", Uuid(0x999, (u32)w.strangers.size(), 1, 1)); r->start(); if (choose(C_OP, 2)) r->answerMdns = false; w.hist += "X "; w.strangers.push_back(r);
      for (auto& y : w.n) if (y.up) r->join(hostIp(y.host), y.port); settle(); }
    else { sleepNs(range(C_OP, 1, 100) * SEC); }
    probeAll(w);
  }
  sample(w.hist); opCount(w.probes);
  for (auto& x : w.n) if (x.s->has()) x.s->release(); for (auto& r : w.strangers) r->shutdown();
}
static Reg r({ "C03", "group membership", scenario, 6000, 400000, "runs until the time limit", "MVR-xchange service, server, sessions, client, mDNS announcer and querier, boost.asio reactor", "kernel sockets, clock, scheduler, interfaces (simulated)", { "announcements and messages are delivered (no datagram loss in this scenario)", "one station per simulated machine" } });
}
