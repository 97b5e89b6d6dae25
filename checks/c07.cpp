// C07: connecting, leaving and destroying a station always terminates and cleans up.
#include "xlib.h"
#include <set>
#include <unistd.h>
using namespace xc;
namespace {
struct W { std::vector<StationP> peers; std::vector<std::shared_ptr<RawPeer>> raws; bool stop = false; std::vector<int> tasks; int hv = 0; std::string hist; u64 mdnsFromV = 0; u64 lastMdnsFromV = 0; };
const u64 BOUND = 150 * SEC;     // of any lifecycle call: joins, one send to every member and one query, each with its own limits
std::string filtered(const std::string& g) { std::string o; for (char c : g) if (isalnum((u8)c) || c == '-' || c == '_') o += c; return o; }
void calm() { int fh = net.faultHost; double lat = 0; (void)lat; u64 hi = net.latHi; net = NetCfg(); net.latHi = hi; net.faultHost = fh; sched.threadFailProb = 0; }
void scenario() {
  quietLog(); randomSched(); calmNet(); W w; net.latHi = choose(C_CFG, 2) ? 60 * MS : 2 * MS; u32 chaos = choose(C_CFG, 4);   // 0 none, 1 network, 2 own machine, 3 both
  std::vector<std::string> vi = { "10.0.0.1" }; if (choose(C_CFG, 4) == 1) vi.push_back("10.1.0.1"); int hv = w.hv = addHost("V", vi); int np = 1 + choose(C_CFG, 2), nr = choose(C_CFG, 2);
  onUdp([&](int h, const std::string& d, u32, int) { if (h == hv && d.size() > 12 && ((u8)d[2] & 0x80)) { w.mdnsFromV++; w.lastMdnsFromV = now(); } });
  for (int i = 0; i < np; i++) { int h = addHost(("P" + std::to_string(i)).c_str(), { "10.0.1." + std::to_string(i + 1) }); auto s = std::make_shared<Station>(h, "Peer" + std::to_string(i)); s->uuid = Uuid(0x50 + i, 1, 1, 1); s->provider = "P"; s->create(); s->reg(); s->connect("Grp"); w.peers.push_back(s); if (choose(C_CFG, 3) == 1) s->callbackDelayMax = 3 * SEC; }
  for (int i = 0; i < nr; i++) { int h = addHost("R", { "10.0.2." + std::to_string(i + 1) }); auto r = std::make_shared<RawPeer>(h, "Grp", "Raw", Uuid(0x90 + i, 1, 1, 1)); r->start(); w.raws.push_back(r); }
  sleepNs(12 * SEC);
  // peers are active all the time: they send, query, and dribble bytes at whatever port the station has
  for (auto& p : w.peers) { u64 iv = (1 + choose(C_CFG, 8)) * SEC; StationP s = p; bool q = choose(C_CFG, 3) == 1; w.tasks.push_back(spawn(s->host, "peer-activity", [&w, s, iv, q] { u32 k = 0; while (!w.stop) { sleepNs(iv); XMsg m; m.Type = MT::MVR_COMMIT; m.COMMIT.FileUUID = Uuid(0xC0, ++k, 0, 1); if (!w.stop) s->send(m); if (q && !w.stop) { size_t n; s->query(n); } } })); }
  bool slowloris = choose(C_CFG, 3) == 1; if (slowloris) { int ha = addHost("A", { "10.0.3.1" }); w.tasks.push_back(spawn(ha, "half-sender", [&w, hv] { std::vector<int> fds; u32 stall = 1 + choose(C_FAULT, 20); while (!w.stop) { sleepNs(stall * SEC / 2); int p = listenPort(hv); if (p <= 0) continue; int f = tcpConnect(hostIp(hv), p); if (f < 0) continue; Packet k; k.body = joinJson("x", "Half", uuidStr(Uuid(7, 7, 7, 7)), 1, 1); std::string b = k.bytes(); sendFor(f, b.substr(0, choose(C_FAULT, (u32)b.size())), SEC); fault(F_PEER_STALL); fds.push_back(f); if (fds.size() > 6) { close(fds[0]); fds.erase(fds.begin()); } } for (int f : fds) close(f); })); }
  auto storm = [&] { if (chaos & 1) { net.tcpDelayP = 0.1; net.synLossP = 0.2; net.udpLossP = 0.3; net.udpDupP = 0.2; net.rstP = 0.02; } if (chaos & 2) { net.faultHost = hv; sched.threadFailHost = hv; u32 m = 1 + choose(C_FAULT, 31); if (m & 16) net.udpSendFailP = 0.2; if (m & 1) net.sockFailP = 0.15; if (m & 2) net.eintrP = 0.15; if (m & 4) sched.threadFailProb = 0.15; if (m & 8) { net.ifaddrFailP = 0.3; net.acceptAbortP = 0.2; net.emfileP = 0.2; } } if (chaos & 1 && choose(C_FAULT, 3) == 1) { isolate(hv, true); fault(F_PARTITION); } };
  auto heal = [&] { if (chaos & 1) isolate(hv, false); calm(); };
  auto V = std::make_shared<Station>(hv, "V"); V->uuid = Uuid(0xAA, 2, 3, 4); V->provider = "P"; bool nested = choose(C_CFG, 4) == 1; bool slowCb = choose(C_CFG, 3) == 1; if (slowCb) V->callbackDelayMax = 5 * SEC;
  auto gone = [&](const char* when) { if (w.hist.empty()) return;
    if (int n = openFds(hv)) violation("fd-left", "%d descriptors of the station are open %s (%s): %s", n, when, w.hist.c_str(), fdReport(hv).c_str());
    if (int n = liveTasks(hv)) violation("thread-left", "%d threads of the station run %s (%s)\n%s", n, when, w.hist.c_str(), dumpTasks().c_str()); };
  auto silent = [&](const char* when) { if (int p = listenPort(hv)) if (p > 0) violation("still-listening", "port %d still accepts connections %s (%s)", p, when, w.hist.c_str()); u64 t = now(), c = w.mdnsFromV; (void)t;
    int hp = w.peers[0]->host; (void)hp; if (choose(C_OP, 2)) { size_t n; w.peers[0]->query(n); } else sleepNs(6 * SEC); if (w.mdnsFromV != c) violation("still-announced", "the station still answers discovery %s (%s)", when, w.hist.c_str()); };
  auto reach = [&] { // after the faults a fresh connection works like the first one
    XMsg m; m.Type = MT::MVR_COMMIT; m.COMMIT.FileUUID = Uuid(0xBEEF, (u32)w.hist.size(), 1, 1); for (auto& p : w.peers) p->in.clear(); V->send(m);
    for (auto& p : w.peers) { size_t c = 0; for (auto& r : p->in) if (r.m.Type == MT::MVR_COMMIT && r.m.COMMIT.FileUUID == m.COMMIT.FileUUID) c++; if (c != 1) violation("reconnect:send", "after connecting the message of the station reached a peer %zu times (%s)", c, w.hist.c_str()); }
    size_t n = 0; w.peers[0]->query(n); bool seen = false; for (auto& e : w.peers[0]->list(n)) if (e.StationUUID == V->uuid) seen = true; if (!seen) violation("reconnect:announced", "after connecting the station is not listed by a peer (%s)", w.hist.c_str());
    int p = listenPort(hv); XMsg q; q.Type = MT::MVR_COMMIT; q.COMMIT.FileUUID = Uuid(0xFEED, (u32)w.hist.size(), 1, 1); V->in.clear(); int hp = w.peers[0]->host; (void)p; (void)hp; w.peers[0]->send(q); size_t c = 0; for (auto& r : V->in) if (r.m.Type == MT::MVR_COMMIT && r.m.COMMIT.FileUUID == q.COMMIT.FileUUID) c++; size_t want = ipCount(hv); if (c != want) violation("reconnect:receive", "after connecting a message of a peer reached the station %zu times, expected %zu (%s)", c, want, w.hist.c_str()); nontrivial(); };
  auto bounded = [&](const char* what, u64 d) { if (d > BOUND) violation(std::string("slow:") + what, "%s took %.1f s (%s)", what, d / 1e9, w.hist.c_str()); };
  static const char* G[] = { "Grp", "Grp2", "", "G r p" };
  u32 objects = 1 + choose(C_OP, 3);
  for (u32 o = 0; o < objects; o++) {
    V->in.clear(); V->ret.clear(); V->create(); if (choose(C_OP, 5) != 1) V->reg();
    if (nested) V->reply = [&](const XMsg& m) { if (m.Type == MT::MVR_COMMIT && m.COMMIT.FileUUID.a == 0xC0 && V->has() && m.COMMIT.FileUUID.b % 5 == 0) { XMsg x; x.Type = MT::MVR_COMMIT; x.COMMIT.FileUUID = Uuid(0xD0, 0, 0, 1); V->send(x); } return okReply(m, *V); };
    u32 steps = choose(C_OP, 7); bool stormy = false; w.hist += "new ";
    for (u32 st = 0; st < steps; st++) {
      if (chaos && choose(C_OP, 2)) { storm(); stormy = true; w.hist += "! "; }
      u32 op = choose(C_OP, 8); u64 pause = range(C_OP, 0, 4) * range(C_OP, 0, 5000) * MS;
      if (op <= 2) { const char* g = G[choose(C_OP, 4) == 1 ? choose(C_OP, 4) : 0]; w.hist += std::string("connect(") + g + ") "; bounded("connect", V->connect(g)); }
      else if (op == 3 || op == 4) { w.hist += "leave "; bounded("leave", V->leave()); heal(); if (stormy) sleepNs(5 * SEC); silent("after leaving"); }
      else if (op == 5) { w.hist += "query "; size_t n = 0; bounded("query", V->query(n)); V->list(n + 1); }
      else if (op == 6) { w.hist += "send "; bounded("send", V->send(genMessage(MT::MVR_COMMIT))); }
      else { pause += 50 * SEC; w.hist += "wait "; }
      if (choose(C_OP, 3) == 1) { heal(); stormy = false; }
      sleepNs(pause); }
    bool lastGood = choose(C_OP, 2);
    if (lastGood) { heal(); if (V->connected) { V->leave(); } nested = false; V->reply = nullptr; V->callbackDelayMax = 0; for (auto& p : w.peers) p->callbackDelayMax = 0; V->reg(); sleepNs(60 * SEC); w.hist += "connect "; bounded("connect", V->connect("Grp")); sleepNs(15 * SEC); reach(); if (slowCb) V->callbackDelayMax = 5 * SEC; }
    else if (chaos && choose(C_OP, 2)) storm();
    w.hist += "release "; bounded("release", V->release()); gone("after releasing the object"); nontrivial(); heal(); silent("after releasing the object"); if (choose(C_OP, 2)) sleepNs(range(C_OP, 0, 30) * SEC);
  }
  w.stop = true; for (int t : w.tasks) joinTask(t); sample(w.hist);
  for (auto& p : w.peers) { int h = p->host; p->release(); if (openFds(h)) violation("fd-left", "%d descriptors of a peer are open after its release: %s", openFds(h), fdReport(h).c_str()); if (liveTasks(h)) violation("thread-left", "threads of a peer run after its release"); }
  for (auto& r : w.raws) r->shutdown();
}
static Reg r({ "C07", "connecting, leaving and releasing", scenario, 6000, 400000, "runs until the time limit", "MVR-xchange service, server, sessions, client, mDNS announcer and querier, boost.asio reactor", "kernel sockets, clock, scheduler, interfaces (simulated)", { "lifecycle calls of one object are made from one thread", "the object is created while descriptors are available" } });
}
