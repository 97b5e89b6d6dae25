// C02: sending finishes in bounded time and isolates failing peers.
#include "xlib.h"
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
using namespace xc;
namespace {
enum Kind { GOOD, REFUSE, VANISH, CLOSE_NOW, STALL_ACCEPT, STALL_NOREAD, CUT_ANSWER, STALL_ANSWER, RST_ANSWER, BAD_FLAG, HUGE_LEN, GARBAGE, DRIBBLE_SLOW, DRIBBLE_OK, WRONG_TYPE, LATE_OK, KINDS };
const char* kName[] = { "good", "refuse", "vanish", "close", "stall", "noread", "cut", "stall-answer", "rst", "badflag", "huge", "garbage", "dribble-slow", "dribble", "odd", "late" };
struct Peer { std::shared_ptr<RawPeer> p; Kind k = GOOD; Kind next = GOOD; u32 n = 0; std::vector<std::string> answers; std::vector<u64> sentAt; size_t requests = 0; };   // answers: texts of the answers it completely gave
struct W { std::vector<std::shared_ptr<Peer>> peers; bool ending = false; };
void rstClose(int fd) { struct linger l = { 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
void behave(W* w, Peer* p, int fd) {
  Kind k = p->k; u32 id = p->n++; auto idle = [&](u64 s) { u64 e = now() + s * SEC; while (!w->ending && now() < e) sleepNs(SEC); };
  if (k == CLOSE_NOW) { fault(F_PEER_GARBAGE); if (choose(C_FAULT, 2)) rstClose(fd); return; }
  if (k == STALL_NOREAD) { fault(F_PEER_STALL); idle(60); return; }
  if (k == STALL_ACCEPT) { fault(F_PEER_STALL); u32 n = choose(C_FAULT, 40); std::string d; recvAll(fd, d, n, now() + 5 * SEC); idle(60); return; }
  Packet q; if (!readPacket(fd, q, now() + 30 * SEC)) return; p->requests++; p->p->got.push_back(q);
  std::string tag = p->p->name + "#" + std::to_string(id); Packet a; a.body = retJson(q.body, true, tag, *p->p); std::string bytes = a.bytes();
  auto done = [&] { p->answers.push_back(tag); p->sentAt.push_back(now()); };
  switch (k) {
    case GOOD: if (sendAll(fd, bytes)) done(); break;
    case LATE_OK: sleepNs(range(C_FAULT, 1, 9) * SEC + range(C_FAULT, 0, 900) * MS); if (sendAll(fd, bytes)) done(); fault(F_PEER_STALL); break;
    case CUT_ANSWER: case STALL_ANSWER: case RST_ANSWER: { if (choose(C_FAULT, 3) == 1) { a.lieLen = true; a.len = a.body.size() + (1ull << choose(C_FAULT, 27)); bytes = a.bytes(); } u32 n = choose(C_FAULT, 3) ? choose(C_FAULT, (u32)bytes.size()) : choose(C_FAULT, 29); sendAll(fd, bytes.substr(0, n)); fault(k == STALL_ANSWER ? F_PEER_STALL : F_PEER_GARBAGE);
      if (k == STALL_ANSWER) idle(60); if (k == RST_ANSWER) { sleepNs(choose(C_FAULT, 50) * MS); rstClose(fd); } break; }
    case BAD_FLAG: { fault(F_PEER_GARBAGE); std::string g; u32 n = choose(C_FAULT, 200); for (u32 i = 0; i < n; i++) g += (char)choose(C_FAULT, 256); if (choose(C_FAULT, 2)) { a.flag = genU32() ^ 1; g = a.bytes(); } if (g.substr(0, 4) == bytes.substr(0, 4)) g[0] ^= 0x55; sendAll(fd, g); if (choose(C_FAULT, 2)) idle(25); break; }
    case HUGE_LEN: { fault(F_PEER_GARBAGE); static const u64 L[] = { 1ull << 31, 1ull << 32, ~0ull, 1ull << 63, ~0ull - 27, ~0ull - 28, 300000000ull, 1ull << 40, 0x7fffffffffffffffull }; a.lieLen = true; a.len = L[choose(C_FAULT, 9)]; sendAll(fd, a.bytes()); if (choose(C_FAULT, 2)) idle(60); break; }
    case GARBAGE: case WRONG_TYPE: { fault(F_PEER_GARBAGE); static const char* G[] = { "", "{", "null", "[]", "{\"Type\":5}", "{\"Type\":\"MVR_COMMIT\"}", "{\"Type\":\"MVR_JOIN_RET\",\"OK\":\"x\"}", "\"abc\"", "{\"Type\":\"MVR_COMMIT_RET\",\"OK\":true,\"Message\":7}", "{\"Type\":\"MVR_NOPE\"}", "\xff\xfe{\"Type\":\"MVR_LEAVE_RET\"}" };
      a.body = G[choose(C_FAULT, 11)]; a.type = k == WRONG_TYPE ? genU32() : 0; if (choose(C_FAULT, 3) == 1) { std::string g; u32 n = choose(C_FAULT, 300); for (u32 i = 0; i < n; i++) g += (char)choose(C_FAULT, 256); a.body = g; } sendAll(fd, a.bytes()); p->answers.push_back("?"); break; }
    case DRIBBLE_SLOW: { fault(F_PEER_STALL); for (char c : bytes) { if (w->ending) break; if (!sendAll(fd, std::string(1, c))) break; sleepNs(500 * MS); } break; }
    case DRIBBLE_OK: { size_t i = 0; bool ok = true; for (; i < bytes.size() && ok; i += 1 + i / 8) { ok = sendAll(fd, bytes.substr(i, 1 + i / 8)); if (ok && i + 1 + i / 8 >= bytes.size()) done(); sleepNs(20 * MS); } break; }
    default: break; }
}
void scenario() {
  quietLog(); randomSched(); W w; calmNet(); net.latHi = choose(C_CFG, 2) ? 30 * MS : 2 * MS; if (choose(C_CFG, 4) == 1) net.rxCap = 4096;
  bool local = choose(C_CFG, 4) == 1;      // failures of the sender's own machine
  int np = 1 + choose(C_CFG, 5), nreal = 1 + choose(C_CFG, 2);
  int hs = addHost("S", { "10.0.0.1" }); Station S(hs, "Sender"); S.uuid = Uuid(9, 9, 9, 9); S.provider = "P";
  std::vector<StationP> real; for (int i = 0; i < nreal; i++) { int h = addHost(("R" + std::to_string(i)).c_str(), { "10.0.1." + std::to_string(i + 1) }); auto s = std::make_shared<Station>(h, "Real" + std::to_string(i)); s->uuid = Uuid(0x50 + i, 1, 1, 1); s->provider = "P"; real.push_back(s); s->create(); s->reg(); s->connect("Grp"); }
  std::vector<int> ports; std::string desc;
  for (int i = 0; i < np; i++) { int h = addHost(("P" + std::to_string(i)).c_str(), { "10.0.2." + std::to_string(i + 1) }); auto p = std::make_shared<Peer>(); p->p = std::make_shared<RawPeer>(h, "Grp", "Peer" + std::to_string(i), Uuid(0x90 + i, 2, 2, 2)); Peer* q = p.get(); p->p->behave = [&w, q](int fd) { behave(&w, q, fd); }; p->p->start(); w.peers.push_back(p); p->k = choose(C_CFG, 3) ? GOOD : (Kind)choose(C_CFG, KINDS); if (p->k == REFUSE || p->k == VANISH) p->k = GOOD; }
  sleepNs(2 * SEC);
  S.create(); S.reg(); u64 d = S.connect("Grp"); if (d > 50 * SEC) violation("slow:connect", "connect took %.1f s", d / 1e9);
  sleepNs(25 * SEC); S.ret.clear(); for (auto& p : w.peers) p->answers.clear();   // late answers of the join cannot arrive any more
  std::vector<int> cutHosts; u32 sends = 1 + choose(C_OP, 3);
  for (u32 round = 0; round < sends; round++) {
    desc += "[";
    for (auto& p : w.peers) { p->k = choose(C_FAULT, 4) ? (Kind)choose(C_FAULT, KINDS) : GOOD; desc += std::string(kName[p->k]) + " "; p->answers.clear(); p->sentAt.clear(); p->requests = 0;
      if (p->k == REFUSE) { fault(F_TCP_REFUSED); On o(p->p->host); shutdown(p->p->lfd, SHUT_RDWR); }
      if (p->k == VANISH) { partition(hs, p->p->host, true); cutHosts.push_back(p->p->host); } }
    // a refusing peer: nothing listens on its port
    std::vector<Peer*> mute; for (auto& p : w.peers) if (p->k == REFUSE) mute.push_back(p.get());
    for (auto* p : mute) { p->p->stop = true; } // its acceptor ends; the socket is closed below
    if (!mute.empty()) { sleepNs(3 * SEC); for (auto* p : mute) { On o(p->p->host); close(p->p->lfd); p->p->lfd = -1; } }
    bool midCut = choose(C_FAULT, 4) == 1; int victim = (int)choose(C_FAULT, np); if (midCut) { int vh = w.peers[victim]->p->host; u64 t = now() + range(C_FAULT, 0, 40) * MS; bool rst = choose(C_FAULT, 2); at(t, [=] { if (rst) resetAllConnections(vh, 1.0); else partition(hs, vh, true); }); cutHosts.push_back(vh); desc += "cut" + std::to_string(victim) + " "; }
    if (local) { net.faultHost = hs; sched.threadFailHost = hs; u32 m = choose(C_FAULT, 7) + 1; if (m & 1) net.sockFailP = 0.3; if (m & 2) sched.threadFailProb = 0.4; if (m & 4) net.eintrP = 0.1; desc += "local" + std::to_string(m) + " "; }
    for (auto& s : real) s->in.clear();
    S.ret.clear();
    XMsg m; Uuid mark(0xAB, round, 1, 7);
    if (choose(C_OP, 3) == 1) { m.Type = MT::MVR_JOIN; m.JOIN.StationName = "Sender"; m.JOIN.Provider = "P"; m.JOIN.StationUUID = S.uuid; u32 nc = choose(C_OP, 30) * 10; for (u32 i = 0; i < nc; i++) { Svc::MVR_COMMIT_MESSAGE c; c.FileName = genString(200).c_str(); c.Comment = "c"; m.JOIN.Commits.push_back(c); } m.JOIN.VersionMajor = round; }
    else { m = genMessage(choose(C_OP, 2) ? MT::MVR_REQUEST : MT::MVR_COMMIT); m.COMMIT.ForStationsUUID.clear(); m.REQUEST.FromStationUUID.clear(); if (m.Type == MT::MVR_COMMIT) m.COMMIT.FileUUID = mark; else m.REQUEST.FileUUID = mark; }
    Content want = contentOf(m);
    u64 t0 = now(); size_t npeers = np + nreal; u64 bound = 31 * SEC + 500 * MS; if (local) bound *= npeers + 1;
    u64 dur = S.send(m, choose(C_OP, 2)); net.sockFailP = 0; sched.threadFailProb = 0; net.eintrP = 0;
    if (dur > bound) violation("slow:send", "send took %.2f s with peers %s (bound %.1f s)", dur / 1e9, desc.c_str(), bound / 1e9);
    // ---- healthy real stations: message received once, answer returned once
    for (auto& s : real) { size_t got = 0; for (auto& r : s->in) if (r.c == want) got++; size_t ans = 0; XMsg rep = okReply(m, *s); Content rc = contentOf(rep); for (auto& r : S.ret) if (r.got == rc && (m.Type != MT::MVR_JOIN || r.gotMsg.JOIN.StationUUID == s->uuid)) ans++;
      if (got > 1) violation("duplicate", "healthy station got the message %zu times", got);
      if (!local && got != 1) violation("isolation:lost", "healthy station did not get the message while other peers were %s", desc.c_str());
      if (!local && m.Type == MT::MVR_JOIN && ans != 1) violation("isolation:answer", "answer of a healthy station arrived %zu times while other peers were %s", ans, desc.c_str()); 
      if (!local && m.Type != MT::MVR_JOIN && ans < real.size()) violation("isolation:answer", "answers of healthy stations arrived %zu times, expected %zu, while other peers were %s", ans, real.size(), desc.c_str()); }
    // ---- return callbacks only for answers really given
    size_t fromReal = 0; std::map<std::string, int> seen; size_t odd = 0;
    for (auto& r : S.ret) { if (r.sent == want) {} else violation("answer-misfiled", "an answer was reported for a different message: %s", want.diff(r.sent).c_str());
      std::string tag = r.gotMsg.RetError.fBuffer; if (tag.compare(0, 4, "Peer") == 0 && tag.find('#') != std::string::npos) { seen[tag]++; continue; }
      bool isReal = false; for (auto& s : real) if (r.got == contentOf(okReply(m, *s)) && (m.Type != MT::MVR_JOIN || r.gotMsg.JOIN.StationUUID == s->uuid)) isReal = true; if (isReal) { fromReal++; continue; }
      odd++; }
    size_t maxOdd = 0; for (auto& p : w.peers) for (auto& a : p->answers) if (a == "?") maxOdd++;
    if (fromReal > real.size() + maxOdd) violation("answer-invented", "%zu answers of %zu healthy stations", fromReal, real.size());
    if (odd > maxOdd) { std::string x; for (auto& r : S.ret) x += std::string(typeName(r.got.type)) + "/" + r.gotMsg.RetError.fBuffer + " "; violation("answer-invented", "%zu answers were reported that no peer gave (peers %s; %zu garbage answers): %s", odd, desc.c_str(), maxOdd, x.c_str()); }
    for (auto& kv : seen) { bool given = false; for (auto& p : w.peers) for (auto& a : p->answers) if (a == kv.first) given = true; if (!given) violation("answer-invented", "answer %s was reported, its peer never completed it", kv.first.c_str()); if (kv.second > 1) violation("answer-twice", "answer %s was reported %d times", kv.first.c_str(), kv.second); }
    if (!local) for (size_t i = 0; i < w.peers.size(); i++) { auto& p = w.peers[i]; if (midCut && (int)i == victim) continue; if (p->k != GOOD && p->k != DRIBBLE_OK && p->k != LATE_OK) continue; if (std::find(cutHosts.begin(), cutHosts.end(), p->p->host) != cutHosts.end()) continue; 
        if (p->requests != 1) violation("isolation:lost", "healthy peer %s got %zu requests while peers were %s", p->p->name.c_str(), p->requests, desc.c_str());
        if (p->k == LATE_OK && p->answers.empty()) continue; // it answered after the limit
        bool got = false; for (auto& a : p->answers) if (seen.count(a)) got = true; if (!got) violation("isolation:answer", "answer of healthy peer %s (%s) did not arrive while peers were %s", p->p->name.c_str(), kName[p->k], desc.c_str()); }
    probe(dur > 20 * SEC ? "send_20s" : dur > 9 * SEC ? "send_10s" : dur > SEC ? "send_1s" : "send_fast");
    nontrivial();
    // heal for the next round
    for (auto* p : mute) { On o(p->p->host); p->p->stop = false; p->k = GOOD; partition(hs, p->p->host, true); cutHosts.push_back(p->p->host); }
    sleepNs(20 * SEC); desc += "] ";
    if (!mute.empty()) break;
  }
  sample("peers: " + desc);
  w.ending = true; for (int h : cutHosts) partition(hs, h, false); sleepNs(3 * SEC);
  // a last message on the healed network: every healthy station gets it
  for (auto& s : real) s->in.clear(); S.ret.clear(); for (auto& p : w.peers) if (p->p->lfd >= 0) p->k = GOOD;
  XMsg m; m.Type = MT::MVR_COMMIT; m.COMMIT.FileUUID = Uuid(0xEE, 0, 0, 1); u64 dl = S.send(m); if (dl > 31 * SEC + 500 * MS) violation("slow:send", "last send took %.1f s", dl / 1e9);
  for (auto& s : real) { size_t c = 0; for (auto& r : s->in) if (r.m.Type == MT::MVR_COMMIT && r.m.COMMIT.FileUUID == m.COMMIT.FileUUID) c++; if (c != 1) violation("after-faults", "after the faults a healthy station got the message %zu times", c); }
  for (auto& p : w.peers) p->p->shutdown();
  S.release(); for (auto& s : real) s->release();
}
static Reg r({ "C02", "bounded and isolated sending", scenario, 6000, 400000, "runs until the time limit", "MVR-xchange service, client, session, server, packets, mDNS code, boost.asio reactor", "kernel sockets, clock, scheduler, failing peers (simulated)", { "the simulated peer machines answer SYNs like Linux does", "the documented limits are 1 s connect and 10 s per write, header and body" } });
}
