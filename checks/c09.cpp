// C09: the service object can be used from several threads at once.
#include "xlib.h"
#include <unistd.h>
using namespace xc;
namespace {
struct Reg_ { int id; u64 from, to; };                       // one registration: began and ended
struct In { int handler; XMsg m; Content c; u64 t; }; struct Ret { int handler; Content sent; Content got; bool ok; u64 t; };
struct W; struct Ctx { u32 magic = 0xC0FFEE; int id; W* w; };
struct Known { std::string name; Uuid uuid; std::string ip; int host; bool stable = true; };
struct W { StationP V; std::vector<StationP> peers; std::vector<Known> known; std::vector<In> in; std::vector<Ret> ret; std::vector<Reg_> regs; std::vector<Ctx> ctx; std::vector<Content> fromPeers; u64 delay = 0; bool nested = false; std::set<std::string> nestedC; u32 depth = 0; u64 nestedCalls = 0; };
W* gw = nullptr;
const int NH = 4;
void nestedCall(bool maySend);
XMsg incoming(int id, const XMsg& m, void* c) { Ctx* x = (Ctx*)c; bool okc = false; for (auto& k : gw->ctx) if (&k == x) okc = true; if (!okc || x->magic != 0xC0FFEE) violation("torn-handler", "handler %d was called with a context that was never registered", id); if (x->id != id) violation("torn-handler", "handler %d was called with the context of handler %d", id, x->id); gw->in.push_back({ id, m, contentOf(m), now() }); if (gw->delay) sleepNs(range(C_SCHED, 0, gw->delay)); nestedCall(m.Type == MT::MVR_COMMIT); return okReply(m, *gw->V); }
void returning(int id, const XMsg& o, const XMsg& m, void* c) { Ctx* x = (Ctx*)c; bool okc = false; for (auto& k : gw->ctx) if (&k == x) okc = true; if (!okc || x->id != id) violation("torn-handler", "return handler %d was called with the context of another one", id); gw->ret.push_back({ id, contentOf(o), contentOf(m), m.RetIsOK, now() }); nestedCall(o.Type == MT::MVR_COMMIT); }
template<int I> XMsg hin(const XMsg& m, void* c) { return incoming(I, m, c); }
template<int I> void hret(const XMsg& o, const XMsg& m, void* c) { returning(I, o, m, c); }
void custom(const XMsg& o, const XMsg& m, void* c) { returning(NH, o, m, c); }
void registerHandler(W& w, int id) { On o(w.V->host); Svc::OnMessageArgs a; typedef XMsg (*FI)(const XMsg&, void*); typedef void (*FR)(const XMsg&, const XMsg&, void*); static const FI fi[NH] = { hin<0>, hin<1>, hin<2>, hin<3> }; static const FR fr[NH] = { hret<0>, hret<1>, hret<2>, hret<3> };
  a.IncomingCallback = fi[id]; a.ReturningCallback = fr[id]; a.Context = &w.ctx[id]; size_t k = w.regs.size(); w.regs.push_back({ id, now(), NEVER }); apiCall("OnMessage", 40 * SEC, [&] { (*w.V->svc)->OnMessage(a); }); w.regs[k].to = now(); }
// could the handler `id` have been the registered one at some moment in [a,b]?
bool possible(W& w, int id, u64 a, u64 b) { for (auto& r : w.regs) { if (r.id != id || r.from > b) continue; bool hidden = false; if (r.to != NEVER) for (auto& q : w.regs) if (&q != &r && q.from > r.to && q.to < a) hidden = true; if (!hidden) return true; } return false; }
void checkEntry(W& w, const ConnArgs& e, const char* who) {
  for (auto& k : w.known) if (k.uuid == e.StationUUID) { std::string ip = e.IPv4_list.size() ? e.IPv4_list[0].fBuffer : ""; if (k.name != e.StationName.fBuffer || !listenedOn(k.host, e.Port) || (e.IPv4_list.size() && ip != k.ip)) violation("torn-entry", "%s: the entry of station %s reads name '%s' port %u address %s", who, k.name.c_str(), e.StationName.fBuffer, (u32)e.Port, ip.c_str()); if (e.IPv4_list.empty()) violation("torn-entry", "%s: the entry of station %s has no address", who, k.name.c_str()); return; }
  violation("unknown-entry", "%s: an entry '%s' that no station announced", who, e.StationName.fBuffer); }
// calls made from within the callbacks
void nestedCall(bool maySend) { W& w = *gw; if (!w.nested || w.depth) return; u32 k = choose(C_OP, 8); if (k > 2) return; w.depth++; w.nestedCalls++; On o(w.V->host);
  if (k == 0) { ConnArgs e; if ((*w.V->svc)->GetLocalServiceAt(choose(C_OP, 3), e) == kVCOMError_NoError) checkEntry(w, e, "list access in a callback"); }
  else if (k == 1 || !maySend) registerHandler(w, (int)choose(C_OP, NH));
  else { static u32 n = 0; XMsg m; m.Type = MT::MVR_COMMIT; m.COMMIT.FileUUID = Uuid(0xD00D, (u32)++n, 1, 1); m.COMMIT.Comment = "from a callback"; Svc::SendMessageArgs a; a.Message = m; apiCall("Send_message", 200 * SEC, [&] { (*w.V->svc)->Send_message(a); }); }
  w.depth--; }
void scenario() {
  quietLog(); calmNet(); W w; gw = &w; net.latHi = choose(C_CFG, 2) ? 40 * MS : 2 * MS; u32 np = 1 + choose(C_CFG, 2); bool churn = choose(C_CFG, 2), longRun = choose(C_CFG, 3) == 1; limits.maxSteps = 6000000; for (int i = 0; i <= NH; i++) w.ctx.push_back(Ctx{ 0xC0FFEE, i, &w });
  w.V = std::make_shared<Station>(addHost("V", { "10.0.0.1" }), "V"); w.V->uuid = Uuid(0xAA, 1, 1, 1); w.V->provider = "P";
  auto add = [&](bool stable) { int i = (int)w.peers.size(); std::string ip = "10.0.1." + std::to_string(i + 1); int h = addHost(("P" + std::to_string(i)).c_str(), { ip }); auto s = std::make_shared<Station>(h, "Peer" + std::to_string(i) + std::string(20 + 30 * i, 'a' + i)); s->uuid = Uuid(0x50 + i, i, i + 1, 7); s->provider = "P"; w.peers.push_back(s); Known k; k.name = s->name; k.uuid = s->uuid; k.ip = ip; k.host = h; k.stable = stable; w.known.push_back(k); };
  for (u32 i = 0; i < np; i++) add(true); if (churn) add(false);
  auto up = [&](size_t i) { w.peers[i]->create(); w.peers[i]->reg(); }; auto conn = [&](size_t i) { w.peers[i]->connect("Grp"); };
  for (size_t i = 0; i < np; i++) { up(i); conn(i); } w.V->create(); registerHandler(w, 0); w.V->connect("Grp"); sleepNs(20 * SEC);
  if (churn) up(np);
  // ---- everything at once
  randomSched(); static const u32 PM[] = { 0, 3000, 500, 100, 30 }; sched.preemptMean = PM[choose(C_CFG, 5)]; bool stall = choose(C_CFG, 4) == 1; if (stall) sched.stallProb = 0.001; if (choose(C_CFG, 3) == 1) w.delay = 800 * MS; w.nested = choose(C_CFG, 3) == 1; u32 nt = 2 + choose(C_CFG, 3), per = 2 + choose(C_CFG, 4);
  std::vector<int> ts; u32 nextKey = 0; struct S { u32 key; Content c; bool custom; u64 a, b; bool all; }; std::vector<S> sent; w.in.clear(); w.ret.clear(); for (auto& p : w.peers) p->in.clear(); size_t nStable = np, nAll = w.peers.size(); u64 sends = 0, queries = 0, regsN = 0;
  std::vector<u32> kinds; bool mixed = choose(C_CFG, 4) == 0 || true; (void)mixed;
  for (u32 t = 0; t < nt; t++) { u32 bias = choose(C_CFG, 6); ts.push_back(spawn(w.V->host, "app", [&, bias, per] {
      for (u32 k = 0; k < per; k++) { u32 op = choose(C_OP, 8); if (bias == 1) op = 0; if (bias == 2) op = 3; if (bias == 3) op = 6; if (bias == 4) op = 5;
        if (op <= 2) { size_t n = 0; u64 d = w.V->query(n); queries++; if (d > (stall ? 300 : 90) * SEC) violation("slow:query", "a query took %.1f s", d / 1e9); if (n < nStable && !stall) violation("query-incomplete", "a query returned %zu stations, %zu are announced all the time", n, nStable); if (n > nAll + (churn ? 2 : 0)) violation("query-surplus", "a query returned %zu stations, only %zu exist", n, nAll); auto l = w.V->list(n + 1); if (l.size() < nStable && !stall) violation("list-incomplete", "%zu entries are readable after a query of %zu, %zu stations are announced all the time", l.size(), n, nStable); for (auto& e : l) checkEntry(w, e, "after a query"); }
        else if (op <= 4) { XMsg m; m.Type = MT::MVR_COMMIT; m.COMMIT = genCommit(); u32 key = ++nextKey; m.COMMIT.FileUUID = Uuid(0x5E, key, 1, 1); m.COMMIT.ForStationsUUID.clear(); bool cu = choose(C_OP, 3) == 1; size_t q = sent.size(); sent.push_back({ key, contentOf(m), cu, now(), NEVER, true }); sends++;
          Svc::SendMessageArgs a; a.Message = m; if (cu) { a.CustomReturnCallback = custom; a.CustomReturnContext = &w.ctx[NH]; } u64 d; { On o(w.V->host); d = apiCall("Send_message", 200 * SEC, [&] { (*w.V->svc)->Send_message(a); }); } sent[q].b = now(); }
        else if (op == 5) { On o(w.V->host); size_t i = choose(C_OP, 4); ConnArgs e; if ((*w.V->svc)->GetLocalServiceAt(i, e) == kVCOMError_NoError) checkEntry(w, e, "list access"); }
        else { registerHandler(w, (int)choose(C_OP, NH)); regsN++; }
        if (longRun) sleepNs(range(C_OP, 0, 20000) * MS); else if (choose(C_OP, 2)) sleepNs(range(C_OP, 0, 1500) * MS); } })); }
  for (size_t i = 0; i < np; i++) { u32 msgs = 1 + choose(C_OP, 4); StationP s = w.peers[i]; ts.push_back(spawn(s->host, "peer", [&, s, msgs] { for (u32 k = 0; k < msgs; k++) { XMsg m; m.Type = MT::MVR_COMMIT; m.COMMIT = genCommit(); m.COMMIT.FileUUID = Uuid(0x1F, ++nextKey, 2, 2); m.COMMIT.ForStationsUUID.clear(); w.fromPeers.push_back(contentOf(m)); s->send(m); sleepNs(range(C_OP, 0, 2000) * MS); } })); }
  if (churn) ts.push_back(spawn(w.peers[np]->host, "churn", [&] { for (u32 k = 0; k < 2; k++) { sleepNs(range(C_OP, 0, 3000) * MS); conn(np); sleepNs(range(C_OP, 0, 6000) * MS); if (choose(C_OP, 3)) w.peers[np]->leave(); } }));
  for (int t : ts) joinTask(t);
  sched.preemptMean = 0; sched.stallProb = 0; w.delay = 0; w.nested = false; sleepNs(15 * SEC); nontrivial(); opCount(sends + queries + regsN);
  // ---- every call had its effect, once
  for (auto& s : sent) { for (size_t i = 0; i < np; i++) { size_t c = 0; for (auto& r : w.peers[i]->in) if (r.c == s.c) c++; if (stall ? c > 1 : c != 1) violation("send-count", "message %u reached a station that was a member all the time %zu times", s.key, c); }
    size_t c = 0; for (auto& r : w.ret) if (r.sent == s.c) { c++; if (s.custom != (r.handler == NH)) violation("wrong-return-handler", "the answer to message %u came to handler %d", s.key, r.handler); if (!s.custom && !possible(w, r.handler, s.a, r.t)) violation("stale-handler", "the answer to message %u came to handler %d, which had been replaced before the message was sent", s.key, r.handler); }
    if ((c < np && !stall) || c > nAll * 2) violation("answer-count", "message %u got %zu answers, %u stations were members all the time", s.key, c, np); }
  for (auto& c : w.fromPeers) { size_t n = 0; for (auto& r : w.in) if (r.c == c) { n++; } if (stall ? n > 1 : n != 1) violation("receive-count", "a message of a peer reached the application %zu times", n); }
  for (auto& r : w.in) { bool hit = r.m.Type == MT::MVR_JOIN || r.m.Type == MT::MVR_LEAVE; for (auto& c : w.fromPeers) if (r.c == c) hit = true; if (!hit) violation("receive-altered", "the application received a message nobody sent"); if (!possible(w, r.handler, r.t > 20 * SEC ? r.t - 20 * SEC : 0, r.t)) violation("stale-handler", "an incoming message came to handler %d, which was replaced long before", r.handler); }
  for (auto& p : w.peers) for (auto& r : p->in) { if (r.m.Type != MT::MVR_COMMIT) continue; bool hit = false; for (auto& s : sent) if (r.c == s.c) hit = true; for (auto& c : w.fromPeers) if (r.c == c) hit = true; if (!hit) if (r.m.COMMIT.FileUUID.a != 0xD00D) violation("send-altered", "a station received a message nobody sent"); }
  // ---- and still works: the last registered handler gets everything
  registerHandler(w, 3); if (churn) { if (w.peers[np]->connected) w.peers[np]->leave(); sleepNs(SEC); conn(np); sleepNs(20 * SEC); } { size_t n = 0; w.V->query(n); if (n != nAll) violation("query-after", "after everything is quiet a query returns %zu of %zu stations", n, nAll); auto l = w.V->list(n + 1); if (l.size() != n) violation("query-after", "%zu entries of %zu are readable", l.size(), n); for (auto& e : l) checkEntry(w, e, "afterwards"); }
  w.in.clear(); XMsg m; m.Type = MT::MVR_COMMIT; m.COMMIT.FileUUID = Uuid(0xE0D, 1, 1, 1); for (auto& p : w.peers) { p->in.clear(); p->send(m); } size_t c = 0; for (auto& r : w.in) if (r.m.Type == MT::MVR_COMMIT && r.m.COMMIT.FileUUID == m.COMMIT.FileUUID) { if (r.handler != 3) violation("stale-handler", "handler %d is called although another one was registered last", r.handler); c++; } if (c != nAll) violation("receive-after", "afterwards %zu of %zu messages reached the application", c, nAll);
  for (auto& p : w.peers) p->in.clear(); w.V->send(m); for (auto& p : w.peers) { size_t k = 0; for (auto& r : p->in) if (r.m.Type == MT::MVR_COMMIT && r.m.COMMIT.FileUUID == m.COMMIT.FileUUID) k++; if (k != 1) violation("send-after", "afterwards a message reached a member %zu times", k); }
  sample(std::to_string(nt) + " threads x " + std::to_string(per) + " calls (" + std::to_string(queries) + " queries, " + std::to_string(sends) + " sends, " + std::to_string(regsN) + " registrations, " + std::to_string(w.nestedCalls) + " within callbacks), " + std::to_string(w.in.size()) + " incoming, preemption mean " + std::to_string(sched.preemptMean));
  w.V->release(); for (auto& p : w.peers) p->release();
}
static Reg r({ "C09", "concurrent use of the service object", scenario, 6000, 400000, "runs until the time limit", "MVR-xchange service, server, sessions, client, mDNS announcer and querier, boost.asio reactor, thread library objects", "kernel sockets, clock, scheduler incl. preemption at instrumented basic blocks (simulated)", { "connect, leave and release are not called while other calls run", "memory accesses between two basic blocks are atomic to each other" } });
}
