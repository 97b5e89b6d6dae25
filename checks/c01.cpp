// C01: messages and answers arrive intact, exactly once per announced address, at exactly the addressed members.
#include "xlib.h"
#include "mvrxchange/json.h"
using namespace xc;
namespace {
struct Sent { int from; XMsg m; Content c; std::set<std::string> to; bool all = false; u64 key; };
struct World {
  std::vector<StationP> st; std::vector<Sent> sent; std::shared_ptr<RawPeer> raw; std::vector<std::vector<std::pair<Content, Content>>> replies; // per station: (request, reply)
  std::string grp;
};
std::string rawU(const Uuid& u) { return uuidStr(u); }
void checkWire(const Packet& p) {
  if (p.flag != 778682) violation("wire-header:flag", "package flag on the wire is %u", p.flag);
  if (p.version != 1) violation("wire-header:version", "package version on the wire is %u, documented is 1", p.version);
  if (p.number != 0 || p.count != 1) violation("wire-header:number", "package number/count on the wire is %u/%u", p.number, p.count);
  if (p.type > 1) violation("wire-header:type", "package type on the wire is %u", p.type);
  if (p.len != p.body.size()) violation("wire-header:length", "length %llu", (unsigned long long)p.len);
}
void wireCommit(const Packet& p, const Sent& s) {
  nlohmann::json j = nlohmann::json::parse(p.body, nullptr, false);
  if (!j.is_object()) violation("wire-json", "message body on the wire is not a JSON object: %s", hex(p.body, 80).c_str());
  auto str = [&](const char* k) { return j.contains(k) && j[k].is_string() ? j[k].get<std::string>() : std::string("<missing>"); };
  auto num = [&](const char* k) { return j.contains(k) && j[k].is_number_integer() ? j[k].get<uint64_t>() : ~0ull; };
  if (s.m.Type != MT::MVR_COMMIT) return;
  const auto& c = s.m.COMMIT;
  if (str("Type") != "MVR_COMMIT") violation("wire-json", "Type is %s", str("Type").c_str());
  if (str("FileName") != c.FileName.fBuffer || str("Comment") != c.Comment.fBuffer || num("FileSize") != c.FileSize || num("verMajor") != c.VersionMajor || num("verMinor") != c.VersionMinor) violation("wire-json", "commit fields on the wire differ from the sent ones");
  std::string a = str("FileUUID"), b = rawU(c.FileUUID); for (auto& x : a) x = toupper(x); if (a != b) violation("wire-json", "FileUUID on the wire is %s, sent %s", a.c_str(), b.c_str());
}
void scenario() {
  quietLog(); randomSched();
  int n = 2 + choose(C_CFG, 3); bool withRaw = choose(C_CFG, 3) == 1, twoGroups = choose(C_CFG, 3) == 1; World w; w.grp = "Grp"; net.latHi = choose(C_CFG, 2) ? 20 * MS : 2 * MS;
  w.replies.resize(n);
  int nextIp = 1;
  for (int i = 0; i < n; i++) {
    std::vector<std::string> ips; int k = choose(C_CFG, 5) == 1 ? 2 : 1; for (int j = 0; j < k; j++) ips.push_back("10.0." + std::to_string(j) + "." + std::to_string(nextIp)); nextIp++;
    int h = addHost(("H" + std::to_string(i)).c_str(), ips); auto s = std::make_shared<Station>(h, genString(150, false)); s->uuid = genUuid(); s->uuid.a = 0x1000 + i; s->provider = genString(1023); s->vmaj = genU32(); s->vmin = genU32();
    u32 nf = choose(C_DATA, 3); for (u32 f = 0; f < nf; f++) s->files.push_back(genCommit());
    Station* sp = s.get(); int idx = i;
    s->reply = [&w, sp, idx](const XMsg& in) { XMsg r; switch (in.Type) { case MT::MVR_JOIN: r = okReply(in, *sp); break; case MT::MVR_LEAVE: r = genMessage(MT::MVR_LEAVE_RET); break;
        case MT::MVR_REQUEST: if (choose(C_DATA, 2)) { r.Type = MT::MVR_REQUEST_RET; size_t len = 1 + choose(C_DATA, 5000); r.BufferToFile = new char[len]; r.BufferToFileLength = len; for (size_t q = 0; q < len; q++) r.BufferToFile[q] = (char)(q * 7 + idx + len); } else r = genMessage(MT::MVR_REQUEST_RET); break;
        default: r = genMessage(MT::MVR_COMMIT_RET); }
      w.replies[idx].push_back({ contentOf(in), contentOf(r) }); return r; };
    w.st.push_back(s); }
  auto groupOf = [&](int i) { return twoGroups && i == n - 1 ? std::string("Other") : w.grp; };
  std::vector<int> nIps; for (int i = 0; i < n; i++) nIps.push_back(ipCount(w.st[i]->host));
  // ---- connect one after the other; every join must reach every station already there, intact and once per address
  for (int i = 0; i < n; i++) {
    auto& s = *w.st[i]; s.create(); s.reg();
    std::vector<size_t> before; for (int j = 0; j < n; j++) before.push_back(w.st[j]->in.size());
    u64 d = s.connect(groupOf(i)); if (d > 60 * SEC) violation("slow:connect", "connect took %.1f s", d / 1e9);
    XMsg jm; jm.Type = MT::MVR_JOIN; jm.JOIN.Provider = s.provider.c_str(); jm.JOIN.StationName = s.name.c_str(); jm.JOIN.StationUUID = s.uuid; jm.JOIN.VersionMajor = s.vmaj; jm.JOIN.VersionMinor = s.vmin; jm.JOIN.Commits = s.files; Content want = contentOf(jm);
    for (int j = 0; j < n; j++) { auto& r = *w.st[j]; size_t expect = (j < i && groupOf(j) == groupOf(i)) ? nIps[j] : 0, got = 0;
      for (size_t k = before[j]; k < r.in.size(); k++) { if (r.in[k].c == want) got++; else violation("join-altered", "station %d received a message it was not sent while %d joined: %s (%s)", j, i, typeName(r.in[k].m.Type), want.diff(r.in[k].c).c_str()); }
      if (got != expect) violation("join-count", "join of station %d reached station %d %zu times, expected %zu", i, j, got, expect);
      size_t rets = 0; for (auto& q : s.ret) { Content rc = contentOf(okReply(jm, r)); if (q.got == rc && q.sent == want) rets++; }
      if (rets < expect) violation("join-answer", "answer of station %d to the join of %d arrived %zu times unchanged, expected %zu%s", j, i, rets, expect, s.ret.empty() ? "" : s.ret.back().got.diff(contentOf(okReply(jm, r))).c_str()); }
    sleepNs(range(C_OP, 5, 12) * SEC);
  }
  if (withRaw) {
    int h = addHost("RAW", { "10.0.0.200" }); w.raw = std::make_shared<RawPeer>(h, w.grp, "Raw peer", Uuid(0x7777, 1, 2, 3)); w.raw->start();
    for (int i = 0; i < n; i++) if (groupOf(i) == w.grp) { int port = listenPort(w.st[i]->host); Packet a; if (!w.raw->join(hostIp(w.st[i]->host), port, &a)) violation("raw-join", "join of a plain peer was not answered"); checkWire(a); }
    for (auto& s : w.st) s->in.clear();
    sleepNs(30 * SEC); w.raw->got.clear();
  }
  sleepNs(15 * SEC);
  for (auto& s : w.st) { s->in.clear(); s->ret.clear(); } for (auto& r : w.replies) r.clear();
  // ---- chaos on the transport that never loses anything
  u32 chaos = choose(C_CFG, 6);
  if (chaos & 1) { net.tcpDelayP = 0.2; } if (chaos & 2) { net.shortReadP = 0.4; net.shortWriteP = 0.4; } if (chaos == 4) { net.mss = 1 + choose(C_CFG, 200); net.rxCap = 8192; } if (chaos == 5) { net.tcpRetransP = 0.1; net.eintrP = 0.05; net.shortReadP = 0.2; }
  for (auto& s : w.st) s->callbackDelayMax = choose(C_CFG, 2) ? 300 * MS : 0;
  // ---- concurrent senders
  std::vector<int> tasks; int per = 1 + choose(C_OP, 3);
  for (int i = 0; i < n; i++) for (int k = 0; k < per; k++) {
    Sent s; s.from = i; s.key = w.sent.size(); s.all = true;
    switch (choose(C_OP, 4)) {
      default: s.m = genMessage(MT::MVR_COMMIT); s.m.COMMIT.FileUUID.d = (u32)s.key + 1; s.m.COMMIT.ForStationsUUID.clear(); if (choose(C_OP, 2)) { for (int j = 0; j < n; j++) if (choose(C_OP, 2)) s.m.COMMIT.ForStationsUUID.push_back(w.st[j]->uuid); if (w.raw && choose(C_OP, 2)) s.m.COMMIT.ForStationsUUID.push_back(w.raw->uuid); if (choose(C_OP, 3) == 1) s.m.COMMIT.ForStationsUUID.push_back(genUuid()); }
        for (auto& u : s.m.COMMIT.ForStationsUUID) { s.to.insert(rawU(u)); s.all = false; } break;
      case 2: s.m = genMessage(MT::MVR_REQUEST); s.m.REQUEST.FileUUID.d = (u32)s.key + 1; s.m.REQUEST.FromStationUUID.clear(); if (choose(C_OP, 3)) for (int j = 0; j < n; j++) if (choose(C_OP, 2)) s.m.REQUEST.FromStationUUID.push_back(w.st[j]->uuid); for (auto& u : s.m.REQUEST.FromStationUUID) { s.to.insert(rawU(u)); s.all = false; } break;
      case 3: s.m = genMessage(MT::MVR_LEAVE); s.m.LEAVE.FromStationUUID.d = (u32)s.key + 1; break; }
    s.c = contentOf(s.m); w.sent.push_back(s); }
  bool concurrentPerStation = choose(C_OP, 2);
  for (int i = 0; i < n; i++) { std::vector<size_t> mine; for (size_t k = 0; k < w.sent.size(); k++) if (w.sent[k].from == i) mine.push_back(k);
    auto run = [&w, i](std::vector<size_t> ks) { for (size_t k : ks) { u64 d = w.st[i]->send(w.sent[k].m, w.sent[k].key % 3 == 2); if (d > 32 * SEC) violation("slow:send", "send took %.1f s", d / 1e9); sleepNs(range(C_OP, 0, 500) * MS); } };
    if (concurrentPerStation) for (size_t k : mine) tasks.push_back(spawn(w.st[i]->host, "sender", [=] { run({ k }); })); else tasks.push_back(spawn(w.st[i]->host, "sender", [=] { run(mine); })); }
  for (int t : tasks) joinTask(t);
  sleepNs(12 * SEC);
  // ---- oracle
  sample("stations=" + std::to_string(n) + " raw=" + std::to_string(withRaw) + " groups=" + std::to_string(1 + twoGroups) + " msgs=" + std::to_string(w.sent.size()) + " chaos=" + std::to_string(chaos)); nontrivial();
  for (int j = 0; j < n; j++) {
    std::vector<bool> used(w.st[j]->in.size());
    for (auto& s : w.sent) {
      bool addressed = s.from != j && groupOf(s.from) == groupOf(j) && (s.all || s.to.count(rawU(w.st[j]->uuid)));
      size_t want = addressed ? nIps[j] : 0, got = 0; for (size_t k = 0; k < used.size(); k++) if (w.st[j]->in[k].c == s.c) { got++; used[k] = true; }
      if (got > want) violation(want ? "duplicate" : "unaddressed", "%s %llu of station %d reached station %d %zu times, expected %zu", typeName(s.m.Type), (unsigned long long)s.key, s.from, j, got, want);
      if (got < want) { std::string near; for (auto& r : w.st[j]->in) if (r.m.Type == s.m.Type) near = s.c.diff(r.c); violation("lost", "%s %llu of station %d reached station %d %zu times, expected %zu (received there: %zu; last same type differs: %s)", typeName(s.m.Type), (unsigned long long)s.key, s.from, j, got, want, w.st[j]->in.size(), near.c_str()); } }
    for (size_t k = 0; k < used.size(); k++) if (!used[k]) violation("altered", "station %d received a %s nobody sent (RetIsOK=%d %s)", j, typeName(w.st[j]->in[k].m.Type), w.st[j]->in[k].m.RetIsOK, w.st[j]->in[k].m.RetError.fBuffer); }
  for (int i = 0; i < n; i++) {
    // every answer given to a message of i must have come back unchanged, and nothing else
    std::vector<bool> used(w.st[i]->ret.size()); size_t rawAns = 0;
    for (int j = 0; j < n; j++) for (auto& rp : w.replies[j]) { const Sent* s = nullptr; for (auto& x : w.sent) if (x.c == rp.first) s = &x; if (!s || s->from != i) continue; bool ok = false; std::string near;
        for (size_t k = 0; k < used.size() && !ok; k++) if (!used[k] && w.st[i]->ret[k].sent == s->c) { if (w.st[i]->ret[k].got == rp.second) { used[k] = true; ok = true; if (w.st[i]->ret[k].via != (s->key % 3 == 2 ? 2 : 0)) violation("answer-callback", "answer delivered to the wrong callback"); } else near = rp.second.diff(w.st[i]->ret[k].got); }
        if (!ok) violation("answer-lost", "answer %s of station %d to message %llu of station %d did not come back unchanged (%s)", typeName(rp.second.type), j, (unsigned long long)s->key, i, near.c_str()); }
    for (size_t k = 0; k < used.size(); k++) if (!used[k]) { rawAns++; auto& r = w.st[i]->ret[k]; if (!w.raw) violation("answer-extra", "station %d got an answer nobody gave: %s", i, typeName(r.got.type)); if (r.gotMsg.Type == MT::MVR_UNDEFINED || !r.gotMsg.RetIsOK) violation("answer-altered", "plain peer's answer arrived as %s: %s", typeName(r.gotMsg.Type), r.gotMsg.RetError.fBuffer); }
    size_t wantRaw = 0; if (w.raw && groupOf(i) == w.grp) for (auto& s : w.sent) if (s.from == i && (s.all || s.to.count(rawU(w.raw->uuid)))) wantRaw++;
    if (rawAns != wantRaw) violation("answer-raw", "station %d got %zu answers of the plain peer, expected %zu", i, rawAns, wantRaw); }
  if (w.raw) { size_t want = 0; for (auto& s : w.sent) if (groupOf(s.from) == w.grp && (s.all || s.to.count(rawU(w.raw->uuid)))) want++;
    if (w.raw->got.size() != want) violation("raw-count", "plain peer got %zu packets, expected %zu", w.raw->got.size(), want);
    for (auto& p : w.raw->got) { checkWire(p); nlohmann::json j = nlohmann::json::parse(p.body, nullptr, false); if (j.is_object() && j.contains("FileUUID") && j["FileUUID"].is_string() && j["Type"] == "MVR_COMMIT") { std::string a = j["FileUUID"]; for (auto& x : a) x = toupper(x); bool f = false; for (auto& s : w.sent) if (s.m.Type == MT::MVR_COMMIT && rawU(s.m.COMMIT.FileUUID) == a) { wireCommit(p, s); f = true; } if (!f) violation("wire-json", "unknown FileUUID on the wire"); } } }
  opCount(w.sent.size());
  calmNet();
  // ---- leave: every station leaves, the remaining ones get the leave message
  for (int i = 0; i < n; i++) w.st[i]->release();
  if (w.raw) w.raw->shutdown();
}
static Reg r({ "C01", "message delivery", scenario, 4000, 400000, "runs until the time limit", "MVR-xchange service, packets, sessions, clients, mDNS announcer and querier, boost.asio reactor", "kernel sockets, clocks, interfaces, threads scheduler (simulated)", { "network loses nothing permanently in this scenario", "IPv6 multicast is not delivered" } });
}
