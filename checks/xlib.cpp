#include "xlib.h"
#include "env.h"
#include <iostream>
#include <streambuf>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <arpa/inet.h>
#include <sys/socket.h>
using namespace VectorworksMVR;
namespace xc {
const char* typeName(MT t) { static const char* N[] = { "UNDEFINED", "JOIN", "LEAVE", "COMMIT", "REQUEST", "JOIN_RET", "LEAVE_RET", "COMMIT_RET", "REQUEST_RET", "NEW_SESSION_HOST" }; return (int)t >= 0 && (int)t < 10 ? N[(int)t] : "?"; }
std::string uuidStr(const Uuid& u) {
  // the textual form lists the bytes of the four words, each word least significant byte first
  u8 q[16]; const u32 w[4] = { u.a, u.b, u.c, u.d }; for (int i = 0; i < 16; i++) q[i] = (u8)(w[i / 4] >> (8 * (i % 4)));
  char b[64]; snprintf(b, sizeof b, "%02X%02X%02X%02X-%02X%02X-%02X%02X-%02X%02X-%02X%02X%02X%02X%02X%02X", q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8], q[9], q[10], q[11], q[12], q[13], q[14], q[15]); return b; }
static std::string raw(const Uuid& u) { char b[64]; snprintf(b, sizeof b, "%08x.%08x.%08x.%08x", u.a, u.b, u.c, u.d); return b; }
static void addCommit(Content& c, const std::string& p, const Svc::MVR_COMMIT_MESSAGE& m) {
  c.f.push_back({ p + "FileName", m.FileName.fBuffer }); c.f.push_back({ p + "Comment", m.Comment.fBuffer }); c.f.push_back({ p + "verMajor", std::to_string(m.VersionMajor) }); c.f.push_back({ p + "verMinor", std::to_string(m.VersionMinor) });
  c.f.push_back({ p + "FileSize", std::to_string(m.FileSize) }); c.f.push_back({ p + "FileUUID", raw(m.FileUUID) }); c.f.push_back({ p + "StationUUID", raw(m.StationUUID) });
  std::string l; for (auto& u : m.ForStationsUUID) l += raw(u) + ","; c.f.push_back({ p + "ForStations", l }); }
Content contentOf(const XMsg& m, bool withBuf) {
  Content c; c.type = m.Type; c.ok = m.RetIsOK;
  auto ret = [&] { c.f.push_back({ "OK", m.RetIsOK ? "1" : "0" }); c.f.push_back({ "Message", m.RetError.fBuffer }); };
  switch (m.Type) {
    case MT::MVR_JOIN_RET: ret(); // fallthrough
    case MT::MVR_JOIN: c.f.push_back({ "Provider", m.JOIN.Provider.fBuffer }); c.f.push_back({ "StationName", m.JOIN.StationName.fBuffer }); c.f.push_back({ "StationUUID", raw(m.JOIN.StationUUID) });
      c.f.push_back({ "verMajor", std::to_string(m.JOIN.VersionMajor) }); c.f.push_back({ "verMinor", std::to_string(m.JOIN.VersionMinor) }); c.f.push_back({ "nCommits", std::to_string(m.JOIN.Commits.size()) });
      for (size_t i = 0; i < m.JOIN.Commits.size(); i++) addCommit(c, "c" + std::to_string(i) + ".", m.JOIN.Commits[i]); break;
    case MT::MVR_LEAVE: c.f.push_back({ "From", raw(m.LEAVE.FromStationUUID) }); break;
    case MT::MVR_COMMIT: addCommit(c, "", m.COMMIT); break;
    case MT::MVR_REQUEST: { c.f.push_back({ "FileUUID", raw(m.REQUEST.FileUUID) }); std::string l; for (auto& u : m.REQUEST.FromStationUUID) l += raw(u) + ","; c.f.push_back({ "From", l }); break; }
    case MT::MVR_REQUEST_RET: if (!m.RetIsOK) ret(); else if (withBuf && m.BufferToFile) c.buf.assign(m.BufferToFile, m.BufferToFileLength); break;
    case MT::MVR_LEAVE_RET: case MT::MVR_COMMIT_RET: ret(); break;
    default: break;
  }
  return c;
}
std::string Content::diff(const Content& o) const {
  if (type != o.type) return std::string("type ") + typeName(type) + " vs " + typeName(o.type);
  for (size_t i = 0; i < std::max(f.size(), o.f.size()); i++) { if (i >= f.size() || i >= o.f.size()) return "different number of fields"; if (f[i] != o.f[i]) return "field " + f[i].first + ": '" + hex(f[i].second, 80) + "' vs '" + hex(o.f[i].second, 80) + "'"; }
  if (buf != o.buf) { size_t i = 0; while (i < buf.size() && i < o.buf.size() && buf[i] == o.buf[i]) i++; return "buffer of " + std::to_string(buf.size()) + " vs " + std::to_string(o.buf.size()) + " bytes, first difference at " + std::to_string(i); }
  return "";
}
std::string genString(size_t maxLen, bool allowEmpty) {
  std::string s; u32 kind = choose(C_DATA, 8);
  if (kind == 0) { static const char* S[] = { "Rig A", "Show File", "Desk 1", "x", "Provider" }; s = S[choose(C_DATA, 5)]; }
  else if (kind == 1 && allowEmpty) s = "";
  else if (kind == 2) { s = "q\"uo\\te / {\"Type\":\"MVR_LEAVE\"} \n\t\x01\x1f [1,2]"; }
  else if (kind == 3) { size_t n = maxLen - choose(C_DATA, 3); while (s.size() < n) s += (char)('a' + s.size() % 26); }
  else { size_t n = 1 + choose(C_DATA, 60); for (size_t i = 0; i < n; i++) switch (choose(C_DATA, 6)) {
      case 0: case 1: s += (char)(32 + choose(C_DATA, 95)); break; case 2: s += (char)(1 + choose(C_DATA, 31)); break;
      case 3: s += "\xc3"; s += (char)(0x80 + choose(C_DATA, 64)); break; case 4: s += "\xe2\x82"; s += (char)(0x80 + choose(C_DATA, 64)); break; case 5: s += "\xf0\x9f\x98"; s += (char)(0x80 + choose(C_DATA, 64)); break; } }
  while (s.size() > maxLen) { s.resize(maxLen); while (!s.empty() && ((u8)s.back() & 0xC0) == 0x80) s.pop_back(); if (!s.empty() && ((u8)s.back() & 0xC0) == 0xC0) s.pop_back(); }
  if (s.empty() && !allowEmpty) s = "n";
  return s;
}
u32 genU32() { switch (choose(C_DATA, 5)) { case 0: return choose(C_DATA, 10); case 1: return 0xffffffffu; case 2: return 0x80000000u; case 3: return 0x7fffffffu; default: return (choose(C_DATA, 65536) << 16) | choose(C_DATA, 65536); } }
Uuid genUuid() { auto r = [] { return (choose(C_DATA, 65536) << 16) | choose(C_DATA, 65536); }; u32 a = r(), b = r(), c = r(), d = r(); if (choose(C_DATA, 12) == 1) { a = 0; } if (choose(C_DATA, 12) == 1) d = 0xffffffffu; if (!a && !b && !c && !d) d = 1; return Uuid(a, b, c, d); }
Svc::MVR_COMMIT_MESSAGE genCommit() {
  Svc::MVR_COMMIT_MESSAGE m; m.FileName = genString().c_str(); m.Comment = genString().c_str(); m.VersionMajor = genU32(); m.VersionMinor = genU32();
  m.FileSize = choose(C_DATA, 3) ? ((u64)genU32() << 32 | genU32()) : choose(C_DATA, 100000); m.FileUUID = genUuid(); m.StationUUID = genUuid(); u32 n = choose(C_DATA, 4); for (u32 i = 0; i < n; i++) m.ForStationsUUID.push_back(genUuid()); return m; }
XMsg genMessage(MT t) {
  XMsg m; m.Type = t;
  auto join = [&] { m.JOIN.Provider = genString().c_str(); m.JOIN.StationName = genString().c_str(); m.JOIN.StationUUID = genUuid(); m.JOIN.VersionMajor = genU32(); m.JOIN.VersionMinor = genU32(); u32 n = choose(C_DATA, 4); for (u32 i = 0; i < n; i++) m.JOIN.Commits.push_back(genCommit()); };
  auto ret = [&] { m.RetIsOK = choose(C_DATA, 3) != 1; m.RetError = genString().c_str(); };
  switch (t) {
    case MT::MVR_JOIN: join(); break; case MT::MVR_JOIN_RET: join(); ret(); break; case MT::MVR_LEAVE: m.LEAVE.FromStationUUID = genUuid(); break; case MT::MVR_COMMIT: m.COMMIT = genCommit(); break;
    case MT::MVR_REQUEST: { m.REQUEST.FileUUID = genUuid(); u32 n = choose(C_DATA, 4); for (u32 i = 0; i < n; i++) m.REQUEST.FromStationUUID.push_back(genUuid()); break; }
    case MT::MVR_LEAVE_RET: case MT::MVR_COMMIT_RET: ret(); break; case MT::MVR_REQUEST_RET: m.RetIsOK = false; m.RetError = genString().c_str(); break; default: break; }
  return m;
}
XMsg okReply(const XMsg& in, const Station& s) {
  XMsg r; switch (in.Type) {
    case MT::MVR_JOIN: r.Type = MT::MVR_JOIN_RET; r.JOIN.Provider = s.provider.c_str(); r.JOIN.StationName = s.name.c_str(); r.JOIN.StationUUID = s.uuid; r.JOIN.VersionMajor = s.vmaj; r.JOIN.VersionMinor = s.vmin; r.JOIN.Commits = s.files; break;
    case MT::MVR_LEAVE: r.Type = MT::MVR_LEAVE_RET; break; case MT::MVR_COMMIT: r.Type = MT::MVR_COMMIT_RET; break;
    case MT::MVR_REQUEST: r.Type = MT::MVR_REQUEST_RET; r.RetIsOK = false; r.RetError = "no such file"; break; default: r.Type = MT::MVR_COMMIT_RET; r.RetIsOK = false; r.RetError = "undefined"; break; }
  return r; }

// ---------------------------------------------------------------- stations
static XMsg onIn(const XMsg& m, void* ctx, int via) {
  Station* s = (Station*)ctx; InRec r; r.m = m; r.c = contentOf(m); r.t = now(); r.via = via; r.m.BufferToFile = nullptr; s->in.push_back(r);
  logev("%s got %s", s->name.substr(0, 20).c_str(), typeName(m.Type));
  if (s->callbackDelayMax) sleepNs(range(C_SCHED, 0, s->callbackDelayMax));
  return s->reply ? s->reply(m) : okReply(m, *s); }
static void onRet(const XMsg& o, const XMsg& m, void* ctx, int via) {
  Station* s = (Station*)ctx; RetRec r; r.sent = contentOf(o); r.got = contentOf(m); r.gotMsg = m; r.gotMsg.BufferToFile = nullptr; r.t = now(); r.via = via; s->ret.push_back(r);
  logev("%s answer %s ok=%d", s->name.substr(0, 20).c_str(), typeName(m.Type), m.RetIsOK); }
static XMsg in0(const XMsg& m, void* c) { return onIn(m, c, 0); }
static XMsg in1(const XMsg& m, void* c) { return onIn(m, c, 1); }
static void ret0(const XMsg& o, const XMsg& m, void* c) { onRet(o, m, c, 0); }
static void ret1(const XMsg& o, const XMsg& m, void* c) { onRet(o, m, c, 1); }
static void retC(const XMsg& o, const XMsg& m, void* c) { onRet(o, m, c, 2); }
u64 apiCall(const char* what, u64 maxNs, const std::function<void()>& fn) {
  u64 t0 = now(); logev("call %s", what); opCount(1);
  try { fn(); } catch (const std::exception& e) { violation(std::string("throws:") + what, "%s threw %s", what, e.what()); } catch (...) { violation(std::string("throws:") + what, "%s threw", what); }
  u64 d = now() - t0; logev("done %s %.3fs", what, d / 1e9);
  if (d > maxNs) violation(std::string("slow:") + what, "%s took %.2f s of simulated time (bound %.2f s)\n%s", what, d / 1e9, maxNs / 1e9, dumpTasks().c_str());
  return d; }
void Station::create() { On o(host); svc = new IMVRxchangeServicePtr(IID_IMVRxchangeService); if (!*svc) violation("create", "service object cannot be created"); connected = false; }
void Station::reg(int via) { On o(host); Svc::OnMessageArgs a; a.IncomingCallback = via ? in1 : in0; a.ReturningCallback = via ? ret1 : ret0; a.Context = this; (*svc)->OnMessage(a); }
static const u64 FEW = 600 * SEC;
u64 Station::connect(const std::string& grp) { On o(host); group = grp; ConnArgs a; a.Service = grp.c_str(); a.StationUUID = uuid; a.StationName = name.c_str(); a.Provider = provider.c_str(); a.VersionMajor = vmaj; a.VersionMinor = vmin; a.InitialFiles = files; a.Port = 0;
  u64 d = apiCall("ConnectToLocalService", FEW, [&] { (*svc)->ConnectToLocalService(a); }); connected = true; connectedAt = now(); return d; }
u64 Station::leave() { On o(host); u64 d = apiCall("LeaveLocalService", FEW, [&] { (*svc)->LeaveLocalService(); }); connected = false; return d; }
u64 Station::release() { On o(host); u64 d = apiCall("Release", FEW, [&] { delete svc; }); svc = nullptr; connected = false; return d; }
u64 Station::query(size_t& n) { On o(host); n = 0; return apiCall("QueryLocalServices", FEW, [&] { (*svc)->QueryLocalServices(n); }); }
std::vector<ConnArgs> Station::list(size_t n) { On o(host); std::vector<ConnArgs> v; for (size_t i = 0; i < n; i++) { ConnArgs a; if ((*svc)->GetLocalServiceAt(i, a) != kVCOMError_NoError) break; v.push_back(a); } return v; }
u64 Station::send(const XMsg& m, bool custom) { On o(host); Svc::SendMessageArgs a; a.Message = m; if (custom) { a.CustomReturnCallback = retC; a.CustomReturnContext = this; } return apiCall("Send_message", FEW, [&] { (*svc)->Send_message(a); }); }

// ---------------------------------------------------------------- wire
std::string Packet::bytes() const { std::string s; auto p32 = [&](u32 v) { for (int i = 3; i >= 0; i--) s += (char)(v >> (8 * i)); }; p32(flag); p32(version); p32(number); p32(count); p32(type); u64 l = lieLen ? len : body.size(); for (int i = 7; i >= 0; i--) s += (char)(l >> (8 * i)); return s + body; }
bool recvAll(int fd, std::string& out, size_t n, u64 deadline) {
  out.clear(); std::vector<char> b(65536);
  while (out.size() < n) { u64 t = now(); if (t >= deadline) return false; fd_set r; FD_ZERO(&r); FD_SET(fd, &r); u64 left = deadline - t; struct timeval tv; tv.tv_sec = left / SEC; tv.tv_usec = left % SEC / US; int k = select(fd + 1, &r, 0, 0, &tv);
    if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; ssize_t g = recv(fd, b.data(), std::min(b.size(), n - out.size()), MSG_DONTWAIT); if (g < 0 && (errno == EINTR || errno == EAGAIN)) continue; if (g <= 0) return false; out.append(b.data(), g); }
  return true; }
bool sendAll(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t g = ::send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL); if (g < 0 && errno == EINTR) continue; if (g <= 0) return false; o += g; } return true; }
bool sendFor(int fd, const std::string& s, u64 ns) { size_t o = 0; u64 dl = now() + ns; while (o < s.size()) { u64 t = now(); if (t >= dl) return false; fd_set w; FD_ZERO(&w); FD_SET(fd, &w); u64 left = dl - t; struct timeval tv; tv.tv_sec = left / SEC; tv.tv_usec = left % SEC / US; int k = select(fd + 1, 0, &w, 0, &tv); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; ssize_t g = ::send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL | MSG_DONTWAIT); if (g < 0 && (errno == EINTR || errno == EAGAIN)) continue; if (g <= 0) return false; o += g; } return true; }
static u64 be(const std::string& s, size_t o, int n) { u64 v = 0; for (int i = 0; i < n; i++) v = v << 8 | (u8)s[o + i]; return v; }
bool readPacket(int fd, Packet& p, u64 deadline) {
  std::string h; if (!recvAll(fd, h, 28, deadline)) return false; p.flag = (u32)be(h, 0, 4); p.version = (u32)be(h, 4, 4); p.number = (u32)be(h, 8, 4); p.count = (u32)be(h, 12, 4); p.type = (u32)be(h, 16, 4); p.len = be(h, 20, 8);
  if (p.len > 200000000) return false; return recvAll(fd, p.body, p.len, deadline); }
int tcpConnect(const std::string& ip, int port, u64 timeout) {
  int s = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); if (s < 0) return -1; sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = inet_addr(ip.c_str());
  int r = ::connect(s, (sockaddr*)&a, sizeof a);
  if (r != 0) { if (errno != EINPROGRESS) { close(s); return -1; } u64 dl = now() + timeout; int k; do { fd_set w; FD_ZERO(&w); FD_SET(s, &w); u64 left = dl > now() ? dl - now() : 0; struct timeval tv; tv.tv_sec = left / SEC; tv.tv_usec = left % SEC / US; k = select(s + 1, 0, &w, 0, &tv); } while (k < 0 && errno == EINTR && now() < dl);
    int e = 0; socklen_t l = sizeof e; if (k <= 0 || getsockopt(s, SOL_SOCKET, SO_ERROR, &e, &l) || e) { close(s); return -1; } sockaddr_in q; l = sizeof q; if (getpeername(s, (sockaddr*)&q, &l)) { close(s); return -1; } }
  fcntl(s, 4 /*F_SETFL*/, 0L); return s; }
int tcpListen(int& port) { int s = socket(AF_INET, SOCK_STREAM, 0); if (s < 0) return -1; sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); if (bind(s, (sockaddr*)&a, sizeof a) || listen(s, 64)) { close(s); return -1; } socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l); port = ntohs(a.sin_port); return s; }
std::string jsonStr(const std::string& s) { std::string o = "\""; for (u8 c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }
std::string joinJson(const std::string& prov, const std::string& name, const std::string& uuid, u32 maj, u32 mnr, const std::string& commits) {
  return "{\"Type\":\"MVR_JOIN\",\"Provider\":" + jsonStr(prov) + ",\"StationName\":" + jsonStr(name) + ",\"StationUUID\":" + jsonStr(uuid) + ",\"verMajor\":" + std::to_string(maj) + ",\"verMinor\":" + std::to_string(mnr) + ",\"Commits\":" + commits + "}"; }
std::string retJson(const std::string& req, bool ok, const std::string& msg, const RawPeer& p) {
  std::string tail = std::string(",\"OK\":") + (ok ? "true" : "false") + ",\"Message\":" + jsonStr(msg);
  if (req.find("\"MVR_JOIN\"") != std::string::npos) return "{\"Type\":\"MVR_JOIN_RET\",\"Provider\":\"raw\",\"StationName\":" + jsonStr(p.name) + ",\"StationUUID\":" + jsonStr(uuidStr(p.uuid)) + ",\"verMajor\":1,\"verMinor\":6,\"Commits\":[]" + tail + "}";
  if (req.find("\"MVR_LEAVE\"") != std::string::npos) return "{\"Type\":\"MVR_LEAVE_RET\"" + tail + "}";
  if (req.find("\"MVR_REQUEST\"") != std::string::npos) return "{\"Type\":\"MVR_REQUEST_RET\"" + tail + "}";
  return "{\"Type\":\"MVR_COMMIT_RET\"" + tail + "}"; }
std::string dnsName(const std::string& d) { std::string o; size_t i = 0; while (i < d.size()) { size_t j = d.find('.', i); if (j == std::string::npos) j = d.size(); o += (char)(j - i); o += d.substr(i, j - i); i = j + 1; } o += '\0'; return o; }
void Dns::name(const std::string& d) { b += dnsName(d); }
void Dns::rec(const std::string& nm, int type, const std::string& data, u32 ttl) { name(nm); u16_(type); u16_(1); u32_(ttl); u16_((int)data.size()); b += data; }
static const char* kSvc = "_mvrxchange._tcp.local.";
std::string mvrQuery() { Dns d; d.u16_(0); d.u16_(0); d.u16_(1); d.u16_(0); d.u16_(0); d.u16_(0); d.name(kSvc); d.u16_(12); d.u16_(1); return d.b; }
std::string txtRecord(const std::vector<std::string>& p) { std::string o; for (auto& s : p) { o += (char)s.size(); o += s; } return o; }
std::string mvrAnswer(const std::string& group, const std::string& ip, int port, const std::string& sn, const std::string& uuid) {
  Dns d; d.u16_(0); d.u16_(0x8400); d.u16_(0); d.u16_(1); d.u16_(0); d.u16_(3); std::string full = group + "." + kSvc; d.rec(kSvc, 12, dnsName(full));
  { Dns s; s.u16_(0); s.u16_(0); s.u16_(port); s.name(group + ".local."); d.rec(full, 33, s.b); }
  { u32 a = inet_addr(ip.c_str()); d.rec(group + ".local.", 1, std::string((char*)&a, 4)); }
  d.rec(full, 16, txtRecord({ "StationName=" + sn, "StationUUID=" + uuid })); return d.b; }
void RawPeer::start() {
  lfd = -1; { On o(host); lfd = tcpListen(port); if (lfd < 0) internalError("raw peer cannot listen");
    ufd = socket(AF_INET, SOCK_DGRAM, 0); int one = 1; setsockopt(ufd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); setsockopt(ufd, SOL_SOCKET, SO_REUSEPORT, &one, sizeof one); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(5353); bind(ufd, (sockaddr*)&a, sizeof a);
    ip_mreq q{}; q.imr_multiaddr.s_addr = inet_addr("224.0.0.251"); setsockopt(ufd, IPPROTO_IP, IP_ADD_MEMBERSHIP, &q, sizeof q); }
  stop = false;
  tasks.push_back(spawn(host, "raw-mdns", [this] {
    char b[4096]; std::string want = dnsName(kSvc);
    while (!stop) { fd_set r; FD_ZERO(&r); FD_SET(ufd, &r); struct timeval tv{ 1, 0 }; if (select(ufd + 1, &r, 0, 0, &tv) <= 0) continue; ssize_t n = recv(ufd, b, sizeof b, MSG_DONTWAIT); if (n < 12) continue;
      std::string d(b, n); if ((u8)d[2] & 0x80) continue; if (!answerMdns || d.find(want) == std::string::npos) continue;
      std::string a = mvrAnswer(group, hostIp(host), port, name, uuidStr(uuid)); sockaddr_in t{}; t.sin_family = AF_INET; t.sin_port = htons(5353); t.sin_addr.s_addr = inet_addr("224.0.0.251"); sendto(ufd, a.data(), a.size(), 0, (sockaddr*)&t, sizeof t); } }));
  tasks.push_back(spawn(host, "raw-accept", [this] {
    while (!stop) { fd_set r; FD_ZERO(&r); FD_SET(lfd, &r); struct timeval tv{ 1, 0 }; if (select(lfd + 1, &r, 0, 0, &tv) <= 0) continue; int c = accept(lfd, 0, 0); if (c < 0) continue; accepted++;
      tasks.push_back(spawn(host, "raw-conn", [this, c] {
        if (behave) behave(c); else { Packet p; if (readPacket(c, p, now() + 30 * SEC)) { got.push_back(p); Packet a; a.body = retJson(p.body, true, "", *this); sendAll(c, a.bytes()); } }
        close(c); })); } }));
}
void RawPeer::shutdown() { stop = true; for (size_t i = 0; i < tasks.size(); i++) joinTask(tasks[i]); On o(host); close(lfd); close(ufd); }
bool RawPeer::join(const std::string& ip, int p, Packet* ans) {
  On o(host); int fd = tcpConnect(ip, p); if (fd < 0) return false; Packet k; k.body = joinJson("raw", name, uuidStr(uuid), 1, 6); Packet a; bool ok = sendAll(fd, k.bytes()) && readPacket(fd, a, now() + 20 * SEC); if (ok && ans) *ans = a; close(fd); return ok; }

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
void quietLog() { static NullBuf nb; std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb); varySettings(true); }
void calmNet() { net = NetCfg(); }
void defaultSched() { sched = SchedCfg(); }
void randomSched() {
  if (choose(C_CFG, 3) == 1) { static const u32 PM[] = { 20000, 3000, 500, 100 }; sched.preemptMean = PM[choose(C_CFG, 4)]; }   // threads are also interrupted within library code
  switch (choose(C_CFG, 5)) { case 0: sched.switchProb = 0.1; break; case 1: sched.switchProb = 0.5; sched.spuriousProb = 0.02; break; case 2: sched.switchProb = 0.9; break; case 3: sched.switchProb = 0.02; break; case 4: sched.switchProb = 0.3; sched.spuriousProb = 0.2; break; } }
}
