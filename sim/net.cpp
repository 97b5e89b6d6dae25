// Simulated network stack: sockets, epoll, eventfd, timerfd, select/poll, resolver, interfaces, clocks.
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#include "internal.h"
#include "net.h"
#include "fs.h"
#include <deque>
#include <memory>
#include <algorithm>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <sys/eventfd.h>
#include <sys/uio.h>
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <net/if.h>
namespace sim {
NetCfg net;
constexpr int FD0 = 100, FD1 = 1000;
struct EpollObj;
struct Obj {
  enum K { TCP, UDP, EPOLL, EVENT, TIMER, PIPE_R, PIPE_W } k; int fd = -1, host = 0; bool nb = false; bool closed = false;
  std::vector<std::pair<EpollObj*, int>> watchers;
  Obj(K k_) : k(k_) {} virtual ~Obj() {}
  virtual u32 ready() = 0; void notify();
};
struct EpItem { std::shared_ptr<Obj> o; u32 ev; epoll_data_t data; bool armed; };
struct EpollObj : Obj {
  std::map<int, EpItem> items; EpollObj() : Obj(EPOLL) {}
  u32 ready() override { for (auto& i : items) if (itemReady(i.second)) return EPOLLIN; return 0; }
  static u32 itemReady(EpItem& i) { u32 r = i.o->ready() & (i.ev | EPOLLERR | EPOLLHUP); if (!r) return 0; if ((i.ev & EPOLLET) && !i.armed) return 0; return r; }
};
void Obj::notify() { for (auto& w : watchers) { auto it = w.first->items.find(w.second); if (it != w.first->items.end() && it->second.o.get() == this) it->second.armed = true; } }
struct EventObj : Obj { u64 v = 0; EventObj() : Obj(EVENT) {} u32 ready() override { return (v ? EPOLLIN : 0) | EPOLLOUT; } };
struct TimerObj : Obj { u64 exp = NEVER, interval = 0, gen = 0; bool fired = false; TimerObj() : Obj(TIMER) {} u32 ready() override { return fired ? EPOLLIN : 0; } };

struct TcpObj : Obj, std::enable_shared_from_this<TcpObj> {
  enum S { FRESH, BOUND, LISTEN, CONNECTING, EST, DEAD } s = FRESH;
  u32 lip = 0, rip = 0; int lport = 0, rport = 0; bool v6 = false;
  std::weak_ptr<TcpObj> peer;
  std::string rx; size_t rxOff = 0; bool eof = false, rst = false, rstSeen = false, wrShut = false; int err = 0;
  size_t inflight = 0; u64 lastDeliver = 0; u64 cap = 65536; bool finSent = false, linger0 = false;
  std::deque<std::shared_ptr<TcpObj>> q; int backlog = 0; bool everConnected = false;
  TcpObj() : Obj(TCP) {}
  size_t avail() const { return rx.size() - rxOff; }
  size_t space() { auto p = peer.lock(); if (!p) return s == EST ? cap : 0; size_t u = inflight + p->avail(); return u >= p->cap ? 0 : p->cap - u; }
  u32 ready() override {
    if (s == LISTEN) return q.empty() ? 0 : EPOLLIN;
    if (s == FRESH || s == BOUND) return EPOLLOUT | EPOLLHUP;
    if (s == CONNECTING) return 0;
    u32 r = 0;
    if (avail() || eof || rst || err) r |= EPOLLIN;
    if (eof) r |= EPOLLRDHUP;
    if (rst || err) r |= EPOLLERR | EPOLLHUP | EPOLLOUT;
    if (s == DEAD) r |= EPOLLHUP | EPOLLOUT | EPOLLIN;
    if (s == EST && space() > 0) r |= EPOLLOUT;
    if (s == EST && wrShut) r |= EPOLLOUT;
    if (eof && wrShut) r |= EPOLLHUP;
    return r;
  }
};
struct Dgram { std::string data; u32 sip; int sport; };
struct UdpObj : Obj {
  u32 lip = 0; int lport = 0; bool v6 = false, loop = true, bound = false; u32 mif = 0; std::set<std::pair<u32, u32>> groups; std::deque<Dgram> rx; int reuse = 0;
  UdpObj() : Obj(UDP) {} u32 ready() override { return (rx.empty() ? 0 : EPOLLIN) | EPOLLOUT; }
};
struct PipeBuf { std::string d; bool wclosed = false, rclosed = false; };
struct PipeObj : Obj { std::shared_ptr<PipeBuf> b; PipeObj(K k) : Obj(k) {} u32 ready() override { if (k == PIPE_R) return (b->d.size() || b->wclosed) ? EPOLLIN : 0; return EPOLLOUT; } };

struct Host { std::string name; std::vector<std::string> ips; std::vector<u32> addrs; bool up = true; i64 wallOff = 0; std::set<int> cut; u64 udpTx = 0, udpRx = 0, conns = 0; int nextPort = 32768; bool isolated = false; };
static std::vector<Host> hosts;
static std::map<int, std::shared_ptr<Obj>> fds;
static std::function<void(int, const std::string&, u32, int)> udpObs;
static std::function<void(int, const std::string&, int)> connObs;
static Host& H(int h) { while ((int)hosts.size() <= h) hosts.push_back(Host()); return hosts[h]; }
int addHost(const char* name, const std::vector<std::string>& ips) {
  if (hosts.empty()) hosts.push_back(Host());
  Host h; h.name = name; h.ips = ips; for (auto& i : ips) h.addrs.push_back(inet_addr(i.c_str())); hosts.push_back(h); return (int)hosts.size() - 1; }
const std::string& hostIp(int h, int i) { return H(h).ips[i]; }
void partition(int a, int b, bool c) { if (c) { H(a).cut.insert(b); H(b).cut.insert(a); fault(F_PARTITION); } else { H(a).cut.erase(b); H(b).cut.erase(a); fault(F_HEAL); } logev("partition %d %d %d", a, b, c); }
void isolate(int h, bool c) { H(h).isolated = c; fault(c ? F_PARTITION : F_HEAL); logev("isolate %d %d", h, c); }
bool hostUp(int h) { return H(h).up; }
void jumpWall(int h, i64 d) { H(h).wallOff += d; fault(F_CLOCK_JUMP); logev("clock jump h%d %lld", h, (long long)d); }
u64 udpSent(int h) { return H(h).udpTx; } u64 udpRecv(int h) { return H(h).udpRx; } u64 tcpConnects(int h) { return H(h).conns; }
void onUdp(std::function<void(int, const std::string&, u32, int)> f) { udpObs = f; }
void onConnect(std::function<void(int, const std::string&, int)> f) { connObs = f; }
constexpr u64 WALL0 = 1767225600ull * SEC;
u64 wallNow(int h) { return WALL0 + now() + H(h).wallOff; }
u64 wallToMono(int h, u64 w) { i64 m = (i64)(w - WALL0 - H(h).wallOff); return m < 0 ? 0 : (u64)m; }
static int hostOfIp(u32 ip, int from) {
  if ((ip & 0xff) == 127) return from; if (ip == 0) return from;
  for (size_t i = 1; i < hosts.size(); i++) for (u32 a : hosts[i].addrs) if (a == ip) return (int)i; return -1; }
static bool reach(int a, int b) { if (!H(a).up || !H(b).up) return false; if (a == b) return true; return !H(a).cut.count(b) && !H(a).isolated && !H(b).isolated; }
static u64 lat(int a, int b) { if (a == b) return 20 * US; return range(C_NET, net.latLo, net.latHi); }
static std::shared_ptr<Obj> get(int fd) { auto it = fds.find(fd); return it == fds.end() ? nullptr : it->second; }
template<class T> static std::shared_ptr<T> getAs(int fd, Obj::K k) { auto o = get(fd); if (!o || o->k != k) return nullptr; return std::static_pointer_cast<T>(o); }
static ssize_t fsWritev(int fd, const struct iovec* v, int c) { std::string s; for (int i = 0; i < c; i++) s.append((char*)v[i].iov_base, v[i].iov_len); return fsWrite(fd, s.data(), s.size()); }
static bool isSim(int fd) { return active() && fd >= FD0 && fd < FD1; }
static int install(std::shared_ptr<Obj> o) { for (int f = FD0; f < FD1; f++) if (!fds.count(f)) { fds[f] = o; o->fd = f; o->host = curHost(); return f; } errno = EMFILE; return -1; }
int openFds(int h) { int n = 0; for (auto& f : fds) if (f.second->host == h) n++; return n; }
std::string fdReport(int h) { std::string s; static const char* K[] = { "tcp", "udp", "epoll", "eventfd", "timerfd", "pipe", "pipe" }; for (auto& f : fds) if (f.second->host == h) { s += std::to_string(f.first) + ":" + K[f.second->k]; if (f.second->k == Obj::TCP) s += std::to_string(((TcpObj*)f.second.get())->s); s += " "; } return s; }
int ipCount(int h) { return (int)H(h).ips.size(); }
static std::set<std::pair<int, int>> everListened;
bool listenedOn(int h, int port) { return everListened.count({ h, port }); }
int listenPort(int h) { for (auto& f : fds) if (f.second->host == h && f.second->k == Obj::TCP) { auto t = (TcpObj*)f.second.get(); if (t->s == TcpObj::LISTEN) return t->lport; } return 0; }
bool listening(int h, int port) { for (auto& f : fds) if (f.second->host == h && f.second->k == Obj::TCP) { auto t = (TcpObj*)f.second.get(); if (t->s == TcpObj::LISTEN && t->lport == port) return true; } return false; }

// ---------------------------------------------------------------- TCP
static void deliverRst(std::shared_ptr<TcpObj> t) { if (t->s == TcpObj::DEAD || t->closed) return; if (t->s == TcpObj::EST || t->s == TcpObj::CONNECTING) { t->rst = true; t->err = t->s == TcpObj::CONNECTING ? ECONNREFUSED : (t->wrShut && t->eof ? 0 : ECONNRESET); t->s = TcpObj::DEAD; logev("rst fd%d", t->fd); t->notify(); } }
static void sendCtl(std::shared_ptr<TcpObj> from, bool rst);
static void deliverWhenReachable(int a, int b, u64 when, u64 rto, std::function<void()> fn) {
  at(when, [=] { if (!H(b).up) return; if (!reach(a, b)) { fault(F_TCP_RETRANS); deliverWhenReachable(a, b, now() + rto, std::min(rto * 2, 8 * SEC), fn); return; } fn(); });
}
static u64 segTime(TcpObj* t, int to) {
  u64 d = lat(t->host, to);
  if (chance(C_FAULT, net.tcpDelayP)) { fault(F_TCP_DELAY); d += range(C_FAULT, 5, 400) * MS; }
  if (chance(C_FAULT, net.tcpRetransP)) { fault(F_TCP_RETRANS); d += 200 * MS * (1 + choose(C_FAULT, 4)); }
  u64 when = std::max(t->lastDeliver, now() + d); t->lastDeliver = when; return when; }
static void sendData(std::shared_ptr<TcpObj> t, const char* p, size_t n) {
  auto peer = t->peer.lock(); if (!peer) { at(now() + lat(t->host, 0), [t] { deliverRst(t); }); return; }   // the other end is gone
  size_t seg = std::max<size_t>(net.mss, n / 48 + 1);
  for (size_t o = 0; o < n; o += seg) {
    std::string d(p + o, std::min(seg, n - o)); t->inflight += d.size();
    int a = t->host, b = peer->host;
    auto wt = t; 
    deliverWhenReachable(a, b, segTime(t.get(), b), 200 * MS, [wt, peer, d] {
      wt->inflight -= d.size();
      if (peer->closed || peer->s == TcpObj::DEAD) { if (!peer->rst || peer->closed) sendCtl(peer, true); return; }
      if (peer->rxOff > 65536) { peer->rx.erase(0, peer->rxOff); peer->rxOff = 0; }
      peer->rx += d; hashEv(10, peer->fd, d.size()); peer->notify();
    });
  }
}
static void sendCtl(std::shared_ptr<TcpObj> t, bool rst) {
  auto peer = t->peer.lock(); if (!peer) return;
  if (!rst) { if (t->finSent) return; t->finSent = true; }
  int a = t->host, b = peer->host; u64 when = rst ? now() + lat(a, b) : segTime(t.get(), b);
  deliverWhenReachable(a, b, when, 200 * MS, [peer, rst] {
    if (peer->closed) return;
    if (rst) deliverRst(peer); else { peer->eof = true; hashEv(11, peer->fd); peer->notify(); } });
}
static void tcpClose(std::shared_ptr<TcpObj> t) {
  if (t->s == TcpObj::LISTEN) { for (auto& c : t->q) { c->closed = true; sendCtl(c, true); } t->q.clear(); }
  else if (t->s == TcpObj::EST) { if (t->avail() > 0 || t->linger0) { if (t->linger0) fault(F_TCP_RST); sendCtl(t, true); } else if (!t->finSent) sendCtl(t, false); }
  t->closed = true;
}
static int allocPort(int h) { Host& x = H(h); for (;;) { int p = x.nextPort++; if (x.nextPort > 60000) x.nextPort = 32768; bool used = false; for (auto& f : fds) if (f.second->host == h && f.second->k == Obj::TCP && ((TcpObj*)f.second.get())->lport == p) used = true; if (!used) return p; } }
static void synArrive(std::shared_ptr<TcpObj> c, int dst, int attempt);
static void sendSyn(std::shared_ptr<TcpObj> c, int attempt) {
  if (c->s != TcpObj::CONNECTING || c->closed) return;
  static const u64 back[] = { 1, 2, 4, 8, 16, 32, 64 };
  if (attempt >= 7) { c->err = ETIMEDOUT; c->s = TcpObj::DEAD; c->rst = true; c->notify(); return; }
  int dst = hostOfIp(c->rip, c->host);
  u64 retry = now() + back[attempt] * SEC;
  at(retry, [c, attempt] { sendSyn(c, attempt + 1); });
  if (dst < 0 || !reach(c->host, dst)) { fault(F_TCP_BLACKHOLE); return; }
  if (dst != c->host && chance(C_FAULT, net.synLossP)) { fault(F_TCP_SYN_LOST); return; }
  at(now() + lat(c->host, dst), [c, dst, attempt] { synArrive(c, dst, attempt); });
}
static void synArrive(std::shared_ptr<TcpObj> c, int dst, int attempt) {
  if (c->s != TcpObj::CONNECTING || c->closed || !reach(c->host, dst)) return;
  TcpObj* l = nullptr;
  for (auto& f : fds) if (f.second->k == Obj::TCP && f.second->host == dst) { auto t = (TcpObj*)f.second.get(); if (t->s == TcpObj::LISTEN && t->lport == c->rport && (t->lip == 0 || t->lip == c->rip)) l = t; }
  if (!l) { fault(F_TCP_REFUSED); at(now() + lat(dst, c->host), [c] { if (c->s == TcpObj::CONNECTING) { c->err = ECONNREFUSED; c->s = TcpObj::DEAD; c->rst = true; c->notify(); } }); return; }
  if ((int)l->q.size() > l->backlog) return; // dropped, client retries
  auto s = std::make_shared<TcpObj>(); s->host = dst; s->s = TcpObj::EST; s->lip = c->rip; s->lport = c->rport; s->rip = c->lip; s->rport = c->lport; s->cap = net.rxCap; s->peer = c; s->everConnected = true;
  c->peer = s; l->q.push_back(s); l->notify(); hashEv(12, l->fd, c->fd);
  at(now() + lat(dst, c->host), [c] { if (c->s == TcpObj::CONNECTING && !c->closed) { c->s = TcpObj::EST; c->everConnected = true; hashEv(13, c->fd); c->notify(); } });
  if (chance(C_FAULT, net.rstP)) { u64 d = range(C_FAULT, 0, 50000) * US; fault(F_TCP_RST); at(now() + d, [c, s] { deliverRst(c); deliverRst(s); }); }
}
void resetAllConnections(int h, double p) {
  std::vector<std::shared_ptr<TcpObj>> v; for (auto& f : fds) if (f.second->k == Obj::TCP && f.second->host == h && ((TcpObj*)f.second.get())->s == TcpObj::EST) v.push_back(std::static_pointer_cast<TcpObj>(f.second));
  for (auto& t : v) if (chance(C_FAULT, p)) { fault(F_TCP_RST); auto q = t->peer.lock(); deliverRst(t); if (q) deliverRst(q); }
}
void crashHost(int h, bool power) {
  logev("crash host %d power=%d", h, power); fault(power ? F_HOST_POWERLOSS : F_HOST_CRASH);
  freezeHostTasks(h);
  std::vector<int> v; for (auto& f : fds) if (f.second->host == h) v.push_back(f.first);
  for (int f : v) { auto o = fds[f]; fds.erase(f); if (o->k == Obj::TCP && !power) tcpClose(std::static_pointer_cast<TcpObj>(o)); o->closed = true; }
  if (power) H(h).up = false;
}
void restartHost(int h) { H(h).up = true; fault(F_HOST_RESTART); logev("restart host %d", h); }

// ---------------------------------------------------------------- UDP
static bool isMcast(u32 ip) { return ((ip & 0xff) & 0xf0) == 0xe0; }
static void udpPut(int dst, std::shared_ptr<UdpObj> s, Dgram d) { if (s->closed) return; if (s->rx.size() > 200) { fault(F_UDP_LOSS); return; } hashEv(20, s->fd, fnv(d.data.data(), d.data.size())); s->rx.push_back(std::move(d)); H(dst).udpRx++; s->notify(); }
static void udpArrive(int src, int dst, u32 dip, int dport, Dgram d) {
  if (!reach(src, dst)) { fault(F_UDP_LOSS); return; }
  std::vector<std::shared_ptr<UdpObj>> v; bool member = false;
  for (auto& f : fds) if (f.second->host == dst && f.second->k == Obj::UDP) { auto u = std::static_pointer_cast<UdpObj>(f.second); if (u->v6 || !u->bound || u->lport != dport) continue; for (auto& g : u->groups) if (g.first == dip) member = true; if (u->lip == 0 || u->lip == dip) v.push_back(u); }
  if (v.empty()) return;
  if (isMcast(dip)) { if (!member) return; for (auto& u : v) udpPut(dst, u, d); }
  else udpPut(dst, v[choose(C_NET, (u32)v.size())], d);
}
static void udpSend(UdpObj* u, u32 dip, int dport, std::string data) {
  int src = u->host; H(src).udpTx++;
  if (udpObs) udpObs(src, data, dip, dport);
  if (!u->bound) { u->bound = true; u->lport = allocPort(src); }
  Dgram d; d.data = std::move(data); d.sport = u->lport; d.sip = u->lip ? u->lip : (u->mif ? u->mif : (H(src).addrs.empty() ? 0x0100007f : H(src).addrs[0]));
  std::vector<int> dst;
  if (isMcast(dip)) { for (size_t i = 1; i < hosts.size(); i++) if ((int)i != src || u->loop) dst.push_back((int)i); }
  else { int h = hostOfIp(dip, src); if (h >= 0) dst.push_back(h); }
  for (int h : dst) {
    if (h != src && chance(C_FAULT, net.udpLossP)) { fault(F_UDP_LOSS); continue; }
    int copies = 1; if (chance(C_FAULT, net.udpDupP)) { fault(F_UDP_DUP); copies = 2; }
    for (int c = 0; c < copies; c++) {
      Dgram e = d; u64 t = lat(src, h);
      if (chance(C_FAULT, net.udpReorderP)) { fault(F_UDP_REORDER); t += range(C_FAULT, 1, 300) * MS; }
      if (!e.data.empty() && chance(C_FAULT, net.udpCorruptP)) { fault(F_UDP_CORRUPT); if (choose(C_FAULT, 3) == 1) e.data.resize(choose(C_FAULT, (u32)e.data.size() + 1)); else { u32 k = 1 + choose(C_FAULT, 3); for (u32 i = 0; i < k && !e.data.empty(); i++) e.data[choose(C_FAULT, (u32)e.data.size())] = (char)choose(C_FAULT, 256); } }
      at(now() + t, [=] { udpArrive(src, h, dip, dport, e); });
    }
  }
}
static void closeFd(int fd) {
  auto it = fds.find(fd); if (it == fds.end()) return; auto o = it->second; fds.erase(it); hashEv(30, fd);
  o->closed = true;
  for (auto& w : o->watchers) { auto i = w.first->items.find(w.second); if (i != w.first->items.end() && i->second.o == o) w.first->items.erase(i); }
  o->watchers.clear();
  if (o->k == Obj::TCP) { o->closed = false; tcpClose(std::static_pointer_cast<TcpObj>(o)); }
  if (o->k == Obj::EPOLL) { auto e = std::static_pointer_cast<EpollObj>(o); for (auto& i : e->items) { auto& w = i.second.o->watchers; w.erase(std::remove_if(w.begin(), w.end(), [&](std::pair<EpollObj*, int>& p) { return p.first == e.get(); }), w.end()); } }
  if (o->k == Obj::PIPE_W) std::static_pointer_cast<PipeObj>(o)->b->wclosed = true;
  if (o->k == Obj::PIPE_R) std::static_pointer_cast<PipeObj>(o)->b->rclosed = true;
}
static bool lf(double p) { return (net.faultHost < 0 || net.faultHost == curHost()) && chance(C_FAULT, p); }
static bool eintr() { if (lf(net.eintrP)) { fault(F_EINTR); errno = EINTR; return true; } return false; }
static ssize_t tcpRecv(std::shared_ptr<TcpObj> t, char* p, size_t n, int flags) {
  if (t->s == TcpObj::FRESH || t->s == TcpObj::BOUND || t->s == TcpObj::LISTEN || (t->s == TcpObj::CONNECTING)) { errno = t->s == TcpObj::CONNECTING ? EAGAIN : ENOTCONN; return -1; }
  for (;;) {
    if (t->avail()) break;
    if (t->err) { errno = t->err; t->err = 0; return -1; }
    if (t->eof || t->s == TcpObj::DEAD) return 0;
    if (n == 0) return 0;
    if (t->nb || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
    if (eintr()) return -1;
    blockUntil([&] { return t->avail() || t->err || t->eof || t->s == TcpObj::DEAD || t->closed; }, NEVER, "recv");
    if (t->closed) { errno = EBADF; return -1; }
  }
  size_t k = std::min(n, t->avail());
  if (k > 1 && chance(C_FAULT, net.shortReadP)) { fault(F_TCP_SHORT_READ); k = 1 + choose(C_FAULT, (u32)k - 1); }
  memcpy(p, t->rx.data() + t->rxOff, k);
  if (!(flags & MSG_PEEK)) { t->rxOff += k; if (t->rxOff == t->rx.size()) { t->rx.clear(); t->rxOff = 0; } if (auto q = t->peer.lock()) q->notify(); }
  hashEv(31, t->fd, k);
  return k;
}
static ssize_t tcpSend(std::shared_ptr<TcpObj> t, const char* p, size_t n, int flags) {
  for (;;) {
    if (t->err) { errno = t->err; t->err = 0; return -1; }
    if (t->s == TcpObj::CONNECTING) { errno = EAGAIN; return -1; }
    if (t->s != TcpObj::EST || t->wrShut) { errno = t->s == TcpObj::EST || t->s == TcpObj::DEAD ? EPIPE : ENOTCONN; return -1; }
    if (t->space()) break;
    if (t->nb || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
    blockUntil([&] { return t->space() || t->err || t->s == TcpObj::DEAD || t->closed; }, NEVER, "send");
    if (t->closed) { errno = EBADF; return -1; }
  }
  size_t k = std::min(n, t->space());
  if (k > 1 && chance(C_FAULT, net.shortWriteP)) { fault(F_TCP_SHORT_WRITE); k = 1 + choose(C_FAULT, (u32)k - 1); }
  sendData(t, p, k); hashEv(32, t->fd, k);
  return k;
}
static void fillAddr(struct sockaddr* a, socklen_t* l, u32 ip, int port, bool v6 = false) {
  if (!a || !l) return;
  if (v6) { sockaddr_in6 s{}; s.sin6_family = AF_INET6; s.sin6_port = htons(port); memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; return; }
  sockaddr_in s{}; s.sin_family = AF_INET; s.sin_port = htons(port); s.sin_addr.s_addr = ip; memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; }
} // namespace sim
using namespace sim;

#define W(ret, name, params, args) extern "C" ret __real_##name params; extern "C" ret __wrap_##name params { if (!active()) return __real_##name args; NoPreempt np;
#define WFD2(ret, name, params, args, fd, fsx) extern "C" ret __real_##name params; extern "C" ret __wrap_##name params { if (isFsFd(fd)) return fsx; if (!isSim(fd)) return __real_##name args; NoPreempt np;
#define WFD(ret, name, params, args, fd) extern "C" ret __real_##name params; extern "C" ret __wrap_##name params { if (!isSim(fd)) return __real_##name args; NoPreempt np;

W(int, socket, (int d, int t, int p), (d, t, p))
  yield("socket");
  if (lf(net.sockFailP)) { fault(F_SOCK_FAIL); errno = choose(C_FAULT, 2) ? ENOBUFS : EMFILE; return -1; }
  int ty = t & 0xf; std::shared_ptr<Obj> o;
  if (d == AF_INET6 && !net.ipv6) { errno = EAFNOSUPPORT; return -1; }
  if (d != AF_INET && d != AF_INET6) { errno = EAFNOSUPPORT; return -1; }
  if (ty == SOCK_STREAM) { auto x = std::make_shared<TcpObj>(); x->v6 = d == AF_INET6; x->cap = net.rxCap; o = x; } else { auto x = std::make_shared<UdpObj>(); x->v6 = d == AF_INET6; o = x; }
  o->nb = t & SOCK_NONBLOCK; int fd = install(o); logev("socket(%d,%d)=%d", d, ty, fd); return fd; }
WFD(int, bind, (int fd, const struct sockaddr* a, socklen_t l), (fd, a, l), fd)
  auto o = get(fd); if (!o) { errno = EBADF; return -1; } int port = 0; u32 ip = 0;
  if (a->sa_family == AF_INET) { port = ntohs(((sockaddr_in*)a)->sin_port); ip = ((sockaddr_in*)a)->sin_addr.s_addr; } else port = ntohs(((sockaddr_in6*)a)->sin6_port);
  if (!port) port = allocPort(o->host);
  if (o->k == Obj::TCP) { auto t = (TcpObj*)o.get(); t->lip = ip; t->lport = port; t->s = TcpObj::BOUND; }
  else { auto u = (UdpObj*)o.get();
    if (!u->reuse) for (auto& f : fds) if (f.second->k == Obj::UDP && f.second->host == o->host) { auto x = (UdpObj*)f.second.get(); if (x != u && x->bound && x->lport == port && x->v6 == u->v6) { errno = EADDRINUSE; return -1; } }
    u->lip = ip; u->lport = port; u->bound = true; }
  logev("bind fd%d port %d", fd, port); return 0; }
WFD(int, listen, (int fd, int b), (fd, b), fd) auto t = getAs<TcpObj>(fd, Obj::TCP); if (!t) { errno = ENOTSOCK; return -1; } if (!t->lport) t->lport = allocPort(t->host); t->s = TcpObj::LISTEN; everListened.insert({ t->host, t->lport }); t->backlog = std::max(1, std::min(b, 128)); return 0; }
static int doAccept(int fd, struct sockaddr* a, socklen_t* l, int fl) {
  NoPreempt np; yield("accept"); auto t = getAs<TcpObj>(fd, Obj::TCP); if (!t) { errno = EBADF; return -1; }
  if (t->s != TcpObj::LISTEN) { errno = EINVAL; return -1; }
  while (t->q.empty()) { if (t->nb) { errno = EAGAIN; return -1; } if (eintr()) return -1; blockUntil([&] { return !t->q.empty() || t->closed; }, NEVER, "accept"); if (t->closed) { errno = EBADF; return -1; } }
  if (lf(net.emfileP)) { fault(F_EMFILE); errno = choose(C_FAULT, 2) ? ENFILE : EMFILE; return -1; }
  auto s = t->q.front(); t->q.pop_front();
  if (chance(C_FAULT, net.acceptAbortP)) { fault(F_ECONNABORTED); sendCtl(s, true); s->closed = true; errno = ECONNABORTED; return -1; }
  s->nb = fl & SOCK_NONBLOCK; int n = install(s); fillAddr(a, l, s->rip, s->rport); logev("accept fd%d -> fd%d port %d", fd, n, s->rport); return n; }
WFD(int, accept, (int fd, struct sockaddr* a, socklen_t* l), (fd, a, l), fd) return doAccept(fd, a, l, 0); }
WFD(int, accept4, (int fd, struct sockaddr* a, socklen_t* l, int f), (fd, a, l, f), fd) return doAccept(fd, a, l, f); }
WFD(int, connect, (int fd, const struct sockaddr* a, socklen_t l), (fd, a, l), fd)
  yield("connect"); auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  sockaddr_in* in = (sockaddr_in*)a;
  if (o->k != Obj::TCP) { errno = EOPNOTSUPP; return -1; }
  auto t = std::static_pointer_cast<TcpObj>(o);
  if (t->s == TcpObj::CONNECTING) { errno = EALREADY; return -1; } if (t->s == TcpObj::EST) { errno = EISCONN; return -1; } if (t->s == TcpObj::DEAD) { errno = t->err ? t->err : ECONNABORTED; t->err = 0; return -1; }
  if (a->sa_family != AF_INET) { errno = ENETUNREACH; fault(F_ENETUNREACH); return -1; }
  t->rip = in->sin_addr.s_addr; t->rport = ntohs(in->sin_port); if (!t->lport) t->lport = allocPort(t->host); 
  if (!t->lip) t->lip = (t->rip & 0xff) == 127 || H(t->host).addrs.empty() ? 0x0100007f : H(t->host).addrs[0];
  H(t->host).conns++; t->s = TcpObj::CONNECTING; logev("connect fd%d -> %s:%d", fd, inet_ntoa(in->sin_addr), t->rport);
  if (connObs) connObs(t->host, inet_ntoa(in->sin_addr), t->rport);
  if (t->rport == 0) { t->err = ECONNREFUSED; t->s = TcpObj::DEAD; errno = ECONNREFUSED; t->err = 0; return -1; }
  sendSyn(t, 0);
  if (t->nb) { errno = EINPROGRESS; return -1; }
  blockUntil([&] { return t->s != TcpObj::CONNECTING || t->closed; }, NEVER, "connect");
  if (t->closed) { errno = EBADF; return -1; }
  if (t->s == TcpObj::EST) return 0; errno = t->err ? t->err : ECONNREFUSED; t->err = 0; return -1; }
static ssize_t doSend(int fd, const void* p, size_t n, int f, const sockaddr* a, socklen_t l) {
  NoPreempt np; yield("send"); auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  if (o->k == Obj::TCP) return tcpSend(std::static_pointer_cast<TcpObj>(o), (const char*)p, n, f);
  if (o->k == Obj::UDP) { auto u = std::static_pointer_cast<UdpObj>(o); if (!a) { errno = EDESTADDRREQ; return -1; }
    if (lf(net.udpSendFailP)) { fault(F_ENETUNREACH); errno = choose(C_FAULT, 2) ? ENOBUFS : ENETUNREACH; return -1; }
    if (u->v6 || a->sa_family != AF_INET) { H(u->host).udpTx++; return n; }
    const sockaddr_in* in = (const sockaddr_in*)a; logev("udp fd%d -> %08x:%d len %zu", fd, ntohl(in->sin_addr.s_addr), ntohs(in->sin_port), n);
    if (n > 65507) { errno = EMSGSIZE; return -1; }
    udpSend(u.get(), in->sin_addr.s_addr, ntohs(in->sin_port), std::string((const char*)p, n)); return n; }
  errno = ENOTSOCK; return -1; }
static ssize_t doRecv(int fd, void* p, size_t n, int f, sockaddr* a, socklen_t* l) {
  NoPreempt np; yield("recv"); auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  if (o->k == Obj::TCP) return tcpRecv(std::static_pointer_cast<TcpObj>(o), (char*)p, n, f);
  if (o->k == Obj::UDP) { auto u = std::static_pointer_cast<UdpObj>(o);
    if (u->rx.empty()) { if (u->nb || (f & MSG_DONTWAIT)) { errno = EAGAIN; return -1; } if (eintr()) return -1; blockUntil([&] { return !u->rx.empty() || u->closed; }, NEVER, "recvfrom"); if (u->closed) { errno = EBADF; return -1; } }
    Dgram d = u->rx.front(); u->rx.pop_front(); size_t k = std::min(n, d.data.size());
    // the library's buffer is poisoned behind the datagram, so that bytes left over from an earlier one cannot be read
    bool heap = __sanitizer_get_ownership(p); if (heap) { if (n > __sanitizer_get_allocated_size(p)) violation("recv-overflow", "recvfrom may write %zu bytes into a buffer of %zu", n, __sanitizer_get_allocated_size(p)); __asan_unpoison_memory_region(p, n); }
    memcpy(p, d.data.data(), k); if (heap) __asan_poison_memory_region((char*)p + k, n - k); fillAddr(a, l, d.sip, d.sport, u->v6); hashEv(33, fd, k); return k; }
  errno = ENOTSOCK; return -1; }
WFD(ssize_t, send, (int fd, const void* p, size_t n, int f), (fd, p, n, f), fd) return doSend(fd, p, n, f, 0, 0); }
WFD(ssize_t, sendto, (int fd, const void* p, size_t n, int f, const struct sockaddr* a, socklen_t l), (fd, p, n, f, a, l), fd) return doSend(fd, p, n, f, a, l); }
WFD(ssize_t, recv, (int fd, void* p, size_t n, int f), (fd, p, n, f), fd) return doRecv(fd, p, n, f, 0, 0); }
WFD(ssize_t, recvfrom, (int fd, void* p, size_t n, int f, struct sockaddr* a, socklen_t* l), (fd, p, n, f, a, l), fd) return doRecv(fd, p, n, f, a, l); }
WFD(ssize_t, sendmsg, (int fd, const struct msghdr* m, int f), (fd, m, f), fd) std::string s; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return doSend(fd, s.data(), s.size(), f, (sockaddr*)m->msg_name, m->msg_namelen); }
WFD(ssize_t, recvmsg, (int fd, struct msghdr* m, int f), (fd, m, f), fd) size_t t = 0; for (size_t i = 0; i < m->msg_iovlen; i++) t += m->msg_iov[i].iov_len; std::string s(t, 0); ssize_t r = doRecv(fd, &s[0], t, f, (sockaddr*)m->msg_name, &m->msg_namelen); if (r > 0) { size_t o = 0; for (size_t i = 0; i < m->msg_iovlen && o < (size_t)r; i++) { size_t k = std::min(m->msg_iov[i].iov_len, (size_t)r - o); memcpy(m->msg_iov[i].iov_base, &s[o], k); o += k; } } m->msg_flags = 0; return r; }
WFD2(ssize_t, read, (int fd, void* p, size_t n), (fd, p, n), fd, fsRead(fd, p, n))
  auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  if (o->k == Obj::EVENT) { auto e = (EventObj*)o.get(); if (!e->v) { if (e->nb) { errno = EAGAIN; return -1; } blockUntil([&] { return e->v != 0; }, NEVER, "eventfd"); } memcpy(p, &e->v, 8); e->v = 0; return 8; }
  if (o->k == Obj::TIMER) { auto e = (TimerObj*)o.get(); if (!e->fired) { errno = EAGAIN; return -1; } u64 one = 1; memcpy(p, &one, 8); e->fired = false; return 8; }
  if (o->k == Obj::PIPE_R) { auto e = std::static_pointer_cast<PipeObj>(o); if (e->b->d.empty()) { if (e->b->wclosed) return 0; if (e->nb) { errno = EAGAIN; return -1; } blockUntil([&] { return !e->b->d.empty() || e->b->wclosed; }, NEVER, "pipe"); } size_t k = std::min(n, e->b->d.size()); memcpy(p, e->b->d.data(), k); e->b->d.erase(0, k); return k; }
  return doRecv(fd, p, n, 0, 0, 0); }
WFD2(ssize_t, write, (int fd, const void* p, size_t n), (fd, p, n), fd, fsWrite(fd, p, n))
  auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  if (o->k == Obj::EVENT) { auto e = (EventObj*)o.get(); u64 v; memcpy(&v, p, 8); e->v += v; e->notify(); yield("eventfd_write"); return 8; }
  if (o->k == Obj::PIPE_W) { auto e = std::static_pointer_cast<PipeObj>(o); e->b->d.append((const char*)p, n); for (auto& f : fds) if (f.second->k == Obj::PIPE_R && std::static_pointer_cast<PipeObj>(f.second)->b == e->b) f.second->notify(); return n; }
  return doSend(fd, p, n, 0, 0, 0); }
WFD2(ssize_t, readv, (int fd, const struct iovec* v, int c), (fd, v, c), fd, fsRead(fd, v[0].iov_base, v[0].iov_len)) msghdr m{}; m.msg_iov = (iovec*)v; m.msg_iovlen = c; size_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len; std::string s(t, 0); ssize_t r = doRecv(fd, &s[0], t, 0, 0, 0); size_t o = 0; for (int i = 0; i < c && r > 0 && o < (size_t)r; i++) { size_t k = std::min(v[i].iov_len, (size_t)r - o); memcpy(v[i].iov_base, &s[o], k); o += k; } return r; }
WFD2(ssize_t, writev, (int fd, const struct iovec* v, int c), (fd, v, c), fd, fsWritev(fd, v, c)) std::string s; for (int i = 0; i < c; i++) s.append((char*)v[i].iov_base, v[i].iov_len); return doSend(fd, s.data(), s.size(), 0, 0, 0); }
WFD(int, close, (int fd), (fd), fd) yield("close"); if (!get(fd)) { errno = EBADF; return -1; } closeFd(fd); return 0; }
WFD(int, shutdown, (int fd, int how), (fd, how), fd)
  auto t = getAs<TcpObj>(fd, Obj::TCP); if (!t) { errno = ENOTSOCK; return -1; } if (t->s != TcpObj::EST) { errno = ENOTCONN; return -1; }
  if (how != SHUT_RD) { t->wrShut = true; sendCtl(t, false); } if (how != SHUT_WR) { t->eof = true; } t->notify(); return 0; }
WFD(int, getsockname, (int fd, struct sockaddr* a, socklen_t* l), (fd, a, l), fd) auto o = get(fd); if (!o) { errno = EBADF; return -1; } if (o->k == Obj::TCP) { auto t = (TcpObj*)o.get(); fillAddr(a, l, t->lip, t->lport, t->v6); } else if (o->k == Obj::UDP) { auto t = (UdpObj*)o.get(); fillAddr(a, l, t->lip, t->lport, t->v6); } return 0; }
WFD(int, getpeername, (int fd, struct sockaddr* a, socklen_t* l), (fd, a, l), fd) auto t = getAs<TcpObj>(fd, Obj::TCP); if (!t) { errno = ENOTSOCK; return -1; } if (t->s != TcpObj::EST) { errno = ENOTCONN; probe("getpeername_enotconn"); return -1; } fillAddr(a, l, t->rip, t->rport); return 0; }
WFD(int, getsockopt, (int fd, int lv, int o, void* v, socklen_t* l), (fd, lv, o, v, l), fd) auto x = get(fd); if (!x) { errno = EBADF; return -1; } int r = 0; if (lv == SOL_SOCKET && o == SO_ERROR && x->k == Obj::TCP) { auto t = (TcpObj*)x.get(); r = t->err; t->err = 0; } if (v && *l >= sizeof(int)) memcpy(v, &r, sizeof r); return 0; }
WFD(int, setsockopt, (int fd, int lv, int o, const void* v, socklen_t l), (fd, lv, o, v, l), fd)
  auto x = get(fd); if (!x) { errno = EBADF; return -1; }
  if (x->k == Obj::TCP && lv == SOL_SOCKET && o == SO_LINGER) { auto g = (const struct linger*)v; ((TcpObj*)x.get())->linger0 = g->l_onoff && g->l_linger == 0; }
  if (x->k == Obj::UDP) { auto u = (UdpObj*)x.get();
    if (lv == SOL_SOCKET && (o == SO_REUSEADDR || o == SO_REUSEPORT)) u->reuse = 1;
    if (lv == IPPROTO_IP && o == IP_ADD_MEMBERSHIP) { auto m = (const ip_mreq*)v; u->groups.insert({ m->imr_multiaddr.s_addr, m->imr_interface.s_addr }); }
    if (lv == IPPROTO_IP && o == IP_MULTICAST_IF) u->mif = ((const in_addr*)v)->s_addr;
    if (lv == IPPROTO_IP && o == IP_MULTICAST_LOOP) u->loop = *(const u8*)v != 0; }
  return 0; }
extern "C" int __real_fcntl(int fd, int c, ...);
extern "C" int __wrap_fcntl(int fd, int c, long a) { if (!isSim(fd)) return __real_fcntl(fd, c, a); auto o = get(fd); if (!o) { errno = EBADF; return -1; } if (c == F_GETFL) return o->nb ? O_NONBLOCK : 0; if (c == F_SETFL) { o->nb = a & O_NONBLOCK; return 0; } return 0; }
extern "C" int __real_ioctl(int fd, unsigned long c, ...);
extern "C" int __wrap_ioctl(int fd, unsigned long c, void* a) { if (!isSim(fd)) return __real_ioctl(fd, c, a); auto o = get(fd); if (!o) { errno = EBADF; return -1; } if (c == FIONBIO) { o->nb = *(int*)a; return 0; } if (c == FIONREAD) { int n = 0; if (o->k == Obj::TCP) n = (int)((TcpObj*)o.get())->avail(); *(int*)a = n; return 0; } return 0; }
W(int, pipe, (int p[2]), (p)) auto b = std::make_shared<PipeBuf>(); auto r = std::make_shared<PipeObj>(Obj::PIPE_R); auto w = std::make_shared<PipeObj>(Obj::PIPE_W); r->b = b; w->b = b; p[0] = install(r); p[1] = install(w); return 0; }
W(int, eventfd, (unsigned v, int f), (v, f)) auto e = std::make_shared<EventObj>(); e->v = v; e->nb = f & EFD_NONBLOCK; return install(e); }
W(int, epoll_create1, (int f), (f)) return install(std::make_shared<EpollObj>()); }
W(int, epoll_create, (int f), (f)) return install(std::make_shared<EpollObj>()); }
WFD(int, epoll_ctl, (int ep, int op, int fd, struct epoll_event* ev), (ep, op, fd, ev), ep)
  auto e = getAs<EpollObj>(ep, Obj::EPOLL); auto o = get(fd); if (!e || !o) { errno = EBADF; return -1; }
  if (op == EPOLL_CTL_DEL) { if (!e->items.erase(fd)) { errno = ENOENT; return -1; } auto& w = o->watchers; w.erase(std::remove_if(w.begin(), w.end(), [&](std::pair<EpollObj*, int>& p) { return p.first == e.get(); }), w.end()); return 0; }
  if (op == EPOLL_CTL_ADD) { if (e->items.count(fd)) { errno = EEXIST; return -1; } e->items[fd] = EpItem{ o, ev->events, ev->data, true }; o->watchers.push_back({ e.get(), fd }); return 0; }
  if (!e->items.count(fd)) { errno = ENOENT; return -1; } auto& i = e->items[fd]; i.ev = ev->events; i.data = ev->data; i.armed = true; yield("epoll_mod"); return 0; }
WFD(int, epoll_wait, (int ep, struct epoll_event* ev, int n, int to), (ep, ev, n, to), ep)
  yield("epoll_wait"); auto e = getAs<EpollObj>(ep, Obj::EPOLL); if (!e) { errno = EBADF; return -1; }
  if (to != 0) { if (eintr()) return -1; blockUntil([&] { return e->closed || e->ready(); }, to < 0 ? NEVER : now() + (u64)to * MS, "epoll_wait"); }
  int k = 0; for (auto& i : e->items) { if (k >= n) break; u32 r = EpollObj::itemReady(i.second); if (r) { ev[k].events = r; ev[k].data = i.second.data; k++; if (i.second.ev & EPOLLET) i.second.armed = false; } }
  hashEv(34, ep, k); return k; }
W(int, timerfd_create, (int c, int f), (c, f)) auto t = std::make_shared<TimerObj>(); return install(t); }
WFD(int, timerfd_settime, (int fd, int f, const struct itimerspec* n, struct itimerspec* o), (fd, f, n, o), fd)
  auto t = getAs<TimerObj>(fd, Obj::TIMER); if (!t) { errno = EBADF; return -1; } u64 v = (u64)n->it_value.tv_sec * SEC + n->it_value.tv_nsec; t->fired = false; u64 g = ++t->gen;
  if (v == 0) { t->exp = NEVER; return 0; } t->exp = (f & TFD_TIMER_ABSTIME) ? v : now() + v;
  at(std::max(t->exp, now()), [t, g] { if (t->gen == g && !t->closed) { t->fired = true; t->notify(); } }); return 0; }
static bool anySelect(int n, const fd_set* r, const fd_set* w) {
  for (int i = FD0; i < n; i++) { bool a = r && FD_ISSET(i, r), b = w && FD_ISSET(i, w); if (!a && !b) continue; auto o = get(i); if (!o) return true; u32 e = o->ready(); if (a && (e & (EPOLLIN | EPOLLHUP | EPOLLERR))) return true; if (b && (e & (EPOLLOUT | EPOLLERR))) return true; } return false; }
extern "C" int __real_select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv);
extern "C" int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv) {
  if (!active()) return __real_select(n, r, w, x, tv);
  NoPreempt np; yield("select"); if (eintr()) return -1;
  fd_set r0, w0; FD_ZERO(&r0); FD_ZERO(&w0); if (r) r0 = *r; if (w) w0 = *w;
  for (int i = FD0; i < n; i++) if ((FD_ISSET(i, &r0) || FD_ISSET(i, &w0)) && !get(i)) { errno = EBADF; return -1; }
  blockUntil([&] { return anySelect(n, &r0, &w0); }, tv ? now() + (u64)tv->tv_sec * SEC + (u64)tv->tv_usec * US : NEVER, "select");
  int k = 0; if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x);
  for (int i = FD0; i < n; i++) { auto o = get(i); if (!o) continue; u32 e = o->ready(); if (FD_ISSET(i, &r0) && (e & (EPOLLIN | EPOLLHUP | EPOLLERR))) { FD_SET(i, r); k++; } if (FD_ISSET(i, &w0) && (e & (EPOLLOUT | EPOLLERR))) { FD_SET(i, w); k++; } }
  hashEv(35, k); return k; }
extern "C" int __real_poll(struct pollfd* p, nfds_t n, int to);
extern "C" int __wrap_poll(struct pollfd* p, nfds_t n, int to) {
  if (!active()) return __real_poll(p, n, to);
  NoPreempt np; yield("poll"); if (to != 0 && eintr()) return -1;
  auto chk = [&](bool set) { int k = 0; for (nfds_t i = 0; i < n; i++) { auto o = p[i].fd >= 0 ? get(p[i].fd) : nullptr; short e = 0; if (p[i].fd >= 0 && !o) e = POLLNVAL; else if (o) { u32 r = o->ready(); if (r & EPOLLIN) e |= POLLIN; if (r & EPOLLOUT) e |= POLLOUT; if (r & EPOLLERR) e |= POLLERR; if (r & EPOLLHUP) e |= POLLHUP; e &= p[i].events | POLLERR | POLLHUP; } if (set) p[i].revents = e; if (e) k++; } return k; };
  blockUntil([&] { return chk(false) > 0; }, to < 0 ? NEVER : now() + (u64)to * MS, "poll"); return chk(true); }

// ---------------------------------------------------------------- names, interfaces, clocks, randomness
struct IfBlock { struct ifaddrs* a; };
W(int, getifaddrs, (struct ifaddrs** out), (out))
  *out = nullptr;
  if (lf(net.ifaddrFailP)) { fault(F_IFADDR_FAIL); errno = ENOBUFS; return -1; }
  Host& h = H(curHost()); std::vector<std::pair<std::string, u32>> v; v.push_back({ "lo", 0x0100007f }); for (size_t i = 0; i < h.addrs.size(); i++) v.push_back({ "eth" + std::to_string(i), h.addrs[i] });
  struct ifaddrs* head = nullptr; for (size_t i = v.size(); i-- > 0;) { auto a = (struct ifaddrs*)calloc(1, sizeof(struct ifaddrs)); auto s = (sockaddr_in*)calloc(1, sizeof(sockaddr_in)); s->sin_family = AF_INET; s->sin_addr.s_addr = v[i].second; a->ifa_name = strdup(v[i].first.c_str()); a->ifa_addr = (sockaddr*)s; a->ifa_flags = IFF_UP | IFF_MULTICAST; a->ifa_next = head; head = a; }
  { auto a = (struct ifaddrs*)calloc(1, sizeof(struct ifaddrs)); a->ifa_name = strdup("tun0"); a->ifa_next = head; head = a; } // interface without an address
  *out = head; return 0; }
W(void, freeifaddrs, (struct ifaddrs * a), (a)) while (a) { auto n = a->ifa_next; free(a->ifa_name); free(a->ifa_addr); free(a); a = n; } }
W(int, gethostname, (char* b, size_t n), (b, n)) snprintf(b, n, "%s", H(curHost()).name.c_str()); return 0; }
extern "C" int __real_getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo**);
extern "C" int __wrap_getaddrinfo(const char* n, const char* s, const struct addrinfo* hi, struct addrinfo** out) {
  if (!active()) return __real_getaddrinfo(n, s, hi, out);
  NoPreempt np; yield("getaddrinfo"); logev("resolve '%s' '%s'", n ? n : "", s ? s : "");
  struct in_addr a; if (!n || inet_pton(AF_INET, n, &a) != 1) { fault(F_RESOLVE_FAIL); return EAI_NONAME; }
  auto r = (struct addrinfo*)calloc(1, sizeof(struct addrinfo)); auto x = (sockaddr_in*)calloc(1, sizeof(sockaddr_in)); x->sin_family = AF_INET; x->sin_addr = a; x->sin_port = htons(s ? atoi(s) : 0);
  r->ai_family = AF_INET; r->ai_socktype = SOCK_STREAM; r->ai_protocol = IPPROTO_TCP; r->ai_addr = (sockaddr*)x; r->ai_addrlen = sizeof *x; *out = r; return 0; }
W(void, freeaddrinfo, (struct addrinfo * a), (a)) while (a) { auto n = a->ai_next; free(a->ai_addr); free(a); a = n; } }
W(int, clock_gettime, (clockid_t c, struct timespec* t), (c, t)) u64 v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wallNow(curHost()) : now(); t->tv_sec = v / SEC; t->tv_nsec = v % SEC; return 0; }
extern "C" int __real_gettimeofday(struct timeval*, void*);
extern "C" int __wrap_gettimeofday(struct timeval* t, void* z) { if (!active()) return __real_gettimeofday(t, z); u64 v = wallNow(curHost()); t->tv_sec = v / SEC; t->tv_usec = v % SEC / 1000; return 0; }
W(time_t, time, (time_t * t), (t)) time_t v = wallNow(curHost()) / SEC; if (t) *t = v; return v; }
static u64 rndCtr = 0; static u64 rnd() { u64 z = (++rndCtr) * 0x9e3779b97f4a7c15ull + 12345; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void fillUuid(unsigned char* u) { u64 a = rnd(), b = rnd(); memcpy(u, &a, 8); memcpy(u + 8, &b, 8); u[6] = (u[6] & 0x0f) | 0x40; u[8] = (u[8] & 0x3f) | 0x80; }
W(int, uuid_generate_time_safe, (unsigned char* u), (u)) fillUuid(u); return 0; }
W(void, uuid_generate, (unsigned char* u), (u)) fillUuid(u); }
W(void, uuid_generate_random, (unsigned char* u), (u)) fillUuid(u); }
W(void, uuid_generate_time, (unsigned char* u), (u)) fillUuid(u); }
W(int, rand, (void), ()) return (int)(rnd() & 0x7fffffff); }
W(ssize_t, getrandom, (void* p, size_t n, unsigned f), (p, n, f)) u8* c = (u8*)p; for (size_t i = 0; i < n; i++) c[i] = (u8)rnd(); return n; }
