// Helpers shared by the MVR-xchange scenarios: real stations, raw (harness-written) peers, message generation and comparison.
#pragma once
#include "core.h"
#include "net.h"
#include "Prefix/StdAfx.h"
#include "Include/VectorworksMVR.h"
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <functional>

namespace xc {
using namespace sim;
typedef VectorworksMVR::IMVRxchangeService Svc;
typedef Svc::IMVRxchangeMessage XMsg;
typedef Svc::MVRxchangeMessageType MT;
typedef VectorworksMVR::MvrUUID Uuid;
typedef Svc::ConnectToLocalServiceArgs ConnArgs;

// The field-wise content of a message (only what its type carries over the wire).
struct Content {
  MT type = MT::MVR_UNDEFINED; std::vector<std::pair<std::string, std::string>> f; std::string buf; bool ok = true;
  bool operator==(const Content& o) const { return type == o.type && f == o.f && buf == o.buf; }
  std::string diff(const Content& o) const;
};
const char* typeName(MT t);
std::string uuidStr(const Uuid& u);
Content contentOf(const XMsg& m, bool withBuf = true);
std::string genString(size_t maxLen = 1023, bool allowEmpty = true);   // valid UTF-8 without NUL
Uuid genUuid();
u32 genU32();
Svc::MVR_COMMIT_MESSAGE genCommit();
XMsg genMessage(MT t);                      // request kinds and return kinds; buffers are not set

struct InRec { XMsg m; Content c; u64 t; int via; };
struct RetRec { Content sent; Content got; XMsg gotMsg; u64 t; int via; };

struct Station {
  int host = 0; std::string name, group, provider; Uuid uuid; u32 vmaj = 1, vmin = 6; std::vector<Svc::MVR_COMMIT_MESSAGE> files;
  VectorworksMVR::IMVRxchangeServicePtr* svc = nullptr;
  std::vector<InRec> in; std::vector<RetRec> ret;
  std::function<XMsg(const XMsg&)> reply;   // default: plain OK answers
  u64 callbackDelayMax = 0;
  bool connected = false;
  u64 connectedAt = 0;
  Station(int h, const std::string& nm) : host(h), name(nm) {}
  ~Station() {}
  void create();
  void reg(int via = 0);                    // OnMessage
  u64 connect(const std::string& grp);      // returns duration
  u64 leave();
  u64 release();
  u64 query(size_t& n);
  std::vector<ConnArgs> list(size_t n);
  u64 send(const XMsg& m, bool custom = false);
  bool has() const { return svc != nullptr; }
};
typedef std::shared_ptr<Station> StationP;
struct On { int old; On(int h) { old = curHost(); setHostOf(curTask(), h); } ~On() { setHostOf(curTask(), old); } };
XMsg okReply(const XMsg& in, const Station& s);
// Runs an API call: library exceptions and overlong calls are violations. Returns the virtual duration.
u64 apiCall(const char* what, u64 maxNs, const std::function<void()>& fn);

// ---------------------------------------------------------------- raw wire helpers
struct Packet { u32 flag = 778682, version = 1, number = 0, count = 1, type = 0; u64 len = 0; std::string body; bool lieLen = false;
  std::string bytes() const; };
bool recvAll(int fd, std::string& out, size_t n, u64 deadline);     // false on eof, error or deadline
bool sendAll(int fd, const std::string& s);
bool sendFor(int fd, const std::string& s, u64 ns);                 // gives up after a while
bool readPacket(int fd, Packet& p, u64 deadline);
int  tcpConnect(const std::string& ip, int port, u64 timeout = 3 * SEC);   // -1 on failure (call from a task on the right host)
int  tcpListen(int& port);
std::string jsonStr(const std::string& s);
std::string joinJson(const std::string& prov, const std::string& name, const std::string& uuid, u32 maj, u32 mnr, const std::string& commits = "[]");

// DNS building
struct Dns { std::string b; void u8_(int v) { b += (char)v; } void u16_(int v) { b += (char)(v >> 8); b += (char)v; } void u32_(u32 v) { u16_(v >> 16); u16_(v & 0xffff); }
  void name(const std::string& dotted); void rec(const std::string& nm, int type, const std::string& data, u32 ttl = 60); };
std::string dnsName(const std::string& dotted);
std::string mvrQuery();
std::string mvrAnswer(const std::string& group, const std::string& ip, int port, const std::string& stationName, const std::string& uuid);
std::string txtRecord(const std::vector<std::string>& parts);

// A peer written in the harness that speaks the protocol on the wire: announces itself over mDNS and serves TCP with a programmable behaviour.
struct RawPeer {
  int host; int port = 0; std::string group, name; Uuid uuid; bool stop = false; bool answerMdns = true;
  std::vector<Packet> got; std::function<void(int fd)> behave;      // called for each accepted connection (own task); must not close fd
  std::vector<int> tasks; int lfd = -1, ufd = -1; int accepted = 0;
  RawPeer(int h, const std::string& grp, const std::string& nm, const Uuid& u) : host(h), group(grp), name(nm), uuid(u) {}
  void start(); void shutdown();
  bool join(const std::string& ip, int port, Packet* answer = nullptr);   // sends MVR_JOIN from this host
};
// Reply JSON for a received request packet
std::string retJson(const std::string& reqJson, bool ok, const std::string& msg, const RawPeer& p);

void quietLog();                           // library prints go nowhere
void calmNet(); void defaultSched();
void randomSched();                        // swarm: pick a scheduling regime
}
