#pragma once
#include "Prefix/StdAfx.h"
#include "Include/VectorworksMVR.h"
#include <iostream>
#include <sstream>
#include <mutex>
#include <atomic>
#include <thread>
#include <vector>
#include <string>
#include <string.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/socket.h>
#include <arpa/inet.h>
#include <netinet/in.h>
extern int demoInterfaces;
using namespace VectorworksMVR;
typedef IMVRxchangeService S;
typedef S::MVRxchangeMessageType T;
typedef S::IMVRxchangeMessage Msg;
struct Station {   // a station and what it received
  IMVRxchangeServicePtr s{ IID_IMVRxchangeService }; std::string name; MvrUUID uuid; int port = 0;
  std::mutex m; std::vector<Msg> in, ret; Msg (*reply)(const Msg&) = nullptr;
  static Msg onIn(const Msg& g, void* c) { Station& x = *(Station*)c; std::lock_guard<std::mutex> l(x.m); x.in.push_back(g); if (x.reply) return x.reply(g);
    Msg r; switch (g.Type) { case T::MVR_JOIN: r.Type = T::MVR_JOIN_RET; r.JOIN.StationName = x.name.c_str(); r.JOIN.StationUUID = x.uuid; break; case T::MVR_COMMIT: r.Type = T::MVR_COMMIT_RET; break; case T::MVR_REQUEST: r.Type = T::MVR_REQUEST_RET; r.RetIsOK = false; break; default: r.Type = T::MVR_LEAVE_RET; } return r; }
  static void onRet(const Msg&, const Msg& a, void* c) { Station& x = *(Station*)c; std::lock_guard<std::mutex> l(x.m); x.ret.push_back(a); }
  Station(const char* n, uint32_t id) : name(n), uuid(id, 1, 1, 1) { S::OnMessageArgs o; o.IncomingCallback = onIn; o.ReturningCallback = onRet; o.Context = this; s->OnMessage(o); }
  void connect(const char* group) { std::stringstream out; auto* old = std::cout.rdbuf(out.rdbuf()); S::ConnectToLocalServiceArgs c; c.Service = group; c.StationName = name.c_str(); c.StationUUID = uuid; c.Provider = "Demo"; s->ConnectToLocalService(c); std::cout.rdbuf(old); std::string x = out.str(); size_t p = x.rfind("Port: "); if (p != std::string::npos) port = atoi(x.c_str() + p + 6); }
  size_t count(T t) { std::lock_guard<std::mutex> l(m); size_t n = 0; for (auto& x : in) n += x.Type == t; return n; }
  size_t answers(T t) { std::lock_guard<std::mutex> l(m); size_t n = 0; for (auto& x : ret) n += x.Type == t; return n; }
  void commit(const char* text, std::vector<MvrUUID> to = {}) { S::SendMessageArgs a; a.Message.Type = T::MVR_COMMIT; a.Message.COMMIT.FileUUID = MvrUUID(5, 5, 5, 5); a.Message.COMMIT.StationUUID = uuid; a.Message.COMMIT.Comment = text; a.Message.COMMIT.ForStationsUUID = to; s->Send_message(a); }
};
static bool until(int sec, const std::function<bool()>& f) { for (int i = 0; i < sec * 20; i++) { if (f()) return true; usleep(50000); } return f(); }
static int dial(int port) { int f = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = inet_addr("127.0.0.1"); a.sin_port = htons(port); if (connect(f, (sockaddr*)&a, sizeof a)) { perror("connect"); exit(3); } return f; }
static int lst(int& port) { int f = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = INADDR_ANY; if (bind(f, (sockaddr*)&a, sizeof a) || listen(f, 50)) { perror("listen"); exit(3); } socklen_t l = sizeof a; getsockname(f, (sockaddr*)&a, &l); port = ntohs(a.sin_port); return f; }
static bool sendAll(int f, const std::string& d) { size_t o = 0; while (o < d.size()) { ssize_t n = send(f, d.data() + o, d.size() - o, MSG_NOSIGNAL); if (n <= 0) return false; o += n; } return true; }
static std::string recvN(int f, size_t n) { std::string r; char b[65536]; while (r.size() < n) { ssize_t k = recv(f, b, std::min(sizeof b, n - r.size()), 0); if (k <= 0) break; r.append(b, k); } return r; }
static std::string be(uint64_t v, int n) { std::string s; while (n--) s += char(v >> (8 * n)); return s; }
static std::string packet(const std::string& body, uint32_t type = 0) { return be(778682, 4) + be(1, 4) + be(0, 4) + be(1, 4) + be(type, 4) + be(body.size(), 8) + body; }
static const size_t HEADER = 28;
static std::string u(uint32_t a) { char b[64]; snprintf(b, 64, "%08X-0001-0001-0001-000000000001", a); return b; }
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void check(bool ok, const char* what) { fprintf(stderr, "%s: %s\n", ok ? "ok" : "FAILED", what); if (!ok) _exit(1); }
