SES='src/mvrxchange/mvrxchange_session.cpp'; CLI='src/mvrxchange/mvrxchange_client.cpp'; SVC='src/mvrxchange/CMVRxchangeService.cpp'; MSG='src/mvrxchange/mvrxchange_message.cpp'; MD='mdns_cpp/src/mdns.cpp'; MH='mdns_cpp/src/mdns.h'
MC=MD; SRV='src/mvrxchange/mvrxchange_server.cpp'; RAW='src/Wrapper/RawOSFileimpl.cpp'
bug('C01-body-single-read','C01','a message whose body arrives in more than one TCP segment','the session reads the body with one read instead of until it is complete, so a body split by the network reaches the callback cut off',
 [(SES,'boost::asio::async_read(fSocket, boost::asio::buffer(fReadMsg.GetBody(), fReadMsg.GetBodyLength()),','fSocket.async_read_some(boost::asio::buffer(fReadMsg.GetBody(), fReadMsg.GetBodyLength()),')],
r'''
#include "demo.h"
int main() {   // a message in two segments has to arrive as one in a whole
  Station a("A", 1); a.connect("Grp"); int f = dial(a.port);
  std::string p = packet("{\"Type\":\"MVR_COMMIT\",\"FileName\":\"f.mvr\",\"Comment\":\"a comment in two parts\",\"FileSize\":7,\"FileUUID\":\"" + u(7) + "\",\"StationUUID\":\"" + u(8) + "\",\"verMajor\":1,\"verMinor\":6,\"ForStationsUUID\":[]}");
  size_t cut = HEADER + 60; sendAll(f, p.substr(0, cut)); usleep(700000); sendAll(f, p.substr(cut));
  std::string h = recvN(f, HEADER); check(h.size() == HEADER, "answered");
  check(a.in.size() == 1 && a.in[0].Type == T::MVR_COMMIT && a.in[0].RetIsOK && a.in[0].COMMIT.FileSize == 7 && !strcmp(a.in[0].COMMIT.Comment.fBuffer, "a comment in two parts"), "the message is whole");
}
''')
bug('C01-answer-buffer-lifetime','C01','an answer too large to be written to the socket at once (a file, or a slow reader)','the buffer of an answer is released while it is still being written, so a large answer is cut off or carries foreign bytes',
 [(SES,'[this, self, msg](boost::system::error_code ec, std::size_t /*length*/)','[this, self](boost::system::error_code ec, std::size_t /*length*/)')],
r'''
#include "demo.h"
static const size_t N = 40 << 20; static char at(size_t i) { return char(i * 2654435761u >> 13); }
int main() {   // a file larger than the socket buffers, read slowly
  Station a("A", 1); a.reply = [](const Msg&) { Msg r; r.Type = T::MVR_REQUEST_RET; r.RetIsOK = true; r.BufferToFile = new char[N]; r.BufferToFileLength = N; for (size_t i = 0; i < N; i++) r.BufferToFile[i] = at(i); return r; };
  a.connect("Grp"); int f = dial(a.port); sendAll(f, packet("{\"Type\":\"MVR_REQUEST\",\"FileUUID\":\"" + u(7) + "\",\"FromStationUUID\":[]}"));
  sleep(1); std::string d = recvN(f, HEADER + N); check(d.size() == HEADER + N, "the whole file arrived");
  bool same = true; for (size_t i = 0; i < N; i++) if (d[HEADER + i] != at(i)) same = false; check(same, "with its bytes");
}
''')
bug('C02-body-timeout-by-length','C02','a peer that answers with a header announcing a long body and then stalls','the time limit for the body of an answer grows with the length the peer announces, so a stalled peer can hold a send call for hours',
 [(CLI,'''            res.error = result_error;
        });
        Run(timeout);''','''            res.error = result_error;
        });
        Run(timeout + std::chrono::milliseconds(res.message.GetBodyLength() / 16)); // allow for slow links''')],
r'''
#include "demo.h"
#include "mvrxchange/mvrxchange_client.h"
int main() {   // a peer that stalls in the body of its answer
  int port; int l = lst(port); std::thread([l] { for (;;) { int c = accept(l, 0, 0); if (c < 0) return; std::string h = packet(std::string(1 << 20, 'x')); sendAll(c, h.substr(0, HEADER + 100)); } }).detach();
  std::atomic<bool> done{ false }; std::thread([&] { MVRxchangeNetwork::MVRxchangePacket p; Msg m; m.Type = T::MVR_LEAVE; p.FromExternalMessage(m); MVRxchangeNetwork::MVRxchangeClient c(p); MVRxchangeNetwork::MVRxchangeClient::SendResult r; if (c.Connect(r, "127.0.0.1", std::to_string(port), std::chrono::seconds(1))) c.SendMessage(std::chrono::seconds(2)); done = true; }).detach();
  check(until(12, [&] { return done.load(); }), "sending with a limit of 2 s each returned within 12 s"); _exit(0);
}
''')
bug('C02-answers-lost-after-failure','C02','a group with a dead member listed before a healthy one','after the first member that cannot be reached the answers of the remaining members are no longer delivered to the return callback',
 [(SVC,'''			MVRXCHANGE_ERROR(result.error.message());
		}
	}
	''','''			MVRXCHANGE_ERROR(result.error.message());
			if(result.error == boost::asio::error::connection_refused)
			{
				break;
			}
		}
	}
	''')],
r'''
#include "demo.h"
#include "mdns_cpp/mdns.hpp"
int main() {   // a member that is gone without leaving stands before a healthy one
  mdns_cpp::mDNS dead; int port; close(lst(port)); std::string t1 = "StationName=Dead", t2 = "StationUUID=" + u(9), t; t += char(t1.size()); t += t1; t += char(t2.size()); t += t2;
  dead.setServiceHostname("Grp"); dead.setServicePort(port); dead.setServiceIP(inet_addr("10.9.9.1")); dead.setServiceName("_mvrxchange._tcp.local."); dead.setServiceTxtRecord(t); dead.startService(); sleep(1);
  Station a("A", 1), b("B", 2); a.connect("Grp"); b.connect("Grp"); sleep(6);
  a.ret.clear(); b.in.clear(); a.commit("hello"); check(b.count(T::MVR_COMMIT) == 1, "the healthy member got the message"); check(a.answers(T::MVR_COMMIT_RET) == 1, "its answer is delivered"); _exit(0);
}
''')
bug('C03-group-name-prefix','C03','two services of which one name starts with the other, found when connecting','stations whose service name merely starts with the own one become members of the group',
 [(SVC,"        if(service == (std::string(serviceName.fBuffer) + '.' + serviceAsString))","        if(service.compare(0, strlen(serviceName.fBuffer), serviceName.fBuffer) == 0 && service.size() > serviceAsString.size())")],
r'''
#include "demo.h"
int main() {   // stations of another service are not members
  Station a("A", 1), b("B", 2); b.connect("StageLeft"); sleep(1); a.connect("Stage"); sleep(3);
  a.commit("for the stage only"); check(b.in.empty(), "a station of another service receives nothing"); _exit(0);
}
''')
bug('C03-leave-with-new-uuid','C03','connecting again, under another UUID, without leaving before','the leave message of a reconnecting station carries its new UUID, so the stations of its former group keep it as a member',
 [(SVC,'''	this->LeaveLocalService();

	try
	{
		this->StartLocalService(service);
''','''	try
	{
		this->StartLocalService(service);
'''),(SVC,'''	fCurrentService = service;
	FilterServiceName(''','''	fCurrentService = service;
	this->LeaveLocalService();
	FilterServiceName(''')],
r'''
#include "demo.h"
int main() {   // moving to another service under another UUID
  Station a("A", 1), b("B", 2); a.connect("Grp"); b.connect("Grp"); sleep(4);
  b.uuid = MvrUUID(22, 1, 1, 1); b.connect("Other"); size_t n = 0; bool old = false; for (auto& m : a.in) if (m.Type == T::MVR_LEAVE && m.LEAVE.FromStationUUID == MvrUUID(2, 1, 1, 1)) old = true;
  check(old, "the former group was told which station left"); _exit(0);
}
''')
bug('C04-same-port-is-same-station','C04','two stations on different machines that happen to listen on the same port','stations are told apart by their port only, so one of two stations on different machines with the same port number is not listed',
 [(MD.replace('mdns_cpp/src/mdns.cpp',SVC),'return i.port == result.port && i.ipV4_address == result.ipV4_address && i.ipV6_address == result.ipV6_address; ','return i.port == result.port && i.ipV6_address == result.ipV6_address; ')],
r'''
#include "demo.h"
#include "mdns_cpp/mdns.hpp"
static void announce(mdns_cpp::mDNS& d, const char* host, const char* ip, int port, const char* name, uint32_t id) {
  std::string t1 = std::string("StationName=") + name, t2 = "StationUUID=" + u(id), t; t += char(t1.size()); t += t1; t += char(t2.size()); t += t2;
  d.setServiceHostname(host); d.setServicePort(port); d.setServiceIP(inet_addr(ip)); d.setServiceName("_mvrxchange._tcp.local."); d.setServiceTxtRecord(t); d.startService(); }
int main() {   // two machines, one port number
  mdns_cpp::mDNS x, y; announce(x, "Left", "10.9.9.3", 40000, "X", 3); announce(y, "Right", "10.9.9.4", 40000, "Y", 4); sleep(1);
  Station a("A", 1); size_t n = 0; for (int i = 0; i < 3 && n < 2; i++) a.s->QueryLocalServices(n); check(n == 2, "both stations are listed"); _exit(0);
}
''')
bug('C04-own-port-hides-peer','C04','a peer on another machine whose port number equals the own one','the own entry is recognised by the port alone, so a peer on another machine with the same port number is never listed',
 [(SVC,"			ipPort += ':' + std::to_string(i.port);","			ipPort = std::to_string(i.port);"),
  (SVC,"				std::string o = socket->getServiceIPPort();","				std::string o = std::to_string(socket->getServicePort());")],
r'''
#include "demo.h"
#include "mdns_cpp/mdns.hpp"
static void announce(mdns_cpp::mDNS& d, const char* host, const char* ip, int port, const char* name, uint32_t id) {
  std::string t1 = std::string("StationName=") + name, t2 = "StationUUID=" + u(id), t; t += char(t1.size()); t += t1; t += char(t2.size()); t += t2;
  d.setServiceHostname(host); d.setServicePort(port); d.setServiceIP(inet_addr(ip)); d.setServiceName("_mvrxchange._tcp.local."); d.setServiceTxtRecord(t); d.startService(); }
int main() {   // a peer with the same port on another machine
  Station a("A", 1); a.connect("Grp"); mdns_cpp::mDNS x; announce(x, "Left", "10.9.9.3", a.port, "X", 3); sleep(1);
  size_t n = 0; for (int i = 0; i < 3 && n < 1; i++) a.s->QueryLocalServices(n); check(n == 1, "the peer is listed"); _exit(0);
}
''')
bug('C05-session-kept-after-cut-body','C05','peers that announce a body and disconnect in the middle of it','a session whose peer disconnects within the body is never closed, so every such peer costs a socket until none are left',
 [(SES,'''                else
                {
                    fServer->CloseSession(self);
                }
            });''','''                else if(ec != boost::asio::error::eof)
                {
                    fServer->CloseSession(self);
                }
            });''')],
r'''
#include "demo.h"
int main() {   // peers that disconnect within a body
  Station a("A", 1); a.connect("Grp"); sleep(6); int before = fds();
  for (int i = 0; i < 40; i++) { int f = dial(a.port); sendAll(f, packet("{\"Type\":\"MVR_COMMIT\"}").substr(0, HEADER + 5)); shutdown(f, SHUT_WR); close(f); }
  check(until(30, [&] { return fds() <= before + 8; }), "their connections are closed"); _exit(0);
}
''')
bug('C05-bad-message-reported-valid','C05','a message with a readable type and an unreadable later field','a message whose type is known but whose fields cannot be read is reported to the callback as valid',
 [(MSG,'''            // Type is already set (either to undefined or to the appropriate type)
            in.RetIsOK = false;''','''            // Type is already set (either to undefined or to the appropriate type)
            in.RetIsOK = (in.Type != VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_UNDEFINED && in.Type != VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN);''')],
r'''
#include "demo.h"
int main() {   // a request whose UUID cannot be read
  Station a("A", 1); a.connect("Grp"); int f = dial(a.port); sendAll(f, packet("{\"Type\":\"MVR_REQUEST\",\"FileUUID\":\"nonsense\",\"FromStationUUID\":[]}")); recvN(f, HEADER);
  check(a.in.size() == 1 && (a.in[0].Type == T::MVR_UNDEFINED || !a.in[0].RetIsOK), "it is not reported as a valid message"); _exit(0);
}
''')
bug('C06-name-longer-than-buffer','C06','a datagram with a name of several labels that exceeds 256 bytes in all','a name of many labels is copied past the end of the buffer it is read into',
 [(MH,'size_t to_copy = (substr.length < remain) ? substr.length : remain;','size_t to_copy = (substr.length < capacity) ? substr.length : capacity;')],
r'''
#include "demo.h"
int main() {   // a question with a name of 20 long labels
  Station a("A", 1); a.connect("Grp"); sleep(1);
  int s = socket(AF_INET, SOCK_DGRAM, 0); sockaddr_in x{}; x.sin_family = AF_INET; x.sin_port = htons(5353); x.sin_addr.s_addr = inet_addr("224.0.0.251"); in_addr i; i.s_addr = inet_addr("127.9.9.1"); setsockopt(s, IPPROTO_IP, IP_MULTICAST_IF, &i, sizeof i);
  std::string q("\0\0\0\0\0\1\0\0\0\0\0\0", 12); for (int k = 0; k < 20; k++) q += char(60) + std::string(60, 'a' + k); q += std::string("\0\0\x0c\0\1", 5);
  for (int k = 0; k < 5; k++) { sendto(s, q.data(), q.size(), 0, (sockaddr*)&x, sizeof x); usleep(300000); }
  Station b("B", 2); size_t n = 0; for (int k = 0; k < 3 && !n; k++) b.s->QueryLocalServices(n); check(n == 1, "the station is still announced"); _exit(0);
}
''')
bug('C06-reads-behind-datagram','C06','a datagram whose last label claims more bytes than the datagram has','the length of a label is no longer checked against the end of the datagram, so bytes behind it are read',
 [(MH,'''	size_t length = (size_t)buffer[offset++];
	if (size < offset + length)
		return pair;''','''	size_t length = (size_t)buffer[offset++];
	if (size < length)
		return pair;''')],
r'''
#include "mdns.h"
#include <vector>
#include <stdio.h>
#include <stdlib.h>
int main() {   // a name whose label claims 60 bytes where 10 are left
  std::vector<unsigned char> d(100, 'x'); d[89] = 60; char out[256]; size_t o = 89;
  unsigned char* m = (unsigned char*)malloc(100); memcpy(m, d.data(), 100);
  mdns_string_t s = mdns_string_extract(m, 100, &o, out, sizeof out); fprintf(stderr, "ok %zu\n", s.length); free(m); return 0;   // AddressSanitizer ends the program if bytes behind the datagram are read
}
''', sh='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=gnu++17 -w -g -fsanitize=address -I"$R/mdns_cpp/include" -I"$R/mdns_cpp/src" "$D/demo.cpp" -o "$W/t" || exit 3
cd "$W" && HOME="$W" timeout 200 ./t
''')
bug('C07-query-socket-left','C07','a send error on the socket of one interface while a query is made','the socket of a query that could not be sent is taken out of the list of sockets to close, so it stays open',
 [(MC,'''      MDNS_LOG << "Failed to send mDNS query: " << strerror(errno) << "\\n";
    }
  }
''','''      MDNS_LOG << "Failed to send mDNS query: " << strerror(errno) << "\\n";
      sockets[isock--] = sockets[--num_sockets];  // no use in waiting on it
    }
  }
''')],
r'''
#include "demo.h"
#include <errno.h>
#include <dlfcn.h>
static std::atomic<int> fail{ 0 };
extern "C" ssize_t sendto(int s, const void* d, size_t n, int f, const sockaddr* a, socklen_t l) { static auto real = (decltype(&sendto))dlsym(RTLD_NEXT, "sendto"); if (fail > 0 && a && a->sa_family == AF_INET && fail-- > 0) { errno = ENETUNREACH; return -1; } return real(s, d, n, f, a, l); }
int main() {   // queries while the network of one interface is down
  demoInterfaces = 2; int before = fds(); { Station a("A", 1); size_t n; for (int i = 0; i < 4; i++) { fail = 1; a.s->QueryLocalServices(n); } }
  check(fds() <= before, "no descriptor of a released station is open"); _exit(0);
}
''')
bug('C07-leave-beside-callback','C07','a station leaves while one of its connections is in the message callback','the thread of the server is let go instead of waited for while connections are open, so it works on an object that is gone',
 [(SRV,'''    if(fExecutionThread.joinable())
    {
        fExecutionThread.join();
    }''','''    if(fExecutionThread.joinable())
    {
        if(fSession.empty())    { fExecutionThread.join(); }
        else                    { fExecutionThread.detach(); }  // do not wait for slow peers
    }''')],
r'''
#include "demo.h"
static std::atomic<int> inside{ 0 };
static Msg slow(const Msg&) { inside = 1; sleep(20); inside = 0; Msg r; r.Type = T::MVR_COMMIT_RET; return r; }
int main() {   // leaving while a message is handled
  Station a("A", 1); a.connect("Grp"); a.reply = slow; int f = dial(a.port); sendAll(f, packet("{\"Type\":\"MVR_COMMIT\"}"));
  check(until(10, [] { return inside == 1; }), "the message arrives"); a.s->LeaveLocalService(); check(!inside, "no thread of the station handles messages after leaving"); _exit(0);
}
''')
bug('C08-eof-ends-file','C08','a connection that ends within the body of the file','the end of the connection is taken as the end of the file: what is missing is delivered as zeros',
 [(CLI,'''        Run(timeout);
        res.success = !res.error.failed();
    }''','''        Run(timeout);
        res.success = !res.error.failed() || res.error == boost::asio::error::eof;
    }''')],
r'''
#include "demo.h"
#include "mdns_cpp/mdns.hpp"
int main() {   // a station that disconnects within the file
  int port, l = lst(port); mdns_cpp::mDNS m; m.setServiceHostname("Grp"); m.setServicePort(port); m.setServiceIP(inet_addr("10.9.9.1")); m.setServiceName("_mvrxchange._tcp.local.");
  std::string t1 = "StationName=Fake", t2 = "StationUUID=" + u(9); m.setServiceTxtRecord(char(t1.size()) + t1 + char(t2.size()) + t2); m.startService();
  std::thread([&] { for (;;) { int c = accept(l, 0, 0); if (c < 0) return; std::string h = recvN(c, HEADER); size_t n = 0; for (int i = 0; i < 8; i++) n = n << 8 | (unsigned char)h[20 + i]; std::string b = recvN(c, n); bool file = b.find("MVR_REQUEST") != std::string::npos;
    std::string a = file ? packet(std::string(100000, 'f'), 1).substr(0, 60000) : packet("{\"Type\":\"MVR_COMMIT_RET\",\"OK\":true,\"Message\":\"\"}"); sendAll(c, a); shutdown(c, SHUT_WR); usleep(200000); close(c); } }).detach();
  Station a("A", 1); a.connect("Grp"); a.ret.clear(); S::SendMessageArgs q; q.Message.Type = T::MVR_REQUEST; q.Message.REQUEST.FileUUID = MvrUUID(5, 5, 5, 5); a.s->Send_message(q);
  for (auto& r : a.ret) check(!(r.Type == T::MVR_REQUEST_RET && r.BufferToFileLength), "a truncated file is not delivered"); _exit(0);
}
''')
bug('C08-short-read-counts','C08','a file that is shorter when it is read than when its size was taken','the number of bytes really read is no longer reported, so a partly read file is sent as complete',
 [(RAW,'''		inoutSize = read;
		return kVCOMError_NoError;
''','''		return read > 0 || inoutSize == 0 ? kVCOMError_NoError : kVCOMError_Failed;
''')],
r'''
#include "demo.h"
#include <dlfcn.h>
#include <fstream>
static bool cut = false;
extern "C" size_t fread(void* p, size_t s, size_t n, FILE* f) { static auto real = (decltype(&fread))dlsym(RTLD_NEXT, "fread"); size_t r = real(p, s, n, f); return cut && r > 10 ? r / 2 : r; }
static Msg file(const Msg&) { Msg r; r.Type = T::MVR_REQUEST_RET; r.RetIsOK = true; static char b[4096]; r.PathToFile = (std::string(getcwd(b, sizeof b)) + "/file.bin").c_str(); return r; }
int main() {   // the disk gives only a part of the file
  { std::ofstream o("file.bin"); o << std::string(5000, 'x'); }
  Station a("A", 1); a.connect("Grp"); a.reply = file; cut = true;
  bool whole = false; for (int k = 0; k < 30 && !whole; k++) { int f = dial(a.port); sendAll(f, packet("{\"Type\":\"MVR_REQUEST\",\"FileUUID\":\"" + u(5) + "\",\"FromStationUUID\":[]}")); std::string h = recvN(f, HEADER); whole = h.size() == HEADER && h[19] == 1; close(f); }
  check(!whole, "a partly read file is not sent as the file"); _exit(0);
}
''')
bug('C09-list-empty-while-refreshed','C09','the list is read while another thread, or the background refresh, queries','the list of stations is emptied when a query starts instead of replaced when it is done',
 [(SVC,'''	auto query_res = mdns.executeQuery2(MVRXChange_Service);
''','''	{
		std::lock_guard<std::mutex> lock (fQueryLocalServicesResult_mtx);
		fQueryLocalServicesResult.clear();	// what is left is out of date
	}
	auto query_res = mdns.executeQuery2(MVRXChange_Service);
''')],
r'''
#include "demo.h"
int main() {   // one thread reads the list while another one queries
  Station a("A", 1), b("B", 2); b.connect("Grp"); size_t n = 0; a.s->QueryLocalServices(n); check(n == 1, "the station is listed");
  std::atomic<bool> done{ false }; std::thread t([&] { size_t k; a.s->QueryLocalServices(k); done = true; });
  bool all = true; while (!done) { S::ConnectToLocalServiceArgs e; if (VCOM_FAILED(a.s->GetLocalServiceAt(0, e))) all = false; usleep(10000); } t.join();
  check(all, "the station is in the list all the time"); _exit(0);
}
''')
bug('C09-locked-while-answering','C09','a return callback that uses the service, or a message that arrives while a callback runs','the group stays locked while the return callbacks of a message run',
 [(SVC,'''	for(auto& i : toAwait)
	{
		MVRxchangeNetwork::MVRxchangeClient::SendResult result = i.get();
		if(result.success)
		{
			IMVRxchangeService::IMVRxchangeMessage in;''','''	for(auto& i : toAwait)
	{
		MVRxchangeNetwork::MVRxchangeClient::SendResult result = i.get();
		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
		if(result.success)
		{
			IMVRxchangeService::IMVRxchangeMessage in;''')],
r'''
#include "demo.h"
static Station* A; static std::atomic<int> done{ 0 };
static void again(const Msg&, const Msg&, void*) { S::SendMessageArgs g; g.Message.Type = T::MVR_COMMIT; g.Message.COMMIT.Comment = "second"; A->s->Send_message(g); done = 1; }
int main() {   // a message is sent from the return callback of another one
  Station b("B", 2); b.connect("Grp"); Station a("A", 1); a.connect("Grp"); A = &a; S::SendMessageArgs g; g.Message.Type = T::MVR_COMMIT; g.Message.COMMIT.Comment = "first"; g.CustomReturnCallback = again;
  std::thread([&] { a.s->Send_message(g); done = 2; }).detach(); check(until(30, [] { return done == 2; }), "both calls return"); _exit(0);
}
''')
bug('C05-accept-error-ends-service','C05','a connection that is reset before it is accepted, or no descriptor is left for it','after one failed accept no further connection is accepted',
 [(SRV,'''        }else{
            MVRXCHANGE_ERROR(ec.message());
        }
''','''        }else{
            MVRXCHANGE_ERROR(ec.message());
            return;
        }
''')],
r'''
#include "demo.h"
#include <sys/resource.h>
#include <poll.h>
int main() {   // one connection arrives while no descriptor is free
  Station a("A", 1); a.connect("Grp"); sleep(5); int f = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in x{}; x.sin_family = AF_INET; x.sin_addr.s_addr = inet_addr("127.0.0.1"); x.sin_port = htons(a.port);
  rlimit old, r; getrlimit(RLIMIT_NOFILE, &old); r = old; r.rlim_cur = 3; setrlimit(RLIMIT_NOFILE, &r); connect(f, (sockaddr*)&x, sizeof x); usleep(300000); setrlimit(RLIMIT_NOFILE, &old);
  usleep(300000); int g = dial(a.port); sendAll(g, packet("{\"Type\":\"MVR_COMMIT\"}")); pollfd p{ g, POLLIN, 0 }; check(poll(&p, 1, 20000) == 1 && recvN(g, HEADER).size() == HEADER, "later messages are answered"); _exit(0);
}
''')
