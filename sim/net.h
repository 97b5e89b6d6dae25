#pragma once
#include "core.h"
#include <netinet/in.h>
namespace sim {
struct NetCfg {
  u64 latLo = 100 * US, latHi = 2 * MS;        // one-way latency
  double tcpDelayP = 0, tcpRetransP = 0;       // per segment: extra delay / retransmission
  double shortReadP = 0, shortWriteP = 0, eintrP = 0;
  double synLossP = 0, rstP = 0, acceptAbortP = 0, emfileP = 0, sockFailP = 0;
  double udpLossP = 0, udpDupP = 0, udpReorderP = 0, udpCorruptP = 0, udpSendFailP = 0, ifaddrFailP = 0;
  u32 mss = 1460, rxCap = 65536; bool ipv6 = true; int faultHost = -1;   // descriptor, interrupt and interface faults only on this host (-1: on all)
};
extern NetCfg net;
int  addHost(const char* name, const std::vector<std::string>& ips);
const std::string& hostIp(int h, int i = 0);
void partition(int a, int b, bool cut);          // symmetric
void isolate(int h, bool cut);
void crashHost(int h, bool powerLoss);           // freezes tasks; sockets vanish (power loss) or get FIN/RST (process kill)
void restartHost(int h);
bool hostUp(int h);
void jumpWall(int h, i64 deltaNs);
int  openFds(int h);
std::string fdReport(int h);
void resetAllConnections(int h, double p);       // network device resets connections
u64  udpSent(int h); u64 udpRecv(int h); u64 tcpConnects(int h);
void onUdp(std::function<void(int host, const std::string& data, u32 dstIp, int dstPort)> fn); // observe sends
void onConnect(std::function<void(int host, const std::string& ip, int port)> fn); // observe TCP connection attempts
bool listening(int h, int port);
bool listenedOn(int h, int port); // at any time of the run
}
namespace sim { int ipCount(int h); int listenPort(int h); }
