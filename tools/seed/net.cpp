// The sandbox has the loopback device only: present it as ordinary interfaces 10.9.9.1 .. 10.9.9.N,
// and translate these addresses to 127.9.9.x where they reach the kernel.
#include <ifaddrs.h>
#include <string.h>
#include <stdlib.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <netinet/in.h>
int demoInterfaces = 1;
static void in(in_addr* a) { uint32_t v = ntohl(a->s_addr); if ((v >> 8) == 0x0a0909) a->s_addr = htonl((v & 0xff) | 0x7f090900); }
extern "C" int __real_connect(int, const sockaddr*, socklen_t);
extern "C" int __real_setsockopt(int, int, int, const void*, socklen_t);
extern "C" int __wrap_connect(int s, const sockaddr* a, socklen_t l) {
  if (a->sa_family != AF_INET) return __real_connect(s, a, l);
  sockaddr_in x = *(const sockaddr_in*)a; in(&x.sin_addr); return __real_connect(s, (sockaddr*)&x, sizeof x); }
extern "C" int __wrap_setsockopt(int s, int lv, int n, const void* v, socklen_t l) {
  if (lv == IPPROTO_IP && n == IP_ADD_MEMBERSHIP) { ip_mreq m = *(const ip_mreq*)v; in(&m.imr_interface); if (m.imr_interface.s_addr == INADDR_ANY) m.imr_interface.s_addr = htonl(0x7f090901); return __real_setsockopt(s, lv, n, &m, sizeof m); }
  if (lv == IPPROTO_IP && n == IP_MULTICAST_IF) { in_addr m = *(const in_addr*)v; in(&m); if (m.s_addr == INADDR_ANY) m.s_addr = htonl(0x7f090901); return __real_setsockopt(s, lv, n, &m, sizeof m); }
  return __real_setsockopt(s, lv, n, v, l); }
extern "C" int __wrap_getifaddrs(struct ifaddrs** out) {
  *out = 0;
  for (int k = demoInterfaces; k >= 1; k--) { ifaddrs* i = (ifaddrs*)calloc(1, sizeof *i); sockaddr_in* a = (sockaddr_in*)calloc(1, sizeof *a); a->sin_family = AF_INET; a->sin_addr.s_addr = htonl(0x0a090900 + k); i->ifa_name = strdup("demo0"); i->ifa_addr = (sockaddr*)a; i->ifa_next = *out; *out = i; }
  return 0; }
extern "C" void __wrap_freeifaddrs(struct ifaddrs* i) { while (i) { ifaddrs* n = i->ifa_next; free(i->ifa_name); free(i->ifa_addr); free(i); i = n; } }
