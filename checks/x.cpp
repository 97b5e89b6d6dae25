#include "core.h"
#include "net.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <future>
#include <unistd.h>
#include <arpa/inet.h>
#include <string.h>
using namespace sim;
static void selftest() {
  sched.switchProb = 0.3;
  int a = addHost("A", {"10.0.0.1"}), b = addHost("B", {"10.0.0.2"});
  int port = 4000;
  int sv = spawn(a, "srv", [&] {
    int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in x{}; x.sin_family = AF_INET; x.sin_port = htons(port); bind(s, (sockaddr*)&x, sizeof x); listen(s, 5);
    int c = accept(s, 0, 0); char buf[100]; ssize_t n = recv(c, buf, 100, 0); send(c, buf, n, 0); close(c); close(s); });
  int cl = spawn(b, "cli", [&] {
    sleepNs(1 * SEC);
    int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in x{}; x.sin_family = AF_INET; x.sin_port = htons(port); x.sin_addr.s_addr = inet_addr("10.0.0.1"); 
    int r = connect(s, (sockaddr*)&x, sizeof x); if (r) violation("connect", "failed %d", errno); send(s, "hello", 5, 0); char buf[100]; ssize_t n = recv(s, buf, 100, 0); if (n != 5 || memcmp(buf, "hello", 5)) violation("echo", "n=%zd", n); 
    std::mutex m; std::condition_variable cv; int v = 0; std::thread t([&] { for (int i = 0; i < 10; i++) { std::lock_guard<std::mutex> l(m); v++; cv.notify_all(); } });
    { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return v == 10; }); } t.join();
    auto f = std::async(std::launch::async, [] { std::this_thread::sleep_for(std::chrono::seconds(3)); return 7; }); if (f.get() != 7) violation("async", "x");
    close(s); });
  joinTask(sv); joinTask(cl); nontrivial(); opCount(3); sample("echo");
  if (openFds(a) || openFds(b)) violation("fdleak", "%s %s", fdReport(a).c_str(), fdReport(b).c_str());
}
static Reg r1({"T00", "self test", selftest, 400, 400, "self test", "", "", {}});
