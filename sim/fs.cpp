#include "fs.h"
#include "env.h"
#include "net.h"
#include "internal.h"
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <memory>

namespace sim {
FsCfg fs;
namespace {
struct Inode { bool dir = false; std::string data; };
typedef std::shared_ptr<Inode> InodeP;
struct Fs { std::map<std::string, InodeP> tree; std::string home = "/home/user", cwd = "/work"; Fs() { for (const char* d : { "/", "/home", "/home/user", "/work", "/tmp" }) { auto n = std::make_shared<Inode>(); n->dir = true; tree[d] = n; } } };
std::map<int, Fs> machines;
Fs& F(int h) { return machines[h]; }
struct Open { int host; std::string path; InodeP ino; i64 pos = 0; bool rd = false, wr = false, app = false; FILE* f = nullptr; bool werr = false; };
std::map<int, std::shared_ptr<Open>> opens; std::map<FILE*, int> byFile; int nextFd = 3000000; const int FSFD0 = 3000000, FSFD1 = 4000000;
std::function<void(int, const char*, const std::string&)> mutate;
u64 ops = 0, failed = 0; u64 stickyKinds = 0;
enum Kind { K_OPEN, K_READ, K_WRITE, K_CLOSE, K_MKDIR, K_REMOVE, K_STAT, K_SEEK, K_SYNC, K_HOME };
const Fault kF[] = { F_FS_OPEN, F_FS_READ_EIO, F_FS_WRITE_EIO, F_FS_CLOSE_ERR, F_FS_MKDIR, F_FS_REMOVE, F_FS_STAT, F_FS_SEEK, F_FS_CLOSE_ERR, F_FS_STAT };
const char* const kK[] = { "open", "read", "write", "close", "mkdir", "remove", "stat", "seek", "sync", "home" };

// every fallible operation passes here; true = it fails
u64 failedOf[16];
bool failing(Kind k, const std::string& path) {
  yield("fs"); int h = curHost(); if (fs.host >= 0 && fs.host != h) return false;
  ops++;
  if (fs.crashIn && --fs.crashIn == 0) { logev("crash at %s %s", kK[k], path.c_str()); crashProcess(); }
  if (!fs.only.empty() && path.compare(0, fs.only.size(), fs.only)) return false;
  if (!fs.except.empty() && path.compare(0, fs.except.size(), fs.except) == 0) return false;
  double p[] = { fs.openP, fs.readP, fs.writeP, fs.closeP, fs.mkdirP, fs.removeP, fs.statP, fs.seekP, fs.syncP, fs.homeP };
  bool bad = false;
  if (!fs.sticky) stickyKinds = 0;
  if (faultsOn()) { if (fs.failIn && --fs.failIn == 0) { bad = true; if (fs.sticky) stickyKinds |= 1u << k; } else if (stickyKinds >> k & 1) bad = true; }
  if (!bad && chance(C_FS, p[k])) bad = true;
  if (bad) { failed++; failedOf[k]++; fault(kF[k]); logev("fs fault %s %s", kK[k], path.c_str()); }
  return bad;
}
std::string raw(int h, const char* p) { std::string s = p; if (s.empty() || s[0] != '/') s = F(h).cwd + "/" + s; return s; }
// Resolves like the kernel does: every folder on the way has to exist. errno on failure; "" = failure. The last component need not exist.
std::string resolve(int h, const char* pth) {
  if (!pth || !*pth) { errno = ENOENT; return ""; }
  std::string s = raw(h, pth); if (s.size() > 4095) { errno = ENAMETOOLONG; return ""; }
  Fs& f = F(h); std::string cur = "/"; size_t i = 0; std::vector<std::string> comps; while (i < s.size()) { while (i < s.size() && s[i] == '/') i++; size_t j = i; while (j < s.size() && s[j] != '/') j++; if (j > i) comps.push_back(s.substr(i, j - i)); i = j; }
  bool slash = s.back() == '/';
  for (size_t k = 0; k < comps.size(); k++) { const std::string& c = comps[k]; if (c.size() > 255) { errno = ENAMETOOLONG; return ""; }
    auto it = f.tree.find(cur); if (it == f.tree.end()) { errno = ENOENT; return ""; } if (!it->second->dir) { errno = ENOTDIR; return ""; }
    if (c == ".") continue; if (c == "..") { if (cur != "/") { size_t q = cur.rfind('/'); cur = q == 0 ? "/" : cur.substr(0, q); } continue; }
    cur = cur == "/" ? "/" + c : cur + "/" + c; }
  if (slash && cur != "/") { auto it = f.tree.find(cur); if (it != f.tree.end() && !it->second->dir) { errno = ENOTDIR; return ""; } }
  return cur; }
std::string parent(const std::string& p) { size_t q = p.rfind('/'); return q == 0 ? "/" : p.substr(0, q); }
void changed(const char* op, const std::string& p) { hashEv(fnv(p.data(), p.size()), fnv(op, strlen(op))); if (mutate) mutate(curHost(), op, p); }
std::string abs(int h, const std::string& p) { std::string s = raw(h, p.c_str()); while (s.size() > 1 && s.back() == '/') s.pop_back(); return s; }
bool emptyDir(Fs& f, const std::string& p) { std::string pre = p == "/" ? p : p + "/"; auto it = f.tree.upper_bound(p); for (; it != f.tree.end(); ++it) { if (it->first.compare(0, pre.size(), pre) == 0) return false; if (it->first.compare(0, p.size(), p)) break; } return true; }
}
u64 fsOps() { return ops; } u64 fsFailed() { return failed; }
void fsHome(int h, const std::string& p) { fsMkdirs(h, p); F(h).home = p; } void fsCwd(int h, const std::string& p) { fsMkdirs(h, p); F(h).cwd = p; }
bool fsExists(int h, const std::string& p) { return F(h).tree.count(abs(h, p)); }
bool fsIsDir(int h, const std::string& p) { auto it = F(h).tree.find(abs(h, p)); return it != F(h).tree.end() && it->second->dir; }
std::string fsGet(int h, const std::string& p) { auto it = F(h).tree.find(abs(h, p)); return it == F(h).tree.end() ? "" : it->second->data; }
void fsMkdirs(int h, const std::string& p) { std::string a = abs(h, p), c; for (size_t i = 1; i <= a.size(); i++) if (i == a.size() || a[i] == '/') { c = a.substr(0, i); if (!F(h).tree.count(c)) { auto n = std::make_shared<Inode>(); n->dir = true; F(h).tree[c] = n; } } }
void fsPut(int h, const std::string& p, const std::string& d) { std::string a = abs(h, p); fsMkdirs(h, parent(a)); auto n = std::make_shared<Inode>(); n->data = d; F(h).tree[a] = n; }
void fsRemoveTree(int h, const std::string& p) { std::string a = abs(h, p); auto& t = F(h).tree; for (auto it = t.begin(); it != t.end();) if (it->first == a || it->first.compare(0, a.size() + 1, a + "/") == 0) it = t.erase(it); else ++it; }
std::map<std::string, std::string> fsSnapshot(int h, const std::string& prefix) { std::map<std::string, std::string> m; for (auto& e : F(h).tree) if (e.first.compare(0, prefix.size(), prefix) == 0) m[e.first] = e.second->dir ? "<dir>" : e.second->data; return m; }
std::vector<std::string> fsOpenFiles(int h) { std::vector<std::string> v; for (auto& o : opens) if (o.second->host == h) v.push_back(o.second->path); return v; }
u64 fsFailedOf(const char* kind) { for (int k = 0; k < 9; k++) if (!strcmp(kK[k], kind)) return failedOf[k]; internalError("no kind %s", kind); }
void onFsMutate(std::function<void(int, const char*, const std::string&)> fn) { mutate = fn; }
bool isFsFd(int fd) { return fd >= FSFD0 && fd < FSFD1 && active(); }

static ssize_t doRead(Open& o, void* p, size_t n) {
  NoPreempt np; if (!o.rd) { errno = EBADF; return -1; } if (o.ino->dir) { errno = EISDIR; return -1; }
  if (failing(K_READ, o.path)) { errno = EIO; return -1; }
  size_t have = o.pos < (i64)o.ino->data.size() ? o.ino->data.size() - o.pos : 0; n = std::min(n, have);
  if (fs.readChunk && n > fs.readChunk) { n = 1 + choose(C_FS, fs.readChunk); fault(F_FS_SHORT_READ); }
  memcpy(p, o.ino->data.data() + o.pos, n); o.pos += n; hashEv(0x51, n); return n; }
static ssize_t doWrite(Open& o, const void* p, size_t n) {
  NoPreempt np; if (!o.wr) { errno = EBADF; return -1; } if (!n) return 0;
  size_t take = n; int err = 0;
  if (failing(K_WRITE, o.path)) { err = choose(C_FS, 2) ? ENOSPC : EIO; if (err == ENOSPC) fault(F_FS_ENOSPC); take = choose(C_FS, (u32)std::min<size_t>(n, 1u << 30)); if (take) fault(F_FS_SHORT_WRITE); }
  if (fs.capacity >= 0 && (fs.host < 0 || fs.host == curHost()) && (i64)take > fs.capacity) { take = fs.capacity; err = ENOSPC; failed++; fault(F_FS_ENOSPC); if (take) fault(F_FS_SHORT_WRITE); }
  if (o.app) o.pos = o.ino->data.size();
  if (take) { if ((size_t)o.pos + take > o.ino->data.size()) o.ino->data.resize(o.pos + take, 0); memcpy(&o.ino->data[o.pos], p, take); o.pos += take; if (fs.capacity >= 0) fs.capacity -= take; changed("write", o.path); }
  hashEv(0x52, take); if (err) { errno = err; return take ? (ssize_t)take : -1; } return take; }
ssize_t fsRead(int fd, void* p, size_t n) { auto it = opens.find(fd); if (it == opens.end()) { errno = EBADF; return -1; } return doRead(*it->second, p, n); }
ssize_t fsWrite(int fd, const void* p, size_t n) { auto it = opens.find(fd); if (it == opens.end()) { errno = EBADF; return -1; } return doWrite(*it->second, p, n); }
static i64 doSeek(Open& o, i64 off, int wh) { NoPreempt np; if (failing(K_SEEK, o.path)) { errno = EIO; return -1; } i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o.pos : (i64)o.ino->data.size(); if (b + off < 0) { errno = EINVAL; return -1; } return o.pos = b + off; }
i64 fsSeek(int fd, i64 off, int wh) { auto it = opens.find(fd); if (it == opens.end()) { errno = EBADF; return -1; } return doSeek(*it->second, off, wh); }
static ssize_t ckRead(void* c, char* b, size_t n) { return fsRead((int)(intptr_t)c, b, n); }
static ssize_t ckWrite(void* c, const char* b, size_t n) { ssize_t r = fsWrite((int)(intptr_t)c, b, n); return r < 0 ? 0 : r; }
static int ckSeek(void* c, off64_t* o, int w) { i64 r = fsSeek((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ckClose(void* c) { NoPreempt np; int fd = (int)(intptr_t)c; auto it = opens.find(fd); if (it == opens.end()) return 0; std::string p = it->second->path; bool wr = it->second->wr; byFile.erase(it->second->f); opens.erase(it); if (failing(K_CLOSE, p) && wr) { errno = EIO; return -1; } return 0; }
static FILE* doOpen(const char* path, const char* mode) {
  NoPreempt np; int h = curHost(); bool plus = strchr(mode, '+'), r = mode[0] == 'r', w = mode[0] == 'w', a = mode[0] == 'a', x = strchr(mode, 'x');
  bool fail = failing(K_OPEN, path ? path : ""); if (fail) { static const int E[] = { EACCES, EMFILE, EIO, EINTR }; errno = E[choose(C_FS, 4)]; return nullptr; }
  std::string p = resolve(h, path); if (p.empty()) return nullptr; Fs& f = F(h); auto it = f.tree.find(p);
  if (it == f.tree.end()) { if (r) { errno = ENOENT; return nullptr; } auto pp = f.tree.find(parent(p)); if (pp == f.tree.end()) { errno = ENOENT; return nullptr; } if (!pp->second->dir) { errno = ENOTDIR; return nullptr; } f.tree[p] = std::make_shared<Inode>(); it = f.tree.find(p); changed("create", p); }
  else { if (it->second->dir && (w || a || plus)) { errno = EISDIR; return nullptr; } if (x) { errno = EEXIST; return nullptr; } if (w) { it->second->data.clear(); changed("truncate", p); } }
  auto o = std::make_shared<Open>(); o->host = h; o->path = p; o->ino = it->second; o->rd = r || plus; o->wr = w || a || plus; o->app = a; int fd = nextFd++; opens[fd] = o;
  cookie_io_functions_t fn = { ckRead, ckWrite, ckSeek, ckClose }; o->f = fopencookie((void*)(intptr_t)fd, mode, fn); byFile[o->f] = fd; logev("open %s %s", p.c_str(), mode); return o->f; }

// ---------------------------------------------------------------- processes
static struct Box { volatile int crashed; u32 ctr[C_COUNT]; u64 now, seq, steps, blocks, ops, failed, fsFailIn; size_t len, said; char data[1]; }* box = nullptr; const size_t BOXCAP = 1ull << 30;
static std::string gSaid; static bool gInProc = false;
void coreSave(u32* ctr, u64& now, u64& seq, u64& steps, u64& blocks); void coreLoad(const u32* ctr, u64 now, u64 seq, u64 steps, u64 blocks); bool onlyTask();
static void put(std::string& b, const std::string& s) { u64 n = s.size(); b.append((char*)&n, 8); b += s; }
static std::string get(const char*& p) { u64 n; memcpy(&n, p, 8); p += 8; std::string s(p, n); p += n; return s; }
static void saveBox(bool crashed) {
  std::string b; put(b, std::to_string(machines.size())); for (auto& m : machines) { put(b, std::to_string(m.first)); put(b, m.second.home); put(b, m.second.cwd); put(b, std::to_string(m.second.tree.size())); for (auto& e : m.second.tree) { put(b, e.first); b += e.second->dir ? 'd' : 'f'; put(b, e.second->data); } }
  put(b, gSaid); if (b.size() + sizeof(Box) > BOXCAP) internalError("process box full");
  coreSave(box->ctr, box->now, box->seq, box->steps, box->blocks); box->ops = ops; box->failed = failed; memcpy(box->data, b.data(), b.size()); box->len = b.size(); box->crashed = crashed; }
bool inProcess() { return gInProc; }
void say(const std::string& s) { gSaid += s; }
void crashProcess() { if (!gInProc) internalError("crash outside of a process"); fault(F_PROC_CRASH); saveBox(true); _exit(0); }
bool runProcess(const char* name, const std::function<void()>& fn, std::string* said) {
  NoPreempt np; if (gInProc || !onlyTask()) internalError("runProcess with other tasks alive");
  if (!box) { box = (Box*)mmap(nullptr, BOXCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (box == MAP_FAILED) internalError("mmap"); }
  box->len = 0; box->crashed = 0; logev("process %s", name);
  pid_t me = getpid(); pid_t p = fork(); if (p < 0) internalError("fork failed");
  if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != me) _exit(80); gInProc = true; gSaid.clear(); cur()->noPreempt = 0; drawSettings(); fn(); cur()->noPreempt++; saveBox(false); _exit(0); }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (sh->status) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 77);
  if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(81); }
  if (WEXITSTATUS(st) || !box->len) _exit(WEXITSTATUS(st) ? WEXITSTATUS(st) : 82);
  coreLoad(box->ctr, box->now, box->seq, box->steps, box->blocks); ops = box->ops; failed = box->failed;
  const char* q = box->data; machines.clear(); int nm = atoi(get(q).c_str()); for (int i = 0; i < nm; i++) { int h = atoi(get(q).c_str()); Fs& f = F(h); f.tree.clear(); f.home = get(q); f.cwd = get(q); int n = atoi(get(q).c_str()); for (int k = 0; k < n; k++) { std::string path = get(q); auto in = std::make_shared<Inode>(); in->dir = *q++ == 'd'; in->data = get(q); f.tree[path] = in; } }
  std::string s = get(q); if (said) *said = s; hashEv(0x99, fnv(s.data(), s.size())); logev("process %s %s", name, box->crashed ? "crashed" : "ended");
  return !box->crashed; }
} // namespace sim

using namespace sim;
#define W(ret, name, params, args) extern "C" ret __real_##name params; extern "C" ret __wrap_##name params { if (!active()) return __real_##name args; NoPreempt np;
W(FILE*, fopen, (const char* p, const char* m), (p, m)) return doOpen(p, m); }
W(FILE*, fopen64, (const char* p, const char* m), (p, m)) return doOpen(p, m); }
W(FILE*, freopen, (const char* p, const char* m, FILE* f), (p, m, f)) internalError("freopen %s", p); }
W(FILE*, freopen64, (const char* p, const char* m, FILE* f), (p, m, f)) internalError("freopen64 %s", p); }
extern "C" int __real_fileno(FILE* f); extern "C" int __wrap_fileno(FILE* f) { if (active()) { auto it = byFile.find(f); if (it != byFile.end()) return it->second; } return __real_fileno(f); }
extern "C" int __real_fsync(int fd); extern "C" int __wrap_fsync(int fd) { if (!isFsFd(fd)) return __real_fsync(fd); NoPreempt np; auto it = opens.find(fd); if (it == opens.end()) { errno = EBADF; return -1; } if (failing(K_SYNC, it->second->path)) { errno = EIO; return -1; } return 0; }
extern "C" off64_t __real_lseek64(int fd, off64_t o, int w); extern "C" off64_t __wrap_lseek64(int fd, off64_t o, int w) { if (!isFsFd(fd)) return __real_lseek64(fd, o, w); return fsSeek(fd, o, w); }
extern "C" off_t __real_lseek(int fd, off_t o, int w); extern "C" off_t __wrap_lseek(int fd, off_t o, int w) { if (!isFsFd(fd)) return __real_lseek(fd, o, w); return fsSeek(fd, o, w); }
static int fillStat(const char* p, struct stat* st) {
  NoPreempt np; if (failing(K_STAT, p ? p : "")) { errno = EACCES; return -1; } std::string q = resolve(curHost(), p); if (q.empty()) return -1; auto& t = F(curHost()).tree; auto it = t.find(q); if (it == t.end()) { errno = ENOENT; return -1; }
  memset(st, 0, sizeof *st); st->st_mode = it->second->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = it->second->data.size(); st->st_nlink = 1; st->st_blksize = 4096; st->st_mtime = st->st_atime = st->st_ctime = wallNow(curHost()) / SEC; return 0; }
W(int, stat, (const char* p, struct stat* st), (p, st)) return fillStat(p, st); }
W(int, stat64, (const char* p, struct stat64* st), (p, st)) return fillStat(p, (struct stat*)st); }
W(int, lstat, (const char* p, struct stat* st), (p, st)) return fillStat(p, st); }
extern "C" int __real_fstat(int fd, struct stat* st); extern "C" int __wrap_fstat(int fd, struct stat* st) { if (!isFsFd(fd)) return __real_fstat(fd, st); auto it = opens.find(fd); if (it == opens.end()) { errno = EBADF; return -1; } memset(st, 0, sizeof *st); st->st_mode = it->second->ino->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = it->second->ino->data.size(); return 0; }
extern "C" int __real_fstat64(int fd, struct stat64* st); extern "C" int __wrap_fstat64(int fd, struct stat64* st) { if (!isFsFd(fd)) return __real_fstat64(fd, st); return __wrap_fstat(fd, (struct stat*)st); }
W(int, mkdir, (const char* p, mode_t m), (p, m)) if (failing(K_MKDIR, p)) { errno = choose(C_FS, 2) ? ENOSPC : EACCES; return -1; } std::string q = resolve(curHost(), p); if (q.empty()) return -1; auto& t = F(curHost()).tree; if (t.count(q)) { errno = EEXIST; return -1; } auto it = t.find(parent(q)); if (it == t.end()) { errno = ENOENT; return -1; } if (!it->second->dir) { errno = ENOTDIR; return -1; } auto n = std::make_shared<Inode>(); n->dir = true; t[q] = n; changed("mkdir", q); return 0; }
static int doRemove(const char* p, bool file, bool dir) { NoPreempt np; if (failing(K_REMOVE, p)) { errno = choose(C_FS, 2) ? EBUSY : EACCES; return -1; } std::string q = resolve(curHost(), p); if (q.empty()) return -1; auto& f = F(curHost()); auto it = f.tree.find(q); if (it == f.tree.end()) { errno = ENOENT; return -1; } if (it->second->dir) { if (!dir) { errno = EISDIR; return -1; } if (q == "/") { errno = EBUSY; return -1; } if (!emptyDir(f, q)) { errno = ENOTEMPTY; return -1; } } else if (!file) { errno = ENOTDIR; return -1; } f.tree.erase(it); changed("remove", q); return 0; }
W(int, remove, (const char* p), (p)) return doRemove(p, true, true); }
W(int, unlink, (const char* p), (p)) return doRemove(p, true, false); }
W(int, rmdir, (const char* p), (p)) return doRemove(p, false, true); }
W(int, rename, (const char* a, const char* b), (a, b)) if (failing(K_REMOVE, a)) { errno = EACCES; return -1; } std::string x = resolve(curHost(), a), y = resolve(curHost(), b); if (x.empty() || y.empty()) return -1; auto& f = F(curHost()); if (!f.tree.count(x) || !f.tree.count(parent(y))) { errno = ENOENT; return -1; } if (f.tree[x]->dir) internalError("rename of a folder"); f.tree[y] = f.tree[x]; f.tree.erase(x); changed("remove", x); changed("create", y); return 0; }
W(char*, getcwd, (char* b, size_t n), (b, n)) std::string c = F(curHost()).cwd; if (c.size() + 1 > n) { errno = ERANGE; return nullptr; } strcpy(b, c.c_str()); return b; }
namespace { struct SimDir { std::vector<std::string> names; size_t at = 0; struct dirent e; }; std::set<void*> simDirs; }
W(DIR*, opendir, (const char* p), (p)) if (failing(K_OPEN, p)) { errno = EACCES; return nullptr; } std::string q = resolve(curHost(), p); if (q.empty()) return nullptr; auto& t = F(curHost()).tree; auto it = t.find(q); if (it == t.end()) { errno = ENOENT; return nullptr; } if (!it->second->dir) { errno = ENOTDIR; return nullptr; }
  auto* d = new SimDir; d->names = { ".", ".." }; std::string pre = q == "/" ? q : q + "/"; for (auto& e : t) if (e.first.size() > pre.size() && e.first.compare(0, pre.size(), pre) == 0 && e.first.find('/', pre.size()) == std::string::npos) d->names.push_back(e.first.substr(pre.size()));
  for (size_t i = d->names.size(); i > 1; i--) { u32 k = choose(C_FS, (u32)i); if (k) { fault(F_FS_DIRORDER); std::swap(d->names[i - 1], d->names[i - 1 - k]); } } simDirs.insert(d); return (DIR*)d; }
extern "C" struct dirent* __real_readdir(DIR*); extern "C" struct dirent* __wrap_readdir(DIR* x) { if (!simDirs.count(x)) return __real_readdir(x); auto* d = (SimDir*)x; if (d->at >= d->names.size()) return nullptr; memset(&d->e, 0, sizeof d->e); strncpy(d->e.d_name, d->names[d->at++].c_str(), 255); return &d->e; }
extern "C" int __real_closedir(DIR*); extern "C" int __wrap_closedir(DIR* x) { if (!simDirs.count(x)) return __real_closedir(x); simDirs.erase(x); delete (SimDir*)x; return 0; }
W(struct passwd*, getpwuid, (uid_t u), (u)) if (failing(K_HOME, "") || F(curHost()).home.empty()) { errno = EIO; return nullptr; } static thread_local struct passwd pw; static thread_local std::string home; home = F(curHost()).home; memset(&pw, 0, sizeof pw); pw.pw_dir = (char*)home.c_str(); pw.pw_name = (char*)"user"; pw.pw_passwd = (char*)""; pw.pw_gecos = (char*)""; pw.pw_shell = (char*)"/bin/sh"; pw.pw_uid = u; return &pw; }
