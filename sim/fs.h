// In-memory file system of each simulated machine, storage faults, and simulated processes.
#pragma once
#include "core.h"
namespace sim {
struct FsCfg {
  int host = -1;                      // faults only on this host (-1: all)
  double openP = 0, readP = 0, writeP = 0, closeP = 0, mkdirP = 0, removeP = 0, statP = 0, seekP = 0, syncP = 0, homeP = 0;
  i64 capacity = -1;                  // bytes of disk space left (-1: unlimited)
  u32 failIn = 0; bool sticky = false;// the n-th fallible operation from now fails (sticky: and so do all later operations of the same kind)
  u32 crashIn = 0;                    // the process ends at the n-th operation from now
  u32 readChunk = 0;                  // the kernel hands out at most so many bytes per read
  std::string only;                   // faults only for paths that start with this
  std::string except;                 // and never for paths that start with this
};
extern FsCfg fs;
u64  fsOps();                         // fallible operations so far
u64  fsFailed();                      // injected failures so far
u64  fsFailedOf(const char* kind);     // those of open, read, write, close, mkdir, remove, stat, seek, sync
bool fsExists(int h, const std::string& p);
bool fsIsDir(int h, const std::string& p);
std::string fsGet(int h, const std::string& p);
void fsPut(int h, const std::string& p, const std::string& data);     // creates parent folders
void fsMkdirs(int h, const std::string& p);
void fsRemoveTree(int h, const std::string& p);
std::map<std::string, std::string> fsSnapshot(int h, const std::string& prefix = "/");   // files (content) and folders ("<dir>") below prefix
void fsHome(int h, const std::string& p); void fsCwd(int h, const std::string& p);
std::vector<std::string> fsOpenFiles(int h);
void onFsMutate(std::function<void(int h, const char* op, const std::string& path)> fn);
// A simulated process: fn runs with fresh statics (a fork of the untouched harness); only the file system, and what it says, survive it.
// Must be called while no other task lives. Returns false when the process was ended by an injected crash.
bool runProcess(const char* name, const std::function<void()>& fn, std::string* said = nullptr);
void say(const std::string& s);       // in a process: append to its output
[[noreturn]] void crashProcess();
bool inProcess();
// used by the descriptor seams
bool isFsFd(int fd); ssize_t fsRead(int fd, void* p, size_t n); ssize_t fsWrite(int fd, const void* p, size_t n); i64 fsSeek(int fd, i64 off, int whence);
}
