#pragma once
// Helpers for the demonstrations about files: a scratch folder stands in for the user's home, and library calls can be made to fail.
#include "Prefix/StdAfx.h"
#include "Include/VectorworksMVR.h"
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <atomic>
#include <thread>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <dlfcn.h>
#include <pwd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
using namespace VectorworksMVR;
namespace GD = VectorworksMVR::GdtfDefines;
static std::string here() { char b[4096]; return getcwd(b, sizeof b); }
static const std::string W = here() + "/";
extern "C" struct passwd* getpwuid(uid_t) { static struct passwd p; static std::string h = here(); p.pw_dir = (char*)h.c_str(); return &p; }
template <class F> static F real(F, const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static void check(bool ok, const char* what) { fprintf(stderr, "%s: %s\n", ok ? "ok" : "FAILED", what); if (!ok) _exit(1); }
static std::string slurp(const std::string& p) { std::string r; int f = open(p.c_str(), O_RDONLY); if (f < 0) return "<none>"; char b[4096]; ssize_t n; while ((n = read(f, b, sizeof b)) > 0) r.append(b, n); close(f); return r; }
static void put(const std::string& p, const std::string& d) { int f = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (write(f, d.data(), d.size()) != (ssize_t)d.size()) _exit(3); close(f); }
static bool exists(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0; }
static int entries(const std::string& p) { int n = 0; DIR* d = opendir(p.c_str()); if (!d) return 0; while (dirent* e = readdir(d)) n += strcmp(e->d_name, ".") && strcmp(e->d_name, ".."); closedir(d); return n; }
static int fds() { return entries("/proc/self/fd"); }
typedef VCOMPtr<IGdtfFixture> Gdtf; typedef VCOMPtr<IMediaRessourceVectorInterface> Mvr;
#define GDTF(x) Gdtf x(IID_IGdtfFixture)
#define MVR(x) Mvr x(IID_MediaRessourceVectorInterface)
static const STransformMatrix kUnit = { 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0 };
static bool ok(VCOMError e) { return VCOM_SUCCEEDED(e); }
// a plain archive without compression
static unsigned crc(const std::string& s) { unsigned c = ~0u; for (unsigned char x : s) { c ^= x; for (int i = 0; i < 8; i++) c = (c >> 1) ^ (0xEDB88320u & (0 - (c & 1))); } return ~c; }
struct Entry { std::string name, data; int method = 0; std::string raw; size_t size = 0; unsigned sum = 0; };
static std::string zip(const std::vector<Entry>& v) { auto le = [](unsigned x, int n) { std::string s; for (int i = 0; i < n; i++) s += char(x >> (8 * i)); return s; }; std::string b, d; for (auto& e : v) { std::string raw = e.method ? e.raw : e.data; unsigned c = e.method ? e.sum : crc(e.data), at = b.size(), n = e.method ? e.size : e.data.size(); std::string h = le(20, 2) + le(0, 2) + le(e.method, 2) + le(0x6020, 2) + le(0x5021, 2) + le(c, 4) + le(raw.size(), 4) + le(n, 4) + le(e.name.size(), 2) + le(0, 2); b += "PK\x03\x04" + h + e.name + raw; d += "PK\x01\x02" + le(20, 2) + h + le(0, 2) + le(0, 2) + le(0, 2) + le(0, 4) + le(at, 4) + e.name; } unsigned at = b.size(); return b + d + "PK\x05\x06" + le(0, 4) + le(v.size(), 2) + le(v.size(), 2) + le(d.size(), 4) + le(at, 4) + le(0, 2); }
