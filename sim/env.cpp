#include "core.h"
#include "env.h"
#include <locale>
#include <locale.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
namespace sim {
static bool vary = false; static u32 tz = 0;
static std::string localeFolder() { static std::string f; if (f.empty()) { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); f = n > 0 ? std::string(b, n) : ""; f = f.substr(0, f.rfind('/')) + "/locale"; } return f; }
void varySettings(bool nowToo) { vary = choose(C_CFG, 3) == 1; tz = vary ? choose(C_CFG, 4) : 0;   // archives have local times in them, so the time zone is the same for all processes
  if (nowToo) drawSettings(); }
void drawSettings() {
  if (!vary) return; static const char* names[] = { "C", "de_DE.UTF-8", "tr_TR.ISO-8859-9", "fr_FR.UTF-8" }; u32 k = choose(C_CFG, 4), how = choose(C_CFG, 3);
  if (tz) { static const char* zones[] = { "", "UTC-14", "EST5EDT", "<+0545>-5:45" }; setenv("TZ", zones[tz], 1); tzset(); }
  if (!k) return; setenv("LOCPATH", localeFolder().c_str(), 1); if (!setlocale(how == 1 ? LC_NUMERIC : LC_ALL, names[k])) { probe("locale not available"); setlocale(LC_ALL, "C"); return; }
  probe((std::string("locale ") + names[k] + (how == 2 ? " for streams too" : "")).c_str());
  if (how == 2) try { std::locale::global(std::locale(names[k])); } catch (std::exception&) { probe("locale not available to streams"); } }
}
