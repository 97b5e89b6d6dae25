// Documents for the storage checks: random GDTF and MVR documents built through the API (with a record of everything put in),
// and dumps of everything the API hands out.
#pragma once
#include "fs.h"
#include "Include/VectorworksMVR.h"
#include <functional>
#include <map>
#include <string>
#include <vector>
namespace dl {
using namespace sim;
using namespace VectorworksMVR;
namespace GD = VectorworksMVR::GdtfDefines;
using Map = std::map<std::string, std::string>;
extern thread_local bool gNames; extern thread_local double D;                                                   // density of optional content, 0 .. 1
std::string blob(u32 key, size_t n, int style);                    // content of an attached file
size_t blobSize();
struct Attached { std::string name, data, entry; bool viaFile; };  // entry: path inside the archive
struct GdtfDoc { std::string name; Map model; std::vector<Attached> files; MvrUUID uuid; };
struct MvrDoc  { Map model; std::vector<Attached> files; std::vector<std::pair<std::string, GdtfDoc>> gdtfs; };
struct Opt { bool big = false; bool names = true; bool files = true; std::string src = "/src"; u32 salt = 0; };
GdtfDoc planGdtf(const Opt& o);                                    // decides the resources and writes the source files (as the user would have them)
bool buildGdtf(IGdtfFixture* g, GdtfDoc& d, const Opt& o);         // fills an opened fixture
void dumpGdtf(IGdtfFixture* g, Map& out, bool files = true);
extern thread_local std::function<void(const VCOMError*)> fixtureAsked;          // by dumpMvr: before (null) and after each GetGdtfFixture
bool buildMvr(IMediaRessourceVectorInterface* m, MvrDoc& d, const Opt& o);
void dumpMvr(IMediaRessourceVectorInterface* m, Map& out, bool files = true);
std::string text(const Map& m); Map parse(const std::string& s);   // one line per entry, for say()
std::string diff(const Map& want, const Map& got, bool subset, std::string* firstKey = nullptr);   // "" when equal
std::string keyClass(const std::string& k);                        // the key without its indices
std::string slurp(const std::string& path, bool& ok);              // the content of a file as the process sees it
int here();
bool toBuffer(IGdtfFixture* g, std::string& out);                       // RefreshBuffer, GetBufferLength, ToBuffer
}
