// Storing and loading whole documents, shared by the storage checks.
#pragma once
#include "dlib.h"
#include "xlib.h"
namespace dl {
const std::string SEP = "\x01\x01";
void tell(const Map& m);                                           // from a process, see maps()
std::vector<Map> maps(const std::string& said);
Map structure(const Map& m);                                       // without the content of files
Map contents(const Map& m);                                        // only the content of files
void compare(const char* what, const Map& want, const Map& got, bool subset);
void elsewhere();                                                  // another machine, time, working folder, home and history for the process that reads
Opt someOpt();                                                     // a random kind of document
// builds a document and stores it; model: everything that was put in. The result is that of the call that stores it.
VCOMError storeGdtf(const std::string& path, const Opt& o, Map& model, bool viaBuffer, Map* built = nullptr);
VCOMError storeMvr(const std::string& path, const Opt& o, Map& model, Map* built = nullptr);
VCOMError store(bool mvr, const std::string& path, const Opt& o, Map& model, bool viaBuffer = false);
// loads a document, and asks it for everything also when that failed (store: and stores what there is)
VCOMError loadGdtf(const std::string& path, Map& out, bool fromBuffer = false, bool* xmlError = nullptr, const std::function<void()>& loaded = nullptr, bool store = false);
VCOMError loadMvr(const std::string& path, Map& out, const std::function<void()>& loaded = nullptr, bool store = false);
VCOMError load(bool mvr, const std::string& path, Map& out, bool* xmlError = nullptr, const std::function<void()>& loaded = nullptr);
// entries of an archive, read by the harness itself (false: not a proper archive)
struct Entry { std::string name, data, raw; u32 method = 0, crc = 0, local = 0, central = 0, dataAt = 0; };
bool unzip(const std::string& bytes, std::vector<Entry>& out, std::string* why = nullptr);
std::string zipRaw(const std::vector<Entry>& entries);               // the data of the entries as it is in .raw, with the method and checksum given
std::string zip(const std::vector<Entry>& entries);                // stored entries
const char* ext(bool mvr);
}
