// A session: what an application does with one document, as steps that can be mixed with those of others.
#pragma once
#include "dcase.h"
#include <memory>
namespace dl {
struct Session {
  std::string dir, kind; u64 key = 0, pos = 0; Map log; size_t next = 0; double density = 0.5; bool names = true; std::vector<std::function<void()>> steps;
  std::unique_ptr<VCOMPtr<IGdtfFixture>> g, g2; std::unique_ptr<VCOMPtr<IMediaRessourceVectorInterface>> m, m2; GdtfDoc gd; MvrDoc md; Opt o;
  bool step();                        // false: nothing left to do
  void release();                     // drops all objects
  void note(const std::string& what, VCOMError e) { log[what] = e ? "failed" : "ok"; }
  void add(const std::string& pre, const Map& m) { for (auto& e : m) log[pre + e.first] = e.second; }
};
// shared: documents that are there, which the session may read
std::unique_ptr<Session> session(int id, u64 key, const std::vector<std::string>& shared);
std::vector<std::string> sharedDocuments(bool damaged);              // written by processes of their own
}
