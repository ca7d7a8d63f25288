// registry of patterns whose FSM was saved as a table or as code and compiled
#ifndef SAVED_H
#define SAVED_H
#include <map>
namespace reflex { class Pattern; }
typedef reflex::Pattern *(*SavedNew)();
struct Saved {
  static std::map<long, SavedNew>& all() { static std::map<long, SavedNew> m; return m; }
  Saved(long id, SavedNew f) { all()[id] = f; }
};
#endif
