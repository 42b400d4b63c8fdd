// Controlled scheduler / stateless model checker. See engine.cc and DESIGN.md.
#ifndef VERIF_MC_ENGINE_H
#define VERIF_MC_ENGINE_H

#include <cstddef>
#include <cstdint>

namespace mc {

struct scenario {
  const char* name;
  void (*body)();   // runs as model thread 0 of every execution
  int bound_quick;  // preemption bound in the quick tier
  int bound_thorough;
};

// Called from inside a scenario:
// Reports a violation of the property (does not return when the condition is false).
void check(bool ok, const char* what);
void fail(const char* what);
// Adds a value to the outcome of this execution; distinct outcomes are counted.
void outcome(uint64_t v);
// Number of model threads currently between begin/end of an application defined region.
int thread_id();
// A scheduling point that does nothing else.
void point();
// A scheduling point whose order relative to other events on the same object is observed by the harness (it is a part of
// the state, but does not order anything for the race detector).
void event(const void* obj);
// Runs `fn` as a part of the harness' own bookkeeping: no scheduling points, no race detection.
struct quiet {
  quiet();
  ~quiet();
  int old_;
};

// Main entry: runs all scenarios. argv: see engine.cc. Returns process exit code.
int main_driver(int argc, char** argv, const scenario* scenarios, int n);

}  // namespace mc

#endif
