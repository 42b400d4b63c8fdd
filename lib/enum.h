// Driver for bounded exhaustive enumeration: a finite list of units is divided over forked workers; crashes, failed
// assertions, sanitizer reports and hangs are attributed to the unit that caused them and confirmed by running that unit
// alone before they are reported.
#ifndef VERIF_LIB_ENUM_H
#define VERIF_LIB_ENUM_H

#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace en {

bool thorough();
int seed();

// Called by units.
void eval(uint64_t n = 1);              // n cases were evaluated
void nontrivial(uint64_t hash);         // this case is non-trivial and has this identity
bool want_sample();                     // should this unit write out a sample?
void sample(const std::string& s);
// The property is violated. `key` identifies the failing input; `desc` says what is wrong.
void fail(const std::string& key, const std::string& desc);
bool failed();                          // did the current unit fail?
void tag(const char* what);             // what the unit is doing, for crash reports

inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull + (a << 6) + (a >> 2));
  x ^= x >> 32;
  x *= 0xD6E8FEB86659FD93ull;
  x ^= x >> 29;
  return x;
}

struct space {
  const char* property;
  const char* rule;
  // Called once, before the workers are forked. Returns the number of units.
  std::function<uint64_t()> init;
  std::function<void(uint64_t)> run;
  std::function<std::string(uint64_t)> describe;
  double unit_timeout = 60;
  std::function<std::string()> stats = nullptr;
};

// A space made of several named families of units.
struct family {
  std::string name;
  uint64_t n;
  std::function<void(uint64_t)> run;
  std::function<std::string(uint64_t)> describe;
};
space families(const char* property, const char* rule, std::function<std::vector<family>()> make, double unit_timeout = 60);

// printf into a string.
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// Usage: prog run --tier quick|thorough --out STATS.json --budget SECONDS --seed N --replay-dir DIR [--jobs N]
//        prog unit N --tier T       runs one unit, prints failures; exit 1 if it fails
int main_driver(int argc, char** argv, const space& s);

}  // namespace en

#endif
