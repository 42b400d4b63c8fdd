// C20: recording of traces under every interleaving.
#include <cstdio>
#include <ostream>
#include <streambuf>
#include <string>
#include <thread>
#include <vector>

#include "engine.h"
#include "trace_json.h"
#include "slinky/base/chrome_trace.h"

using namespace slinky;

namespace {

// Where the trace goes: a write can be preempted, and others can see what is written so far.
class sink : public std::streambuf {
public:
  char data[1 << 14];
  size_t size = 0;
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    size_t at = size;
    for (std::streamsize i = 0; i < n; ++i) {
      if (i == n / 2) mc::point();
      mc::check(at + i < sizeof(data), "more is written than expected");
      data[at + i] = s[i];
    }
    size = at + n;
    return n;
  }
  int overflow(int c) override {
    data[size++] = (char)c;
    return c;
  }
};

const char* names[3][3] = {{"a0", "a1", "a2"}, {"b0", "b1", "b2"}, {"c0", "c1", "c2"}};

// What thread t records: a number of nested pairs, and one after them.
void work(chrome_trace& trace, int t, int depth, int more) {
  for (int i = 0; i < depth; ++i) trace.begin(names[t][i]);
  for (int i = depth; i-- > 0;) trace.end(names[t][i]);
  for (int i = 0; i < more; ++i) scoped_trace s(&trace, names[t][i]);
}
std::string expected(int t, int depth, int more) {
  std::string s;
  for (int i = 0; i < depth; ++i) s += std::string("B") + names[t][i];
  for (int i = depth; i-- > 0;) s += std::string("E") + names[t][i];
  for (int i = 0; i < more; ++i) s += std::string("B") + names[t][i] + "E" + names[t][i];
  return s;
}

template <int Threads, int Depth, int More>
void record() {
  sink* out = new sink();
  {
    std::ostream os(out);
    chrome_trace trace(os);
    std::vector<std::thread> ts;
    for (int t = 1; t < Threads; ++t) ts.emplace_back([&trace, t]() { work(trace, t, Depth, More); });
    work(trace, 0, Depth, More);
    for (std::thread& t : ts) t.join();
  }
  {
    mc::quiet q;
    std::vector<tj::event> events;
    std::string bad = tj::parse(std::string(out->data, out->size), events);
    mc::check(bad.empty(), bad.c_str());
    uint64_t h = 1;
    for (int t = 0; t < Threads; ++t) {
      std::string s;
      for (const tj::event& e : events)
        if (e.name[0] == names[t][0][0]) s += e.ph + e.name;
      mc::check(s == expected(t, Depth, More), "the events of a thread are not those it recorded, in their order");
    }
    for (const tj::event& e : events) h = h * 31 + e.name[0] * 8 + e.name[1] + e.ph[0];
    mc::outcome(h);
  }
  delete out;
}

}  // namespace

int main(int argc, char** argv) {
  {
    std::ostream os(nullptr);
    chrome_trace t(os);
    t.begin("warm");
    t.end("warm");
  }
  static const mc::scenario scenarios[] = {
      {"two_1", record<2, 1, 0>, 99, 99},
      {"two_2", record<2, 2, 0>, 6, 99},
      {"two_2_1", record<2, 2, 1>, 5, 99},
      {"three_1", record<3, 1, 0>, 4, 8},
      {"three_2", record<3, 2, 0>, 3, 5},
  };
  return mc::main_driver(argc, argv, scenarios, 5);
}
