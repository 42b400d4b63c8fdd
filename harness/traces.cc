// C20: what is written for every order of events of several threads, and for every name.
#include <condition_variable>
#include <fstream>
#include <functional>
#include <mutex>
#include <sstream>
#include <thread>

#include <sys/wait.h>
#include <unistd.h>

#include "enum.h"
#include "slinky/base/chrome_trace.h"
#include "trace_json.h"

using namespace slinky;

namespace {

void nests(int pairs, int open, std::string s, std::vector<std::string>& r) {
  if (!pairs && !open) {
    r.push_back(s);
    return;
  }
  if (pairs) nests(pairs - 1, open + 1, s + 'B', r);
  if (open) nests(pairs, open - 1, s + 'E', r);
}

struct op {
  bool begin;
  std::string name;
};
// The events of a word of B and E; names are numbered by depth.
std::vector<op> events_of(const std::string& word, int t, bool same_names) {
  std::vector<op> r;
  int depth = 0;
  for (char c : word) {
    if (c == 'E') --depth;
    r.push_back({c == 'B', en::fmt("%s%d", same_names ? "n" : en::fmt("t%d_", t).c_str(), depth)});
    if (c == 'B') ++depth;
  }
  return r;
}

bool judge(const std::string& desc, const std::string& text, const std::vector<std::vector<op>>& ops) {
  std::vector<tj::event> ev;
  std::string bad = tj::parse(text, ev);
  if (bad.empty()) bad = tj::balanced(ev);
  if (bad.empty()) {
    // The events of each thread, under an id of its own.
    std::map<long, std::vector<tj::event>> by;
    for (const tj::event& e : ev) by[e.tid].push_back(e);
    size_t busy = 0;
    std::vector<bool> used(ops.size());
    for (auto& o : ops) busy += !o.empty();
    if (by.size() != busy) bad = "the number of thread ids differs from the number of threads";
    for (auto& i : by) {
      bool found = false;
      for (size_t t = 0; t < ops.size() && !found; ++t) {
        if (used[t] || ops[t].size() != i.second.size()) continue;
        bool same = true;
        for (size_t k = 0; k < ops[t].size(); ++k) same &= ops[t][k].name == i.second[k].name && (i.second[k].ph == "B") == ops[t][k].begin;
        if (same) used[t] = true, found = true;
      }
      if (!found && bad.empty()) bad = "the events of a thread are not those it recorded";
    }
  }
  en::eval();
  en::nontrivial(std::hash<std::string>()(desc));
  if (en::want_sample()) en::sample(desc);
  if (bad.empty()) return true;
  en::fail(desc, bad);
  return false;
}

// Real threads take turns as `order` says.
void interleave(const std::string& desc, const std::vector<std::vector<op>>& ops, const std::vector<int>& order) {
  std::ostringstream os;
  {
    chrome_trace trace(os);
    std::mutex m;
    std::condition_variable cv;
    size_t at = 0;
    std::vector<std::thread> ts;
    for (size_t t = 0; t < ops.size(); ++t)
      ts.emplace_back([&, t]() {
        for (const op& o : ops[t]) {
          std::unique_lock<std::mutex> l(m);
          cv.wait(l, [&]() { return order[at] == (int)t; });
          if (o.begin) trace.begin(o.name.c_str());
          else trace.end(o.name.c_str());
          ++at;
          cv.notify_all();
        }
      });
    for (std::thread& t : ts) t.join();
  }
  judge(desc, os.str(), ops);
}

void orders(const std::vector<std::vector<op>>& ops, std::vector<size_t>& left, std::vector<int>& order, const std::function<void()>& f) {
  bool any = false;
  for (size_t t = 0; t < ops.size(); ++t)
    if (left[t]) {
      any = true;
      --left[t];
      order.push_back((int)t);
      orders(ops, left, order, f);
      order.pop_back();
      ++left[t];
    }
  if (!any) f();
}

void all_orders(const std::string& id, const std::vector<std::vector<op>>& ops) {
  std::vector<size_t> left;
  for (auto& o : ops) left.push_back(o.size());
  std::vector<int> order;
  orders(ops, left, order, [&]() {
    std::string desc = id + ":";
    for (int i : order) desc += en::fmt(" %d", i);
    interleave(desc, ops, order);
  });
}

const char* alphabet[] = {"a", "\"", "\\", "\n", "\x01", "\x1f", "\x7f", "\xc3\xa9", "%s", "/", " ", "{", "]", ",", "\t", "u0041"};
constexpr int letters = sizeof(alphabet) / sizeof(alphabet[0]);

void one_name(const std::string& desc, const std::string& name) {
  std::vector<std::vector<op>> ops = {{{true, name}, {true, "x"}, {false, "x"}, {false, name}}};
  std::ostringstream os;
  {
    chrome_trace trace(os);
    scoped_trace s(&trace, name.c_str());
    scoped_trace x(&trace, "x");
  }
  judge(desc, os.str(), ops);
}

std::vector<en::family> make() {
  std::vector<en::family> f;
  const bool thorough = en::thorough();
  for (bool same : {false, true})
    for (int threads : {1, 2, 3}) {
      auto units = std::make_shared<std::vector<std::vector<std::string>>>();
      std::vector<std::string> words;
      int pairs = threads == 1 ? 5 : threads == 2 ? (thorough ? 4 : 3) : thorough ? 3 : 2;
      for (int p = 0; p <= pairs; ++p) nests(p, 0, "", words);
      std::vector<std::vector<std::string>> w = {{}};
      for (int t = 0; t < threads; ++t) {
        std::vector<std::vector<std::string>> n;
        for (auto& i : w)
          for (auto& j : words) {
            // Threads are interchangeable.
            if (!i.empty() && i.back() > j) continue;
            n.push_back(i);
            n.back().push_back(j);
          }
        w = n;
      }
      // Three threads: at most five pairs together.
      for (auto& i : w) {
        size_t total = 0;
        for (auto& j : i) total += j.size();
        if (threads < 3 || total <= (thorough ? 12 : 10)) units->push_back(i);
      }
      auto desc = [=](uint64_t u) {
        std::string s = same ? "same names" : "names";
        for (auto& i : (*units)[u]) s += " [" + i + "]";
        return s;
      };
      f.push_back({en::fmt("%d threads, %s", threads, same ? "the same names" : "different names"), units->size(),
          [=](uint64_t u) {
            std::vector<std::vector<op>> ops;
            for (size_t t = 0; t < (*units)[u].size(); ++t) ops.push_back(events_of((*units)[u][t], (int)t, same));
            all_orders(desc(u), ops);
          },
          desc});
    }
  const int len = thorough ? 4 : 3;
  uint64_t n = 1;
  for (int i = 0; i < len; ++i) n *= letters + 1;
  f.push_back({"names", n / (letters + 1),
      [=](uint64_t u) {
        for (int k = 0; k <= letters; ++k) {
          uint64_t v = u * (letters + 1) + k;
          std::string name;
          bool ended = false, twice = false;
          for (int i = 0; i < len; ++i) {
            int c = (int)(v % (letters + 1));
            v /= letters + 1;
            if (c == letters) ended = true;
            else if (ended) twice = true;
            else name += alphabet[c];
          }
          if (twice) continue;
          std::string shown;
          for (char c : name) shown += en::fmt(" %02x", (unsigned char)c);
          one_name("name" + shown, name);
        }
      },
      [](uint64_t u) { return en::fmt("names %llu", (unsigned long long)u); }});
  f.push_back({"lengths", 65,
      [=](uint64_t u) {
        for (int i = 0; i < 64; ++i) {
          int n = (int)u * 64 + i;
          one_name(en::fmt("name of length %d", n), std::string(n, 'x'));
          if (n % 3 == 0) one_name(en::fmt("name of length %d to escape", n), std::string(n, '"'));
        }
      },
      [](uint64_t u) { return en::fmt("lengths from %llu", (unsigned long long)u * 64); }});
  // The trace of a process, written to the file that its environment names.
  auto words = std::make_shared<std::vector<std::string>>();
  for (int p = 0; p <= (thorough ? 5 : 4); ++p) nests(p, 0, "", *words);
  f.push_back({"process", words->size(),
      [=](uint64_t u) {
        char dir[] = "/tmp/verif_traceXXXXXX";
        if (!mkdtemp(dir)) return;
        std::string path = std::string(dir) + "/trace.json";
        std::vector<op> ops = events_of((*words)[u], 0, true);
        pid_t pid = fork();
        if (pid == 0) {
          setenv("SLINKY_TRACE", path.c_str(), 1);
          std::vector<std::unique_ptr<scoped_trace>> open;
          scoped_trace all("all");
          for (const op& o : ops) {
            if (o.begin) open.push_back(std::make_unique<scoped_trace>(o.name.c_str()));
            else open.pop_back();
          }
          all.~scoped_trace();
          exit(0);
        }
        int status;
        waitpid(pid, &status, 0);
        std::ifstream is(path);
        std::stringstream text;
        text << is.rdbuf();
        unlink(path.c_str());
        rmdir(dir);
        ops.insert(ops.begin(), {true, "all"});
        ops.push_back({false, "all"});
        if (status) en::fail("process " + (*words)[u], "the process fails");
        else judge("process " + (*words)[u], text.str(), {ops});
      },
      [=](uint64_t u) { return "process " + (*words)[u]; }});
  return f;
}

}  // namespace

int main(int argc, char** argv) {
  static auto s = en::families("C20", "all orders of the events of up to three threads with all nestings, all names up to a length over an alphabet of special characters, and lengths of names", make);
  return en::main_driver(argc, argv, s);
}
