// C03: reference counted handles under every interleaving.
#include <cstdio>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include "engine.h"
#include "slinky/base/ref_count.h"
#include "slinky/runtime/expr.h"
#include "slinky/runtime/stmt.h"

using namespace slinky;

namespace {

int destroyed[4];

// An object whose destruction reads what every holder wrote to it.
struct object : public ref_counted<object> {
  int id;
  int slot[4] = {};
  slinky::ref_count<object> next;
  explicit object(int id) : id(id) {}
  ~object() override {
    int sum = 0;
    for (int i : slot) sum += i;
    mc::quiet q;
    mc::check(sum >= 0, "slots");
    mc::check(++destroyed[id] == 1, "an object is destroyed twice");
  }
  static void destroy(object* o) { delete o; }
};
using H = ref_count<object>;
using CH = ref_count<const object>;

void touch(H& h, int t) {
  if (object* o = h) {
    o->slot[t] += 1;
    mc::quiet q;
    mc::check(destroyed[o->id] == 0, "an object is used through a handle after its destruction");
  }
}

constexpr int ops = 8;
const char* op_names[ops] = {"copy", "assign", "move", "reset", "raw", "self", "take", "const"};
void step(int op, H& a, H& b, int t) {
  switch (op) {
  case 0: {
    H c = a;
    touch(c, t);
    break;
  }
  case 1: b = a; break;
  case 2: b = std::move(a); break;
  case 3: a = nullptr; break;
  case 4: a = static_cast<object*>(b); break;
  case 5: {
    H& c = a;
    a = c;
    H d = std::move(a);
    a = d;
    break;
  }
  case 6: {
    H c = H::assume(b.take());
    std::swap(a, c);
    b = std::move(c);
    break;
  }
  case 7: {
    CH c = a;
    a = nullptr;
    if (const object* o = c) mc::check(o->id >= 0, "id");
    break;
  }
  }
  touch(a, t);
  touch(b, t);
}

void begin() {
  for (int& i : destroyed) i = 0;
}
void done(int n) {
  for (int i = 0; i < n; ++i) mc::check(destroyed[i] == 1, "an object is not destroyed exactly once when its last handle is gone");
}

// Two threads with handles of two objects each do two operations.
__attribute__((noinline)) void pair(int A, int B, int C, int D) {
  begin();
  {
    H x = new object(0), y = new object(1);
    std::thread t1([=]() mutable {
      step(A, x, y, 1);
      step(B, y, x, 1);
    });
    std::thread t2([=]() mutable {
      step(C, x, y, 2);
      step(D, y, x, 2);
    });
    touch(x, 0);
    x = nullptr;
    y = std::move(x);
    t1.join();
    t2.join();
  }
  done(2);
}

template <int N>
void n_threads() {
  begin();
  {
    H x = new object(0);
    std::vector<std::thread> ts;
    for (int i = 0; i < N; ++i)
      ts.emplace_back([x, i]() mutable {
        touch(x, i + 1);
        H y = x;
        x = nullptr;
        touch(y, i + 1);
      });
    touch(x, 0);
    x = nullptr;
    for (std::thread& t : ts) t.join();
  }
  done(1);
}

// A list whose nodes own the next one; threads walk it while it is dropped.
void chain() {
  begin();
  {
    H a = new object(0);
    a->next = new object(1);
    a->next->next = new object(2);
    auto walk = [](H h, int t) {
      while (h) {
        touch(h, t);
        h = h->next;
      }
    };
    std::thread t1([=]() { walk(a, 1); });
    std::thread t2([h = a->next, walk]() { walk(h, 2); });
    a = a->next;
    touch(a, 0);
    a = H(a->next);
    touch(a, 0);
    a = nullptr;
    t1.join();
    t2.join();
  }
  done(3);
}

// Nodes of expressions and statements shared by threads.
void exprs() {
  expr e = variable::make(var(0)) + 1;
  expr k = e * e;
  std::thread t1([e, k]() mutable {
    expr f = e + k;
    e = expr();
    k = f;
    f = k;
  });
  std::thread t2([k]() mutable {
    if (const slinky::mul* m = k.as<slinky::mul>()) {
      expr a = m->a;
      k = a;
    }
  });
  k = e;
  e = expr();
  t1.join();
  t2.join();
}
void stmts() {
  stmt s = slinky::check::make(variable::make(var(0)) < 3);
  stmt b = block::make({s, slinky::check::make(variable::make(var(1)) < 3)});
  std::thread t1([s, b]() mutable {
    stmt c = block::make({b, s});
    b = stmt();
    s = c;
  });
  std::thread t2([b]() mutable {
    if (const block* k = b.as<block>()) b = k->stmts[0];
  });
  b = s;
  s = stmt();
  t1.join();
  t2.join();
}

std::vector<mc::scenario> scenarios;
std::vector<std::string> names;

template <int I>
void pair_i() {
  pair(I % ops, I / ops % ops, I / ops / ops % ops, I / ops / ops / ops);
}
template <int... I>
void add_all(std::integer_sequence<int, I...>) {
  static void (*const bodies[])() = {pair_i<I>...};
  for (int i = 0; i < (int)sizeof...(I); ++i) {
    int a = i % ops, b = i / ops % ops, c = i / ops / ops % ops, d = i / ops / ops / ops;
    // Threads are interchangeable.
    if (a + ops * b > c + ops * d) continue;
    names.push_back(std::string(op_names[a]) + "_" + op_names[b] + "__" + op_names[c] + "_" + op_names[d]);
    scenarios.push_back({nullptr, bodies[i], 3, 5});
  }
}

}  // namespace

int main(int argc, char** argv) {
  // Nodes that are made once per process.
  {
    expr e = variable::make(var(0)) + 1, k = e * e, f = e + k;
    stmt s = slinky::check::make(variable::make(var(0)) < 3);
    s = block::make({s, slinky::check::make(variable::make(var(1)) < 3)});
  }
  add_all(std::make_integer_sequence<int, ops * ops * ops * ops>());
  for (size_t i = 0; i < scenarios.size(); ++i) scenarios[i].name = names[i].c_str();
  scenarios.push_back({"threads_2", n_threads<2>, 99, 99});
  scenarios.push_back({"threads_3", n_threads<3>, 3, 5});
  scenarios.push_back({"chain", chain, 4, 6});
  scenarios.push_back({"exprs", exprs, 3, 5});
  scenarios.push_back({"stmts", stmts, 3, 5});
  return mc::main_driver(argc, argv, scenarios.data(), (int)scenarios.size());
}
