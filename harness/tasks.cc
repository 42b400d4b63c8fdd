// C22: splitting a block into asynchronous tasks. All blocks of a few statements, with declarations, loops and nested
// blocks; two statements that share a buffer have to be ordered as before, whatever order the tasks run in.
#include "enum.h"

#include "slinky/builder/optimizations.h"
#include "slinky/builder/simplify.h"
#include "slinky/runtime/expr.h"
#include "slinky/runtime/print.h"
#include "slinky/runtime/stmt.h"

#include <map>
#include <set>
#include <sstream>

using namespace slinky;

namespace slinky {
namespace {

enum { A, B, C, D, T, I, S, NV };
const char* names[] = {"a", "b", "c", "d", "t", "i", "s"};

var V(int i) { return var(i); }

struct leaf {
  std::string id;
  std::set<int> reads, writes;
  bool check = false;
};

// Finds the leaves of a statement, and which of them have to be finished before which of the others start.
struct walker {
  std::vector<leaf> leaves;
  std::set<std::pair<int, int>> before;
  std::map<int, int> root;
  int next_root = 1000;
  bool bad = false;

  int find(var v) {
    auto i = root.find(v.id);
    return i == root.end() ? (int)v.id : i->second;
  }
  using range = std::pair<int, int>;

  void uses(const expr& e, leaf& l) {
    struct v : public recursive_node_visitor {
      walker* w; leaf* l;
      void visit(const variable* op) override { if (op->sym.defined()) l->reads.insert(w->find(op->sym)), l->writes.insert(w->find(op->sym)); }
    } q;
    q.w = this, q.l = &l;
    if (e.defined()) e.accept(&q);
  }

  range add(leaf l) { leaves.push_back(std::move(l)); return {(int)leaves.size() - 1, (int)leaves.size()}; }

  range decl(var sym, int r, const stmt& body) {
    auto old = root;
    root[sym.id] = r;
    range k = walk(body);
    root = old;
    return k;
  }

  range walk(const stmt& s) {
    const int begin = leaves.size();
    if (!s.defined()) return {begin, begin};
    if (auto op = s.as<call_stmt>()) {
      leaf l; l.id = op->attrs.name;
      for (var v : op->inputs) l.reads.insert(find(v));
      for (var v : op->outputs) l.writes.insert(find(v));
      return add(l);
    }
    if (auto op = s.as<copy_stmt>()) {
      leaf l; l.id = "copy" + std::to_string((long)*as_constant(op->src_x[0]));
      l.reads.insert(find(op->src)); l.writes.insert(find(op->dst));
      return add(l);
    }
    if (auto op = s.as<check>()) {
      leaf l; l.check = true;
      std::ostringstream o; o << op->condition; l.id = "check " + o.str();
      uses(op->condition, l);
      return add(l);
    }
    if (auto op = s.as<block>()) {
      for (const stmt& i : op->stmts) {
        const int b = leaves.size();
        walk(i);
        for (int x = begin; x < b; ++x) for (int y = b; y < (int)leaves.size(); ++y) before.insert({x, y});
      }
      return {begin, (int)leaves.size()};
    }
    if (auto op = s.as<async>()) { walk(op->task); walk(op->body); return {begin, (int)leaves.size()}; }
    if (auto op = s.as<loop>()) return walk(op->body);
    if (auto op = s.as<let_stmt>()) return walk(op->body);
    if (auto op = s.as<allocate>()) return decl(op->sym, next_root++, op->body);
    if (auto op = s.as<make_buffer>()) {
      auto c = op->base.as<call>();
      return decl(op->sym, c && c->args.size() ? find(*as_variable(c->args[0])) : next_root++, op->body);
    }
    if (auto op = s.as<crop_dim>()) return decl(op->sym, find(op->src), op->body);
    if (auto op = s.as<crop_buffer>()) return decl(op->sym, find(op->src), op->body);
    if (auto op = s.as<slice_dim>()) return decl(op->sym, find(op->src), op->body);
    if (auto op = s.as<slice_buffer>()) return decl(op->sym, find(op->src), op->body);
    if (auto op = s.as<transpose>()) return decl(op->sym, find(op->src), op->body);
    if (auto op = s.as<clone_buffer>()) return decl(op->sym, find(op->src), op->body);
    bad = true;
    return {begin, begin};
  }
};

bool meets(const std::set<int>& a, const std::set<int>& b) { for (int i : a) if (b.count(i)) return true; return false; }
bool conflict(const leaf& a, const leaf& b) {
  if (a.check && b.check) return false;
  return meets(a.writes, b.writes) || meets(a.writes, b.reads) || meets(a.reads, b.writes);
}

// A template of a statement; `n` is its position, which makes the names of what it does unique.
struct atom { std::string name; std::function<stmt(int)> make; int cls; };

std::string nm(int n, const char* w) { return std::string("k") + std::to_string(n) + w; }
stmt kall(int n, std::vector<int> in, std::vector<int> out, const char* w = "") {
  call_stmt::attributes at; at.name = nm(n, w);
  std::vector<var> i, o;
  for (int k : in) i.push_back(V(k));
  for (int k : out) o.push_back(V(k));
  return call_stmt::make([](const call_stmt*, const eval_context&) -> index_t { return 0; }, i, o, {}, at);
}
stmt copy(int n, int s, int d) { return copy_stmt::make(nullptr, V(s), {expr(index_t(n))}, V(d), {V(I)}, var()); }
stmt chk(int n, int b) { return check::make(buffer_min(V(b), 0) < n + 1000); }
stmt chk_at(int n, int b) { return check::make(buffer_at(V(b)) != n + 2000); }

std::vector<atom> atoms() {
  std::vector<atom> r;
  auto add = [&](const char* n, int cls, std::function<stmt(int)> f) { r.push_back({n, f, cls}); };
  for (int i = -1; i < 3; ++i) for (int o = 0; o < 3; ++o) {
    std::string name = std::string(i < 0 ? "" : names[i]) + ">" + names[o];
    r.push_back({name, [=](int n) { return kall(n, i < 0 ? std::vector<int>{} : std::vector<int>{i}, {o}); }, i < 0 && o ? 1 : 0});
  }
  add("ab>c", 1, [](int n) { return kall(n, {A, B}, {C}); });
  add("a>bc", 1, [](int n) { return kall(n, {A}, {B, C}); });
  add("copy a b", 2, [](int n) { return copy(n, A, B); });
  add("copy b c", 1, [](int n) { return copy(n, B, C); });
  add("check a", 0, [](int n) { return chk(n, A); });
  add("check b", 1, [](int n) { return chk(n, B); });
  add("check", 1, [](int n) { return check::make(variable::make(V(S)) < n + 1000); });
  add("check at c", 1, [](int n) { return chk_at(n, C); });
  add("crop a d {b>d}", 0, [](int n) { return crop_dim::make(V(D), V(A), 0, {0, 1}, kall(n, {B}, {D})); });
  add("crop_buffer b d {d>c}", 1, [](int n) { return crop_buffer::make(V(D), V(B), {{0, 1}}, kall(n, {D}, {C})); });
  add("slice a d {d>b}", 1, [](int n) { return slice_dim::make(V(D), V(A), 0, 0, kall(n, {D}, {B})); });
  add("slice_buffer c d {a>d}", 1, [](int n) { return slice_buffer::make(V(D), V(C), {0}, kall(n, {A}, {D})); });
  add("clone b d {c>d}", 1, [](int n) { return clone_buffer::make(V(D), V(B), kall(n, {C}, {D})); });
  add("transpose c d {d>a}", 1, [](int n) { return transpose::make(V(D), V(C), {0}, kall(n, {D}, {A})); });
  add("make d at a {c>d}", 1, [](int n) { return make_buffer::make(V(D), buffer_at(V(A)), 1, {}, kall(n, {C}, {D})); });
  add("clone a d {crop d t {>t}}", 1, [](int n) { return clone_buffer::make(V(D), V(A), crop_dim::make(V(T), V(D), 0, {0, 1}, kall(n, {}, {T}))); });
  add("crop a d {b>d a>c}", 1, [](int n) { return crop_dim::make(V(D), V(A), 0, {0, 1}, block::make({kall(n, {B}, {D}), kall(n, {A}, {C}, "'")})); });
  add("crop a d {check d; check a}", 1, [](int n) { return crop_dim::make(V(D), V(A), 0, {0, 1}, block::make({chk(n, D), chk(n + 100, A)})); });
  add("alloc t {a>t t>b}", 0, [](int n) { return allocate::make(V(T), memory_type::heap, 1, {}, block::make({kall(n, {A}, {T}), kall(n, {T}, {B}, "'")})); });
  add("alloc t {c>t t>a t>b}", 1, [](int n) { return allocate::make(V(T), memory_type::heap, 1, {}, block::make({kall(n, {C}, {T}), kall(n, {T}, {A}, "'"), kall(n, {T}, {B}, "''")})); });
  add("alloc t {>t} ", 1, [](int n) { return allocate::make(V(T), memory_type::stack, 1, {}, kall(n, {}, {T})); });
  add("alloc t {a>t b>t check t t>c}", 1, [](int n) { return allocate::make(V(T), memory_type::heap, 1, {}, block::make({kall(n, {A}, {T}), kall(n, {B}, {T}, "'"), chk(n, T), kall(n, {T}, {C}, "''")})); });
  add("alloc t {a>t t>b free t}", 1, [](int n) { return allocate::make(V(20 + n), memory_type::heap, 1, {}, block::make({kall(n, {A}, {20 + n}), kall(n, {20 + n}, {B}, "'"), check::make(call::make(intrinsic::free, {V(20 + n)})), kall(n, {}, {C}, "''")})); });
  add("loop {b>c}", 1, [](int n) { return loop::make(V(I), loop::serial, {0, 3}, 1, kall(n, {B}, {C})); });
  add("loop {a>b b>c}", 1, [](int n) { return loop::make(V(I), loop::serial, {0, 3}, 1, block::make({kall(n, {A}, {B}), kall(n, {B}, {C}, "'")})); });
  add("parallel {>a c>b}", 1, [](int n) { return loop::make(V(I), loop::parallel, {0, 3}, 1, block::make({kall(n, {}, {A}), kall(n, {C}, {B}, "'")})); });
  add("let s {a>c check}", 1, [](int n) { return let_stmt::make(V(S), buffer_min(V(B), 0), block::make({kall(n, {A}, {C}), check::make(variable::make(V(S)) < n + 5000)})); });
  add("async {a>b | c>c}", 1, [](int n) { return async::make(var(), kall(n, {A}, {B}), kall(n, {C}, {C}, "'")); });
  add("async {>a a>b | >c c>c}", 1, [](int n) { return async::make(var(), block::make({kall(n, {}, {A}), kall(n, {A}, {B}, "'")}), block::make({kall(n, {}, {C}, "''"), kall(n, {C}, {C}, "'''")})); });
  return r;
}

std::vector<atom> AT;

struct outer { const char* name; std::function<stmt(stmt)> wrap; };
const outer outers[] = {
    {"", [](stmt s) { return s; }},
    {"alloc b ", [](stmt s) { return allocate::make(V(B), memory_type::heap, 1, {}, s); }},
    {"loop ", [](stmt s) { return loop::make(V(I), loop::serial, {0, 3}, 1, s); }},
    {"crop c from a ", [](stmt s) { return crop_dim::make(V(C), V(A), 0, {0, 1}, s); }},
    {"block with crop c from a ", [](stmt s) { return block::make({kall(50, {}, {A}), crop_dim::make(V(C), V(A), 0, {0, 1}, s), kall(51, {B}, {A})}); }},
    {"block ending in alloc b ", [](stmt s) { return block::make({kall(50, {B}, {A}), allocate::make(V(B), memory_type::heap, 1, {}, s), kall(51, {B}, {C})}); }},
};

std::string show(const stmt& s) {
  std::ostringstream o;
  o << s;
  std::string r = o.str(), q;
  for (char c : r) q += c == '\n' ? ' ' : c;
  std::string z;
  for (char c : q) if (c != ' ' || z.empty() || z.back() != ' ') z += c;
  return z;
}

void judge(const stmt& s, const std::string& name) {
  stmt p = parallelize_tasks(s);
  walker x, y;
  x.walk(s);
  y.walk(p);
  en::eval();
  std::string what;
  std::map<std::string, int> at;
  for (size_t i = 0; i < y.leaves.size(); ++i) if (!at.emplace(y.leaves[i].id, i).second) what = "does something twice: " + y.leaves[i].id;
  if (x.bad || y.bad) what = "unexpected statement";
  if (what.empty() && y.leaves.size() != x.leaves.size()) what = "a statement is missing or new";
  uint64_t h = 7;
  int unordered = 0;
  for (size_t i = 0; what.empty() && i < x.leaves.size(); ++i) {
    auto f = at.find(x.leaves[i].id);
    if (f == at.end()) { what = "a statement is missing: " + x.leaves[i].id; break; }
    for (size_t j = i + 1; j < x.leaves.size(); ++j) {
      auto g = at.find(x.leaves[j].id);
      if (g == at.end()) { what = "a statement is missing: " + x.leaves[j].id; break; }
      bool was = x.before.count({(int)i, (int)j}), is = y.before.count({f->second, g->second}), back = y.before.count({g->second, f->second});
      if (was && !is) ++unordered, h = en::mix(h, i * 64 + j);
      if (was && !is && conflict(x.leaves[i], x.leaves[j])) what = x.leaves[i].id + " is not finished before " + x.leaves[j].id + (back ? " (they are exchanged)" : " (they run at the same time)");
    }
  }
  if (unordered) {
    for (char c : name) h = en::mix(h, c);
    en::nontrivial(h);
    if (en::want_sample()) en::sample(name + ": " + std::to_string(unordered) + " pairs may run in any order");
  }
  if (!what.empty()) en::fail(name, what + "; result: " + show(p));
}

// All sequences of `k` of the atoms, inside each of the outer statements. One unit for each pair of first statements.
en::family blocks(std::string name, std::vector<int> which, int k, std::vector<int> os) {
  const uint64_t m = which.size();
  auto pre = [=](uint64_t u) { return outers[os[u / m / m]].name + std::string("{ ") + AT[which[u % m]].name + "; " + AT[which[u / m % m]].name; };
  return {name, m * m * os.size(),
      [=](uint64_t u) {
        std::vector<int> at{which[u % m], which[u / m % m]};
        const outer& o = outers[os[u / m / m]];
        std::function<void()> rec = [&]() {
          if ((int)at.size() == k) {
            std::vector<stmt> ss;
            std::string n = std::string(o.name) + "{ ";
            for (int i = 0; i < k; ++i) ss.push_back(AT[at[i]].make(i)), n += (i ? "; " : "") + AT[at[i]].name;
            judge(o.wrap(block::make(ss)), n + " }");
            return;
          }
          for (int i : which) { at.push_back(i); rec(); at.pop_back(); if (en::failed()) return; }
        };
        rec();
      },
      [=](uint64_t u) { return pre(u) + " ..."; }};
}

std::vector<en::family> make() {
  const bool t = en::thorough();
  AT = atoms();
  std::vector<int> all, few, calls;
  for (size_t i = 0; i < AT.size(); ++i) { all.push_back(i); if (AT[i].cls == 0) few.push_back(i); if (i < 12 && i != 1 && i != 2) calls.push_back(i); }
  std::vector<en::family> f;
  f.push_back(blocks("two statements", all, 2, {0, 1, 2, 3, 4, 5}));
  f.push_back(blocks("three statements", all, 3, {0, 1, 2, 3, 4, 5}));
  f.push_back(blocks("four statements", all, 4, t ? std::vector<int>{0, 3, 4, 5} : std::vector<int>{0}));
  f.push_back(blocks("five statements", t ? all : few, 5, {0}));
  f.push_back(blocks(t ? "seven calls" : "six calls", calls, t ? 7 : 6, {0}));
  return f;
}

}  // namespace
}  // namespace slinky

int main(int argc, char** argv) {
  return en::main_driver(argc, argv, en::families("C22", "some statements of the block may run in any order", slinky::make));
}
