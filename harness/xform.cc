// C10: statement transformations, judged by what programs do before and after.
#define SL_NV 24
#include "exprlib.h"
#include "stmtgen.h"

#include "slinky/builder/optimizations.h"
#include "slinky/builder/simplify.h"
#include "slinky/builder/substitute.h"
#include "slinky/runtime/depends_on.h"

#include <map>
#include <set>
#include <unordered_map>

using namespace sl;
using namespace slinky;
using en::fmt;

namespace {

struct seen { rbuf b; bool out; };
struct ref_event { std::string name; std::vector<seen> b; std::vector<index_t> s; bool any_empty = false; };

struct ref_run {
  std::vector<ref_event> ev;
  struct alloc { int from, to; };
  std::vector<alloc> allocs;
  std::vector<const char*> content;   // of constants, by region
  std::vector<const_raw_buffer_ptr> keep;
  index_t result = 0;
  bool unsupported = false, freed = false, bad_free = false;
  bool sliced_inner_broadcast = false;
  int failed_checks = 0;
};

env base_env(int variant) {
  world& w = W();
  env v;
  const int ints[] = {X, Y, T, P};
  for (int i = 0; i < 4; ++i) { v.v[ints[i]].k = i < 2 ? INT : NONE; v.v[ints[i]].i = variant ? (int[]){0, 1, 3, 2}[i] : (int[]){2, -1, 5, 1}[i]; }
  v.v[B].k = v.v[C].k = BUF;
  v.v[B].b = sl::describe(w.b, 0);
  v.v[C].b = sl::describe(w.c, 1);
  return v;
}

void setup(reference& r) {
  world& w = W();
  for (int i = 0; i < 4; ++i) { region g; g.caller = true; r.regions.push_back(g); }
  r.constants.push_back({w.K1.get(), sl::describe(w.k1, 2)});
  r.constants.push_back({w.K2.get(), sl::describe(w.k2, 3)});
}

ref_run run(const stmt& s, const env& v, bool original) {
  ref_run o;
  if (!s.defined()) return o;
  reference r;
  setup(r);
  r.ambiguous_broadcasts = original;
  o.content = {nullptr, nullptr, (const char*)W().k1.base(), (const char*)W().k2.base()};
  r.on_constant = [&](const const_raw_buffer_ptr& c, rbuf& b) {
    if (c->rank > MAXR) return false;
    o.keep.push_back(c);
    o.content.resize(r.regions.size(), nullptr);
    o.content.push_back((const char*)c->base);
    region g;
    g.caller = true;
    r.regions.push_back(g);
    b = sl::describe(*c, r.regions.size() - 1);
    if (!c->base) b.base = ptr();
    return true;
  };
  r.on_call = [&](const call_stmt* op, const env& v) -> index_t {
    ref_event e;
    e.name = op->attrs.name;
    for (int out = 0; out < 2; ++out)
      for (auto i : out ? op->outputs : op->inputs) {
        if (i.id >= NV || v.v[i.id].k != BUF) { r.unsupported = true; return 0; }
        const rbuf& b = v.v[i.id].b;
        e.b.push_back({b, out != 0});
        e.any_empty = e.any_empty || b.empty() || b.base.region < 0;
        if (b.base.region >= 0 && !r.regions[b.base.region].live) o.freed = true;
      }
    for (auto& i : op->scalars) e.s.push_back(r.I(i, v));
    o.ev.push_back(std::move(e));
    // When allocations are in scope.
    while (o.allocs.size() < r.regions.size()) o.allocs.push_back({(int)o.ev.size() - 1, 0});
    for (size_t i = 0; i < r.regions.size(); ++i) if (r.regions[i].live) o.allocs[i].to = (int)o.ev.size() - 1;
    return 0;
  };
  r.on_copy = [&](const copy_stmt*, const rbuf& a, const rbuf& b, const rbuf* p, const std::vector<index_t>& at) -> index_t {
    ref_event e;
    e.name = p ? "pad" : "copy";
    e.b.push_back({a, true}); e.b.push_back({b, true}); if (p) e.b.push_back({*p, false});
    for (auto& q : e.b) e.any_empty = e.any_empty || q.b.empty() || q.b.base.region < 0;
    e.s = at;
    o.ev.push_back(std::move(e));
    return 0;
  };
  o.result = r.run(s, v);
  o.unsupported = r.unsupported;
  o.bad_free = r.bad_free;
  o.sliced_inner_broadcast = r.sliced_inner_broadcast;
  o.failed_checks = r.failed_checks;
  while (o.allocs.size() < r.regions.size()) o.allocs.push_back({0, 0});
  o.content.resize(r.regions.size(), nullptr);
  return o;
}

std::string show_ints(const std::vector<index_t>& v) { std::string s; for (auto k : v) s += fmt(" %lld", (long long)k); return s; }

struct comparer {
  const ref_run &a, &b;
  bool exact;   // Inputs must be the same too, not only within the bounds the original had.
  std::map<int, int> regions;   // of a -> of b
  bool same_region(int p, int q) {
    if (p < 4 || q < 4) return p == q;
    auto i = regions.find(p);
    if (i != regions.end()) return i->second == q;
    for (auto& r : regions)
      if (r.second == q && a.allocs[r.first].from <= a.allocs[p].to && a.allocs[p].from <= a.allocs[r.first].to) return false;
    regions[p] = q;
    return true;
  }
  bool same(const rbuf& x_, const rbuf& y_, bool out) {
    // Constants cannot be written.
    if (x_.base.region >= 0 && a.content[x_.base.region]) out = false;
    rbuf x = x_, y = y_;
    x.trim(); y.trim();
    if (exact || out) {
      if (!exact && x.empty() && y.empty()) return true;
      if (!exact && x.base.region < 0 && y.base.region < 0) return true;   // There is nothing in it.
      if (x.es != y.es || x.rank != y.rank || (x.base.region < 0) != (y.base.region < 0)) return false;
      for (int d = 0; d < x.rank; ++d) if (!(x.d[d] == y.d[d])) return false;
      return x.base.region < 0 || (same_region(x.base.region, y.base.region) && x.base.off == y.base.off);
    }
    if (x.empty() || x.base.region < 0) return true;   // There is nothing in it.
    if (y.base.region >= 4 && b.content[y.base.region]) return same_constant(x, y);
    if (x.es != y.es || y.base.region < 0 || !same_region(x.base.region, y.base.region)) return false;
    index_t ox = x.base.off, oy = y.base.off;
    for (int d = 0; d < std::max(x.rank, y.rank); ++d) {
      rdim i = x.dim(d), j = y.dim(d);
      if (i.broadcast() && j.stride == 0) continue;
      if (i.stride != j.stride || i.fold != j.fold || j.min > i.min || j.max < i.max) return false;
      ox += i.offset(i.min);
      oy += j.offset(i.min);
    }
    return ox == oy;
  }
  // Constants may be replaced by others with the same values.
  bool same_constant(const rbuf& x, const rbuf& y) {
    const char *p = a.content[x.base.region], *q = b.content[y.base.region];
    if (!p || !q || x.es != y.es) return false;
    for (int d = 0; d < std::max(x.rank, y.rank); ++d)
      if (!x.dim(d).broadcast() || !y.dim(d).broadcast()) { if (y.dim(d).min > x.dim(d).min || y.dim(d).max < x.dim(d).max) return false; }
    index_t i[MAXR];
    for (int d = 0; d < x.rank; ++d) i[d] = x.d[d].broadcast() ? 0 : x.d[d].min;
    for (;;) {
      index_t ox = x.base.off, oy = y.base.off;
      for (int d = 0; d < x.rank; ++d) { ox += x.d[d].offset(i[d]); oy += y.dim(d).offset(i[d]); }
      if (memcmp(p + ox, q + oy, x.es)) return false;
      int d = 0;
      for (; d < x.rank; ++d) { if (x.d[d].broadcast()) continue; if (i[d]++ < x.d[d].max) break; i[d] = x.d[d].min; }
      if (d == x.rank) return true;
    }
  }
  std::string diff() {
    for (size_t i = 0; i < a.ev.size() && i < b.ev.size(); ++i) {
      const ref_event &p = a.ev[i], &q = b.ev[i];
      if (p.name != q.name) return fmt("event %zu is %s, not %s", i, q.name.c_str(), p.name.c_str());
      if (p.s != q.s && (exact || !p.any_empty)) return fmt("event %zu (%s): values are", i, p.name.c_str()) + show_ints(q.s) + ", not" + show_ints(p.s);
      if (p.b.size() != q.b.size()) return fmt("event %zu (%s): %zu buffers, not %zu", i, p.name.c_str(), q.b.size(), p.b.size());
      for (size_t k = 0; k < p.b.size(); ++k)
        if (!same(p.b[k].b, q.b[k].b, p.b[k].out)) return fmt("event %zu (%s): %s %zu is %s, not %s", i, p.name.c_str(), p.b[k].out ? "output" : "input", k, sl::show(q.b[k].b).c_str(), sl::show(p.b[k].b).c_str());
    }
    if (a.ev.size() != b.ev.size()) return fmt("%zu events, not %zu", b.ev.size(), a.ev.size());
    if ((a.result != 0) != (b.result != 0)) return "a different result";
    return "";
  }
};

std::string judge(const ref_run& a, const ref_run& b, bool exact) {
  if (b.unsupported) return "it uses something that does not exist";
  if (b.freed) return "it uses memory that was freed";
  if (b.bad_free) return "it frees something that is not an allocation";
  return comparer{a, b, exact, {}}.diff();
}

struct names_ctx {
  node_context ctx;
  names_ctx() { for (int i = 0; i < NN; ++i) ctx.insert(names()[i]); }
};
std::string show(const stmt& s, node_context& ctx) {
  if (!s.defined()) return "(nothing)";
  std::ostringstream o;
  o << std::tie(s, ctx);
  std::string r = o.str();
  return r.size() > 2500 ? r.substr(0, 2500) + "..." : r;
}

struct pass { const char* name; stmt out; bool exact; };

const var externals[] = {var(X), var(Y), var(B), var(C)};

// All passes, each on what it is used on when a pipeline is built.
std::vector<pass> passes(const stmt& s, node_context& ctx, bool shadowed_alloc, bool can_simplify) {
  std::vector<pass> r;
  std::vector<var> ext(externals, externals + 4);
  stmt d = deshadow(s, span<var>(ext.data(), 4), ctx);
  r.push_back({"deshadow", d, true});
  r.push_back({"canonicalize", canonicalize_nodes(s), true});
  if (!shadowed_alloc) r.push_back({"optimize", optimize_symbols(d, ctx), true});
  if (!shadowed_alloc) r.push_back({"fuse", fuse_siblings(d), true});
  if (!shadowed_alloc) r.push_back({"free", insert_early_free(d), true});
  if (!can_simplify) return r;
  if (getenv("XF_DUMP")) fprintf(stderr, "%s\n", show(d, ctx).c_str());
  stmt m = simplify(d);
  r.push_back({"simplify", m, false});
  if (!m.defined()) return r;
  // As the pipeline builder does.
  stmt q = deshadow(m, span<var>(ext.data(), 4), ctx);
  if (getenv("XF_DUMP")) fprintf(stderr, "then %s\n", show(q, ctx).c_str());
  q = simplify(q);
  if (!q.defined()) { r.push_back({"pipeline", q, false}); return r; }
  q = fuse_siblings(q);
  if (getenv("XF_DUMP")) fprintf(stderr, "then %s\n", show(q, ctx).c_str());
  q = simplify(q);
  if (!q.defined()) { r.push_back({"pipeline", q, false}); return r; }
  q = insert_early_free(q);
  q = optimize_symbols(q, ctx);
  q = canonicalize_nodes(q);
  r.push_back({"pipeline", q, false});
  return r;
}

// Allocations that shadow something are not renamed, and cannot be simplified.
}
namespace slinky { namespace {
class alloc_shadows : public recursive_node_visitor {
public:
  std::vector<var> in_scope;
  bool found = false;
  template <typename T> void one(const T* op) { in_scope.push_back(op->sym); recursive_node_visitor::visit(op); in_scope.pop_back(); }
  void visit(const let_stmt* op) override { for (auto& i : op->lets) in_scope.push_back(i.first); recursive_node_visitor::visit(op); in_scope.resize(in_scope.size() - op->lets.size()); }
  void visit(const loop* op) override { one(op); }
  void visit(const allocate* op) override { for (var i : in_scope) found = found || i == op->sym; one(op); }
  void visit(const make_buffer* op) override { one(op); }
  void visit(const constant_buffer* op) override { one(op); }
  void visit(const clone_buffer* op) override { one(op); }
  void visit(const crop_buffer* op) override { one(op); }
  void visit(const crop_dim* op) override { one(op); }
  void visit(const slice_buffer* op) override { one(op); }
  void visit(const slice_dim* op) override { one(op); }
  void visit(const transpose* op) override { one(op); }
  void visit(const async* op) override { one(op); }
  using recursive_node_visitor::visit;
};
}}
namespace {

void check(const stmt& s, const std::string& name) {
  en::tag(name.c_str());
  alloc_shadows sh;
  for (var i : externals) sh.in_scope.push_back(i);
  s.accept(&sh);
  ref_run orig[2];
  env v[2];
  int ok = 0, failed = 0;
  for (int i = 0; i < 2; ++i) {
    v[i] = base_env(i);
    orig[i] = run(s, v[i], true);
    if (!orig[i].unsupported) ++ok;
    if (orig[i].failed_checks) ++failed;
  }
  if (!ok) return;
  names_ctx n;
  // Simplifying a check that always fails aborts.
  for (const pass& p : passes(s, n.ctx, sh.found, failed < 2 && !sh.found)) {
    for (int i = 0; i < 2; ++i) {
      if (orig[i].unsupported) continue;
      en::eval();
      if (orig[i].ev.size() > 2) en::nontrivial(std::hash<std::string>()(name) * 31 + std::hash<std::string>()(p.name) + i);
      ref_run got = run(p.out, v[i], false);
      std::string e = judge(orig[i], got, p.exact);
      // The key says when it is due to a known finding.
      const char* why = orig[i].sliced_inner_broadcast && !p.exact ? "inner broadcast sliced: " : "";
      // Once for each program is enough.
      if (*why && (name.find('/') != std::string::npos || p.name != std::string("simplify") || name.find('{') != name.rfind('{'))) break;
      if (!e.empty()) { en::fail(why + name + fmt(" (%s)", p.name), fmt("%s of ", p.name) + name + (i ? " x=0: " : ": ") + e + "\n" + show(s, n.ctx) + "\nbecomes\n" + show(p.out, n.ctx)); break; }
    }
  }
  if (en::want_sample()) en::sample(name);
}

std::vector<tmpl> T_;
std::vector<int> by_class[3];

// style 0: leaves observe everything; 1: only buffers; 2: only in the innermost declaration, and only buffers.
}
namespace slinky { namespace {
class lean_mutator : public node_mutator {
public:
  int style, last;
  void visit(const call_stmt* op) override {
    std::vector<expr> sc;
    if (style == 2 && op->attrs.name != fmt("L%d", last)) { set_result(stmt()); return; }
    for (auto& e : op->scalars) if (const variable* x = e.as<variable>()) if (x->field == buffer_field::none && style < 2) sc.push_back(e);
    set_result(call_stmt::make(op->target, op->inputs, op->outputs, std::move(sc), op->attrs));
  }
  using node_mutator::visit;
};
}}
namespace {

void run_chain(const std::vector<const tmpl*>& ts) {
  program p = build(ts);
  if (!p.s.defined()) return;
  std::string name;
  for (auto t : ts) name += (name.empty() ? "" : " { ") + t->name;
  check(p.s, name);
  for (int style = 1; style < 3; ++style) {
    slinky::lean_mutator m;
    m.style = style;
    m.last = ts.size();   // Leaves are numbered from the outside in.
    stmt q = m.mutate(p.s);
    if (q.defined()) check(q, name + fmt(" /%d", style));
  }
}

bool has_loop(const tmpl& t) { return t.name.rfind("loop", 0) == 0; }

en::family chains(const char* name, std::vector<std::vector<int>> levels) {
  uint64_t n = 1;
  for (size_t i = 0; i + 1 < levels.size(); ++i) n *= levels[i].size();
  auto get = [=](uint64_t u) { std::vector<const tmpl*> r; for (size_t i = 0; i + 1 < levels.size(); ++i) { r.push_back(&T_[levels[i][u % levels[i].size()]]); u /= levels[i].size(); } return r; };
  return {name, n,
      [=](uint64_t u) {
        std::vector<const tmpl*> r = get(u);
        r.push_back(nullptr);
        for (int i : levels.back()) { r.back() = &T_[i]; run_chain(r); }
      },
      [=](uint64_t u) { std::string s; for (auto t : get(u)) s += t->name + " { "; return s; }};
}

// Two declarations in a row, in another.
en::family siblings(const char* name, std::vector<int> outer, std::vector<int> inner) {
  return {name, (uint64_t)outer.size() * inner.size(),
      [=](uint64_t u) {
        const tmpl& o = T_[outer[u % outer.size()]];
        const tmpl& a = T_[inner[u / outer.size()]];
        for (int j : inner) {
          const tmpl& b = T_[j];
          for (int between = 0; between < 2; ++between) {
            int id = 0;
            auto in = [&](const scope& s) { return leaf(s, id++); };
            stmt s = o.make(start(), [&](const scope& t) -> stmt {
              stmt p = a.make(t, in), q = b.make(t, in);
              if (!p.defined() || !q.defined()) return stmt();
              return between ? block::make({leaf(t, id++), p, leaf(t, id++), q}) : block::make({p, q});
            });
            if (!s.defined()) continue;
            check(block::make({s, leaf(start(), id++)}), o.name + " { " + a.name + (between ? " ; L ; " : " ; ") + b.name);
            slinky::lean_mutator m;
            m.style = 1;
            check(m.mutate(s), o.name + " { " + a.name + (between ? " ; L ; " : " ; ") + b.name + " /1");
          }
        }
      },
      [=](uint64_t u) { return T_[outer[u % outer.size()]].name + " { " + T_[inner[u / outer.size()]].name + " ; "; }};
}

// Programs with loops. Simplifying may assume that each element a call computes only depends on the elements of its
// inputs it reads, and that elements do not change once they are written (unless they are folded over), so it can merge
// iterations of a loop, and move calls out of loops. These are judged by what is in the output.
struct memory {
  struct cell { uint64_t value, where; };   // where: which index of folded dimensions it is for
  std::unordered_map<uint64_t, cell> m;
  cell* find(const ptr& p) { auto i = m.find(((uint64_t)p.region << 32) + (uint32_t)(p.off + (1 << 20))); return i == m.end() ? nullptr : &i->second; }
  cell& at(const ptr& p) { return m[((uint64_t)p.region << 32) + (uint32_t)(p.off + (1 << 20))]; }
};

struct mem_run {
  std::vector<uint64_t> out;
  const char* bad = nullptr;   // not well formed
  bool failed = false;
};

rbuf dense_buf(int region, int es, std::vector<std::pair<index_t, index_t>> b) {
  rbuf r;
  r.base.region = region;
  r.base.off = 0;
  r.es = es;
  r.rank = b.size();
  index_t s = es;
  for (size_t d = 0; d < b.size(); ++d) { r.d[d].min = b[d].first; r.d[d].max = b[d].second; r.d[d].stride = s; r.d[d].fold = -1; s *= b[d].second - b[d].first + 1; }
  return r;
}

bool element(const rbuf& b, const index_t* i, ptr& p) {
  if (b.base.region < 0) return false;
  p = b.base;
  for (int d = 0; d < b.rank; ++d) {
    if (b.d[d].broadcast()) continue;
    if (i[d] < b.d[d].min || i[d] > b.d[d].max) return false;
    p.off += b.d[d].offset(i[d]);
  }
  return true;
}

uint64_t where(const rbuf& b, const index_t* i) {
  uint64_t w = 0;
  for (int d = 0; d < b.rank; ++d) if (b.d[d].fold != -1) w = en::mix(w + 1, i[d] + 100);
  return w;
}
uint64_t mix2(uint64_t a, uint64_t b) { return en::mix(a, b); }

rbuf mem_b() { return dense_buf(0, 1, {{-1, 4}, {-4, 10}}); }
rbuf mem_c() { return dense_buf(1, 2, {{0, 1}, {0, 4}}); }

mem_run run_mem(const stmt& s, int variant, bool original) {
  mem_run o;
  if (!s.defined()) { o.bad = "nothing"; return o; }
  env v;
  v.v[X].k = v.v[Y].k = INT;
  v.v[X].i = variant ? 1 : 4; v.v[Y].i = variant ? 0 : 2;
  v.v[B].k = v.v[C].k = BUF;
  v.v[B].b = mem_b();
  v.v[C].b = mem_c();
  reference r;
  setup(r);
  r.ambiguous_broadcasts = original;
  memory m;
  auto bad = [&](const char* why) { if (!o.bad) o.bad = why; return 0; };
  // For each element of `out`, f(index), which returns false if it cannot be computed.
  auto each = [&](const rbuf& out, auto f) {
    if (out.empty()) return;
    index_t i[MAXR] = {};
    for (int d = 0; d < out.rank; ++d) i[d] = out.d[d].broadcast() ? 0 : out.d[d].min;
    for (;;) {
      ptr p;
      if (!element(out, i, p)) { bad("an output without memory"); return; }
      if (!r.regions[p.region].live) { bad("an output that was freed"); return; }
      uint64_t val;
      if (!f(i, val)) return;
      memory::cell* was = m.find(p);
      uint64_t w = where(out, i);
      if (original && was && was->value != val && was->where == w) { bad("an element that changes"); return; }
      m.at(p) = {val, w};
      int d = 0;
      for (; d < out.rank; ++d) { if (out.d[d].broadcast()) continue; if (i[d]++ < out.d[d].max) break; i[d] = out.d[d].min; }
      if (d == out.rank) return;
    }
  };
  auto read = [&](const rbuf& in, const index_t* i, uint64_t& val) {
    ptr p;
    if (!element(in, i, p)) { bad("an input out of bounds"); return false; }
    if (!r.regions[p.region].live) { bad("an input that was freed"); return false; }
    if (p.region == 0) { val = mix2(77, p.off + 1000); return true; }
    memory::cell* x = m.find(p);
    if (!x || (original && x->where != where(in, i))) { bad("an input that was not written"); return false; }
    val = x->value;
    return true;
  };
  r.on_call = [&](const call_stmt* op, const env& v) -> index_t {
    int window = op->attrs.name[0] == 's' ? 2 : 1;
    uint64_t h = std::hash<std::string>()(op->attrs.name);
    for (auto& i : op->scalars) h = mix2(h, r.I(i, v));
    for (auto out : op->outputs) {
      if (out.id >= NV || v.v[out.id].k != BUF) { bad("an output that does not exist"); return 0; }
      const rbuf& b = v.v[out.id].b;
      each(b, [&](const index_t* i, uint64_t& val) {
        val = h;
        for (int d = 0; d < b.rank; ++d) val = mix2(val, i[d]);
        for (auto in : op->inputs) {
          if (in.id >= NV || v.v[in.id].k != BUF) { bad("an input that does not exist"); return false; }
          const rbuf& a = v.v[in.id].b;
          if (a.rank > b.rank) { bad("an input with more dimensions"); return false; }
          index_t j[MAXR];
          for (int d = 0; d < a.rank; ++d) j[d] = i[d];
          for (int k = 0; k < window; ++k, ++j[1]) {
            uint64_t x;
            if (!read(a, j, x)) return false;
            val = mix2(val, x);
            if (a.rank < 2) break;
          }
        }
        return true;
      });
    }
    return 0;
  };
  r.on_copy = [&](const copy_stmt*, const rbuf& src, const rbuf& dst, const rbuf*, const std::vector<index_t>& at) -> index_t {
    bad("a copy");
    return 0;
  };
  o.failed = r.run(s, v) != 0;
  if (r.unsupported) bad("something that does not exist");
  if (r.bad_free) bad("a free of something that is not an allocation");
  rbuf c = mem_c();
  for (index_t y = c.d[1].min; y <= c.d[1].max; ++y)
    for (index_t x = c.d[0].min; x <= c.d[0].max; ++x) {
      index_t i[] = {x, y};
      ptr p;
      element(c, i, p);
      memory::cell* was = m.find(p);
      o.out.push_back(was ? was->value : 0);
    }
  return o;
}

struct how { int n = 0, bad = 0, changed = 0; };
how H;

void check_mem(const stmt& s, const std::string& name) {
  en::tag(name.c_str());
  mem_run orig[2];
  int ok = 0;
  for (int i = 0; i < 2; ++i) {
    orig[i] = run_mem(s, i, true);
    if (!orig[i].bad) ++ok;
  }
  if (getenv("XF_DUMP")) fprintf(stderr, "%s: %s %s\n", name.c_str(), orig[0].bad ? orig[0].bad : "ok", orig[1].bad ? orig[1].bad : "ok");
  if (!ok) return;
  names_ctx n;
  for (const pass& p : passes(s, n.ctx, false, true)) {
    for (int i = 0; i < 2; ++i) {
      if (orig[i].bad) continue;
      en::eval();
      en::nontrivial(std::hash<std::string>()(name) * 31 + std::hash<std::string>()(p.name) + i);
      mem_run got = run_mem(p.out, i, false);
      std::string e;
      if (got.bad) e = std::string("it uses ") + got.bad;
      else if (got.failed != orig[i].failed) e = "a different result";
      // It may compute more.
      else for (size_t k = 0; k < got.out.size(); ++k) if (orig[i].out[k] && got.out[k] != orig[i].out[k]) e = "a different output";
      if (!e.empty()) { en::fail(name + fmt(" (%s)", p.name), fmt("%s of ", p.name) + name + (i ? " x=1: " : ": ") + e + "\n" + show(s, n.ctx) + "\nbecomes\n" + show(p.out, n.ctx)); break; }
    }
  }
  if (en::want_sample()) en::sample(name);
}

enum { L = T, M = P };
const expr LV = variable::make(var(L)), MV = variable::make(var(M));
// Views of buffer b, in a loop over L with step s.
const char* view_names[] = {"all", "@t", "@t..t+1", "@t..step", "@clamped", "@b t", "@x t", "@t-1..t", "slice t", "@c", "0 @t", "1 @t", "0", "1", "@u @t", "@u", "@u slice t", "@c+"};
stmt view(int k, int b, const expr& step, stmt body) {
  var s(b);
  switch (k) {
  case 0: return body;
  case 1: return crop_dim::make(s, s, 1, {LV, LV}, body);
  case 2: return crop_dim::make(s, s, 1, {LV, LV + 1}, body);
  case 3: return crop_dim::make(s, s, 1, {LV, LV + step - 1}, body);
  case 4: return crop_dim::make(s, s, 1, {LV, min(LV + 1, variable::make(var(C), buffer_field::max, 1))}, body);
  case 5: return crop_buffer::make(s, s, {interval_expr(), {LV, LV}}, body);
  case 6: return crop_dim::make(s, s, 0, {expr(0), V(X)}, crop_dim::make(s, s, 1, {LV, LV}, body));
  case 7: return crop_dim::make(s, s, 1, {LV - 1, LV}, body);
  case 8: return slice_dim::make(s, s, 1, LV, body);
  case 9: case 17: return crop_dim::make(s, s, 1, {variable::make(var(C), buffer_field::min, 1), variable::make(var(C), buffer_field::max, 1) + (k == 17)}, body);
  case 10: case 11: return crop_dim::make(s, s, 0, {expr(k - 10), expr(k - 10)}, crop_dim::make(s, s, 1, {LV, LV}, body));
  case 12: case 13: return crop_dim::make(s, s, 0, {expr(k - 12), expr(k - 12)}, body);
  case 14: return crop_dim::make(s, s, 1, {LV, LV}, crop_dim::make(s, s, 0, {MV, MV}, body));
  case 15: return crop_dim::make(s, s, 0, {MV, MV}, body);
  default: return crop_dim::make(s, s, 0, {MV, MV}, slice_dim::make(s, s, 1, LV, body));
  }
}

struct item { int in, out, iv, ov, scalar; bool stencil; };
std::string item_name(const item& i, int n) {
  return fmt("%s%d %s->%s %s,%s%s", i.stencil ? "s" : "f", n, names()[i.in], names()[i.out], view_names[i.iv], view_names[i.ov], i.scalar == 1 ? " (t)" : i.scalar == 2 ? " (min)" : "");
}
stmt make_item(const item& i, int n, const expr& step) {
  std::vector<expr> sc;
  if (i.scalar == 1) sc.push_back(LV);
  if (i.scalar == 2) sc.push_back(variable::make(var(i.out), buffer_field::min, 1));
  call_stmt::attributes a;
  a.name = fmt("%s%d", i.stencil ? "s" : "f", n);
  stmt s = call_stmt::make(leaf_target, {var(i.in)}, {var(i.out)}, sc, a);
  return view(i.ov, i.out, step, view(i.iv, i.in, step, s));
}

// Where d is allocated and the loop is.
struct outer { const char* name; int step; int fold; int lo; bool inside; int workers; int inner = 0; };
const outer outers[] = {
  {"loop", 1, 0, 0, false, 1}, {"loop fold2", 1, 2, 0, false, 1}, {"loop fold3", 1, 3, -1, false, 1}, {"loop step2", 2, 0, 0, false, 1},
  {"loop step2 fold4", 2, 4, 0, false, 1}, {"loop alloc inside", 1, 0, 0, true, 1}, {"loop parallel", 1, 0, 0, false, 2}, {"loop lo", 1, 0, -1, false, 1},
  {"loop alloc inside fold2", 1, 2, 0, true, 1}, {"loop step2 lo", 2, 0, -1, false, 1},
  {"loops", 1, 0, 0, false, 1, 1}, {"loops fold2", 1, 2, 0, false, 1, 1}, {"loops alloc inside", 1, 0, 0, true, 1, 1}, {"loops alloc between", 1, 0, 0, true, 1, 2}, {"loops parallel", 1, 0, 0, false, 2, 1},
};
const char* bound_names[] = {"0..x", "c", "0..4"};
stmt make_program(const outer& o, int bounds, const std::vector<item>& items, const std::vector<item>& after) {
  expr step = expr(o.step);
  std::vector<stmt> b;
  int n = 0;
  for (auto& i : items) b.push_back(make_item(i, n++, step));
  stmt body = block::make(b);
  auto cm = [](buffer_field f) { return variable::make(var(C), f, 1); };
  interval_expr range = bounds == 0 ? interval_expr{expr(o.lo), V(X)} : bounds == 1 ? interval_expr{cm(buffer_field::min) + o.lo, cm(buffer_field::max)} : interval_expr{expr(o.lo), expr(4)};
  expr fold = o.fold ? expr(o.fold) : expr();
  bool has_e = false;
  for (auto& i : items) has_e = has_e || i.out == E;
  // The inner loop.
  auto inner = [&]() { body = loop::make(var(M), loop::serial, {expr(0), variable::make(var(C), buffer_field::max, 0)}, expr(1), body); };
  if (o.inner == 1) inner();
  if (o.inside) body = allocate::make(var(D), memory_type::heap, 1, {{interval_expr{expr(-1), V(Y) + 2}, expr(), expr()}, {interval_expr{LV - 1, LV + 1}, expr(), fold}}, body);
  if (o.inner == 2) inner();
  stmt l = loop::make(var(L), o.workers == 1 ? expr(loop::serial) : expr(loop::parallel), range, step, body);
  std::vector<stmt> all{l};
  for (auto& i : after) all.push_back(make_item(i, n++, step));
  stmt r = block::make(all);
  if (!o.inside) r = allocate::make(var(D), memory_type::heap, 1, {{interval_expr{expr(-1), V(Y) + 2}, expr(), expr()}, {interval_expr{expr(-2), expr(7)}, expr(), fold}}, r);
  if (has_e) r = allocate::make(var(E), memory_type::heap, 1, {{interval_expr{expr(-1), V(Y) + 1}, expr(), expr()}, {interval_expr{expr(-2), expr(6)}, expr(), fold}}, r);
  return r;
}

en::family loops(const char* name, std::vector<outer> os, std::vector<std::vector<item>> slots, bool after) {
  uint64_t n = os.size() * 3 * slots[0].size();
  return {name, n,
      [=](uint64_t u) {
        const outer& o = os[u % os.size()]; u /= os.size();
        int b = u % 3; u /= 3;
        std::vector<item> its{slots[0][u]};
        std::function<void(size_t)> rec = [&](size_t k) {
          if (k == slots.size()) {
            std::vector<item> a;
            std::vector<item> in = its;
            if (after) { a.push_back(in.back()); in.pop_back(); }
            std::string nm = std::string(o.name) + " " + bound_names[b] + " {";
            for (size_t i = 0; i < its.size(); ++i) nm += (after && i + 1 == its.size() ? " } " : " ") + item_name(its[i], i) + ";";
            check_mem(make_program(o, b, in, a), nm);
            return;
          }
          for (auto& i : slots[k]) { its.push_back(i); rec(k + 1); its.pop_back(); }
        };
        rec(1);
      },
      [=](uint64_t u) { const outer& o = os[u % os.size()]; u /= os.size(); int b = u % 3; u /= 3; return std::string(o.name) + " " + bound_names[b] + " { " + item_name(slots[0][u], 0) + " ..."; }};
}

std::vector<item> items(int in, int out, std::vector<int> iv, std::vector<int> ov, std::vector<int> sc, bool both = true) {
  std::vector<item> r;
  for (int st = 0; st < (both ? 2 : 1); ++st) for (int i : iv) for (int o : ov) for (int s : sc) {
    if ((o == 8) != (i == 8) && o == 8) continue;
    r.push_back({in, out, i, o, s, st != 0});
  }
  return r;
}

std::vector<en::family> make() {
  const bool t = en::thorough();
  T_ = templates(false);
  W();
  for (size_t i = 0; i < T_.size(); ++i) if (!has_loop(T_[i]) && T_[i].name != "check and" && T_[i].name != "check or") for (int c = T_[i].cls; c < 3; ++c) by_class[c].push_back(i);
  auto &c0 = by_class[0], &c1 = by_class[1], &c2 = by_class[2];
  std::vector<en::family> f;
  f.push_back(chains("one declaration", {{}, c2}));
  f.back().n = 1;
  f.back().run = [=](uint64_t) { for (int i : c2) run_chain({&T_[i]}); };
  f.back().describe = [](uint64_t) { return std::string("one declaration"); };
  f.push_back(chains("two declarations", {c2, t ? c2 : c1}));
  f.push_back(chains("three declarations", t ? std::vector<std::vector<int>>{c0, c1, c1} : std::vector<std::vector<int>>{c0, c0, c0}));
  std::vector<outer> os(outers, outers + 10), nest(outers + 10, outers + sizeof(outers) / sizeof(outers[0])), few(outers, outers + 3);
  std::vector<int> iv{0, 1, 2, 3, 7, 8, 9, 5}, ov{0, 1, 2, 3, 4, 5, 6, 7, 8}, sc{0, 1};
  f.push_back(loops("a call in a loop", os, {items(B, C, iv, ov, sc)}, false));
  f.push_back(loops("two calls in a loop", os, {items(B, D, {0, 2, 8}, ov, sc), items(D, C, iv, ov, sc)}, false));
  f.push_back(loops("a call in and after a loop", os, {items(B, D, iv, ov, sc), items(D, C, {0, 9}, {0}, {0})}, true));
  f.push_back(loops("three calls in a loop", os, {items(B, D, {0}, {0, 1, 2, 4, 7, 8}, t ? sc : std::vector<int>{0}, t), items(D, E, {0, 1, 2, 8}, {0, 1, 2, 4, 8}, {0}), items(E, C, {0, 1, 2, 9, 17, 8}, {0, 1, 4, 8}, sc)}, false));
  f.push_back(loops("two consumers in a loop", os, {items(B, D, {0, 8}, ov, sc), items(D, C, {0, 1, 2, 9, 17}, {10, 12}, {0}), items(D, C, {0, 1, 2, 9, 17}, {11, 13}, {0})}, false));
  f.push_back(loops("two loops", nest, {items(B, D, {0, 8}, {0, 1, 2, 4, 14, 15, 16, 8}, {0}), items(D, C, {0, 1, 2, 14, 15, 16, 8, 9}, {0, 1, 4, 14, 15, 16, 8, 2}, sc)}, false));
  f.push_back(siblings("declarations in a row", t ? c1 : c0, t ? c1 : c0));
  return f;
}

}  // namespace

int main(int argc, char** argv) {
  return en::main_driver(argc, argv, en::families("C10", "the program runs calls in the body of a declaration", make));
}
