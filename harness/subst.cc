// C11: substitution and free variables, judged by what programs do.
#include "exprlib.h"
#include "stmtgen.h"

#include "slinky/builder/substitute.h"
#include "slinky/runtime/depends_on.h"

using namespace sl;
using namespace slinky;
using en::fmt;

namespace {

struct ref_event { std::string name; std::vector<rbuf> b; std::vector<index_t> s; };
bool same(const rbuf& a, const rbuf& b) {
  rbuf x = a, y = b;
  x.trim(); y.trim();
  if (x.es != y.es || x.rank != y.rank || x.base.region != y.base.region || (x.base.region >= 0 && x.base.off != y.base.off)) return false;
  for (int d = 0; d < x.rank; ++d) if (!(x.d[d] == y.d[d])) return false;
  return true;
}

struct ref_run {
  std::vector<ref_event> ev;
  index_t result = 0;
  bool unsupported = false;
  uint8_t uses[NV] = {};
  int used_bufs = 0;
};

constexpr int NAMES = NN + 1;
const char* const all_names[] = {"x", "y", "t", "p", "b", "c", "d", "e"};

env base_env(int variant) {
  world& w = W();
  env v;
  const int ints[] = {X, Y, T, P};
  for (int i = 0; i < 4; ++i) { v.v[ints[i]].k = INT; v.v[ints[i]].i = variant ? (int[]){0, 1, 3, 2}[i] : (int[]){2, -1, 5, 1}[i]; }
  v.v[B].k = v.v[C].k = v.v[D].k = v.v[E].k = BUF;
  v.v[B].b = sl::describe(w.b, 0);
  v.v[C].b = sl::describe(w.c, 1);
  v.v[D].b = sl::describe(w.k1, 2);
  v.v[E].b = sl::describe(w.k2, 3);
  for (int i = 0; i < NN; ++i) { v.v[i].origin = i; v.v[i].b.origin = i; }
  return v;
}

ref_run run(const stmt& s, const env& v) {
  world& w = W();
  ref_run o;
  reference r;
  for (int i = 0; i < 4; ++i) { region g; g.caller = true; r.regions.push_back(g); }
  r.constants.push_back({w.K1.get(), sl::describe(w.k1, 2)});
  r.constants.push_back({w.K2.get(), sl::describe(w.k2, 3)});
  r.on_call = [&](const call_stmt* op, const env& v) -> index_t {
    ref_event e;
    e.name = op->attrs.name;
    for (auto i : buffers(op)) { if (i.id >= NV || v.v[i.id].k != BUF) { r.unsupported = true; return 0; } e.b.push_back(v.v[i.id].b); }
    for (auto i : op->inputs) r.used(v.v[i.id].b, U_IN | U_VAR | U_DIMS);
    for (auto i : op->outputs) r.used(v.v[i.id].b, U_OUT | U_VAR | U_DIMS | U_BOUNDS);
    for (auto& i : op->scalars) e.s.push_back(r.I(i, v));
    o.ev.push_back(std::move(e));
    return 0;
  };
  r.on_copy = [&](const copy_stmt*, const rbuf& a, const rbuf& b, const rbuf* p, const std::vector<index_t>& at) -> index_t {
    ref_event e;
    e.name = p ? "pad" : "copy";
    e.b.push_back(a); e.b.push_back(b); if (p) e.b.push_back(*p);
    e.s = at;
    o.ev.push_back(std::move(e));
    return 0;
  };
  o.result = r.run(s, v);
  o.unsupported = r.unsupported;
  memcpy(o.uses, r.uses, sizeof(o.uses));
  return o;
}

std::string diff(const ref_run& a, const ref_run& b) {
  for (size_t i = 0; i < a.ev.size() && i < b.ev.size(); ++i) {
    if (a.ev[i].name != b.ev[i].name) return fmt("event %zu is %s, not %s", i, b.ev[i].name.c_str(), a.ev[i].name.c_str());
    if (a.ev[i].s != b.ev[i].s) {
      std::string x, y;
      for (auto k : a.ev[i].s) x += fmt(" %lld", (long long)k);
      for (auto k : b.ev[i].s) y += fmt(" %lld", (long long)k);
      return fmt("event %zu (%s): values are%s, not%s", i, a.ev[i].name.c_str(), y.c_str(), x.c_str());
    }
    for (size_t k = 0; k < a.ev[i].b.size(); ++k)
      if (k >= b.ev[i].b.size() || !same(a.ev[i].b[k], b.ev[i].b[k])) return fmt("event %zu (%s): buffer %zu is %s, not %s", i, a.ev[i].name.c_str(), k, k < b.ev[i].b.size() ? sl::show(b.ev[i].b[k]).c_str() : "?", sl::show(a.ev[i].b[k]).c_str());
  }
  if (a.ev.size() != b.ev.size()) return fmt("%zu events, not %zu", b.ev.size(), a.ev.size());
  if ((a.result != 0) != (b.result != 0)) return "a different result";
  return "";
}

// Every name that is declared anywhere in a program.
}  // namespace
namespace slinky { namespace {
class decl_finder : public recursive_node_visitor {
public:
  uint32_t d = 0;
  void add(var v) { if (v.defined() && v.id < 32) d |= 1u << v.id; }
  template <typename T> void one(const T* op) { add(op->sym); recursive_node_visitor::visit(op); }
  void visit(const let* op) override { for (auto& i : op->lets) add(i.first); recursive_node_visitor::visit(op); }
  void visit(const let_stmt* op) override { for (auto& i : op->lets) add(i.first); recursive_node_visitor::visit(op); }
  void visit(const loop* op) override { one(op); }
  void visit(const allocate* op) override { one(op); }
  void visit(const make_buffer* op) override { one(op); }
  void visit(const constant_buffer* op) override { one(op); }
  void visit(const clone_buffer* op) override { one(op); }
  void visit(const crop_buffer* op) override { one(op); }
  void visit(const crop_dim* op) override { one(op); }
  void visit(const slice_buffer* op) override { one(op); }
  void visit(const slice_dim* op) override { one(op); }
  void visit(const transpose* op) override { one(op); }
  void visit(const async* op) override { one(op); }
  void visit(const copy_stmt* op) override { for (auto& i : op->dst_x) add(i); recursive_node_visitor::visit(op); }
  using recursive_node_visitor::visit;
};
}}
namespace {

struct repl { const char* name; expr e; std::vector<int> vars; };
struct sub { int target; repl r; };
std::vector<sub>& subs() {
  static std::vector<sub> s;
  if (!s.empty()) return s;
  for (int t : {X, Y, T, P}) {
    s.push_back({t, {"3", K(3), {}}});
    s.push_back({t, {"y", V(Y), {Y}}});
    s.push_back({t, {"x+1", plus(V(X), K(1)), {X}}});
    s.push_back({t, {"p", V(P), {P}}});
    s.push_back({t, {"b.min", fmin(B, 1), {B}}});
    s.push_back({t, {"c.max+t", plus(fmax(C, 0), V(T)), {C, T}}});
    s.push_back({t, {"let", let::make({{var(X), plus(V(Y), K(1))}, {var(Y), V(X)}}, plus(V(X), V(Y))), {Y}}});
  }
  for (int t : {B, C, D})
    for (int r : {B, C, D, E}) if (t != r) s.push_back({t, {all_names[r], V(r), {r}}});
  return s;
}

std::vector<tmpl> T_;
std::vector<int> by_class[3];

int kinds(const depends_on_result& d) {
  return (d.var ? U_VAR : 0) | (d.buffer_input ? U_IN : 0) | (d.buffer_output ? U_OUT : 0) | (d.buffer_src ? U_SRC : 0) | (d.buffer_dst ? U_DST : 0) | (d.buffer_base ? U_BASE : 0) | (d.buffer_dims ? U_DIMS : 0) | (d.buffer_bounds ? U_BOUNDS : 0);
}
std::string kind_names(int k) {
  static const char* n[] = {"var", "input", "output", "src", "dst", "base", "dims", "bounds"};
  std::string s;
  for (int i = 0; i < 8; ++i) if (k >> i & 1) s += std::string(s.empty() ? "" : " ") + n[i];
  return s;
}

void check(const stmt& s, const std::string& name) {
  en::tag(name.c_str());
  decl_finder f;
  s.accept(&f);
  std::string shown;
  auto prog = [&]() -> const std::string& { if (shown.empty()) shown = sl::show(s, names(), NN); return shown; };
  for (int variant = 0; variant < 2; ++variant) {
    env v0 = base_env(variant);
    ref_run orig = run(s, v0);
    if (orig.unsupported) continue;
    if (orig.ev.size() > 2) en::nontrivial(std::hash<std::string>()(name) + variant);
    // What the program uses is reported.
    {
      auto all = find_dependencies(s);
      auto ins = find_buffer_dependencies(s, true, false, false, false), outs = find_buffer_dependencies(s, false, false, true, false), any = find_buffer_dependencies(s);
      for (int i = 0; i < NN; ++i) {
        int u = orig.uses[i];
        depends_on_result d = depends_on(s, var(i));
        en::eval();
        if (u & ~kinds(d)) en::fail(name + ": " + all_names[i], name + fmt(": depends_on(%s) is {%s}, but it is used as {%s}\n", all_names[i], kind_names(kinds(d)).c_str(), kind_names(u).c_str()) + prog());
        auto has = [&](const std::vector<var>& l) { for (var x : l) if (x == var(i)) return true; return false; };
        if (u && !has(all)) en::fail(name + ": find " + all_names[i], name + fmt(": find_dependencies does not find %s\n", all_names[i]) + prog());
        if (((u & U_IN) && !has(ins)) || ((u & U_OUT) && !has(outs)) || ((u & (U_IN | U_OUT | U_SRC | U_DST)) && !has(any))) en::fail(name + ": find buffer " + all_names[i], name + fmt(": find_buffer_dependencies does not find %s, which is used as {%s}\n", all_names[i], kind_names(u).c_str()) + prog());
        // Together with others.
        const var both[] = {var((i + 1) % NN), var(i)};
        depends_on_result d2 = depends_on(s, span<const var>(both, 2));
        if (u & ~kinds(d2)) en::fail(name + ": both " + all_names[i], name + fmt(": depends_on(%s, %s) is {%s}, but one is used as {%s}\n", all_names[(i + 1) % NN], all_names[i], kind_names(kinds(d2)).c_str(), kind_names(u).c_str()) + prog());
        // A variable that is not reported does not matter.
        if (!d.any()) {
          env v = v0;
          v.v[i] = val();
          ref_run r = run(s, v);
          std::string e = r.unsupported ? "it is needed" : diff(orig, r);
          if (!e.empty()) en::fail(name + ": not " + all_names[i], name + fmt(": %s is not reported as a dependency, but ", all_names[i]) + e + "\n" + prog());
        }
      }
    }
    for (const sub& t : subs()) {
      if (is_variable(t.r.e, var(t.target))) continue;
      // A declaration may capture what the replacement uses.
      bool capture = false, self = false;
      for (int i : t.r.vars) { capture = capture || (f.d >> i & 1); self = self || i == t.target; }
      if (self && capture) continue;
      reference r0;
      val value = r0.eval(t.r.e, v0);
      if (r0.unsupported) continue;
      env v1 = v0;
      v1.v[t.target] = value;
      v1.v[t.target].origin = t.target;
      ref_run want = run(s, v1);
      if (want.unsupported) continue;
      std::string key = name + fmt(" [%s := %s]", all_names[t.target], t.r.name);
      en::tag(key.c_str());
      stmt q = substitute(s, var(t.target), t.r.e);
      en::eval();
      if (!self) {
        ref_run got = run(q, v1);
        std::string e = got.unsupported ? "it uses something that does not exist" : diff(want, got);
        if (!e.empty()) { en::fail(key, key + (variant ? " x=0: " : ": ") + e + "\n" + prog() + "\nbecomes\n" + sl::show(q, names(), NN)); continue; }
      }
      if (!capture) {
        env v2 = v0;
        if (!self) v2.v[t.target] = val();
        ref_run got = run(q, v2);
        std::string e = got.unsupported ? "some uses are not replaced" : diff(want, got);
        if (!e.empty()) en::fail(key, key + (variant ? " x=0: " : ": ") + e + "\n" + prog() + "\nbecomes\n" + sl::show(q, names(), NN));
      }
      if (en::want_sample()) en::sample(key);
    }
  }
}

scope start11() {
  scope s = start();
  s.k[T] = s.k[P] = INT;
  s.k[D] = BUF;
  return s;
}

void run_chain(const std::vector<const tmpl*>& ts) {
  program p = build(ts, start11());
  if (!p.s.defined()) return;
  std::string name;
  for (auto t : ts) name += (name.empty() ? "" : " { ") + t->name;
  check(p.s, name);
}

en::family chains(const char* name, std::vector<std::vector<int>> levels) {
  uint64_t n = 1;
  for (size_t i = 0; i + 1 < levels.size(); ++i) n *= levels[i].size();
  auto get = [=](uint64_t u) { std::vector<const tmpl*> r; for (size_t i = 0; i + 1 < levels.size(); ++i) { r.push_back(&T_[levels[i][u % levels[i].size()]]); u /= levels[i].size(); } return r; };
  return {name, n,
      [=](uint64_t u) {
        std::vector<const tmpl*> r = get(u);
        r.push_back(nullptr);
        for (int i : levels.back()) { r.back() = &T_[i]; run_chain(r); }
      },
      [=](uint64_t u) { std::string s; for (auto t : get(u)) s += t->name + " { "; return s; }};
}

// ---- Expressions.
expr leaf_expr(int i) {
  switch (i) {
  case 0: return V(X);
  case 1: return V(Y);
  case 2: return K(2);
  case 3: return fmin(B, 0);
  case 4: return fmax(C, 1);
  case 5: return fes(B);
  case 6: return fst(B, 1);
  default: return ffo(C, 0);
  }
}
constexpr int NLEAF = 8;
expr op_expr(int o, expr a, expr b) {
  switch (o) {
  case 0: return slinky::add::make(a, b);
  case 1: return slinky::mul::make(a, b);
  case 2: return slinky::min::make(a, b);
  case 3: return slinky::less::make(a, b);
  case 4: return call::make(intrinsic::and_then, {a, b});
  case 5: return slinky::select::make(a, b, V(X));
  case 6: return let::make({{var(X), a}}, b);
  case 7: return let::make({{var(Y), a}, {var(X), plus(V(X), V(Y))}}, b);
  case 8: return let::make({{var(X), V(Y)}, {var(T), a}, {var(X), V(X)}}, b);
  case 9: return slinky::logical_not::make(plus(a, b));
  default: return call::make(intrinsic::abs, {minus(a, b)});
  }
}
constexpr int NOP = 11;

struct bsub { const char* n; int target; std::vector<dim_expr> dims; expr es; int def; };
std::vector<bsub>& bsubs() {
  static std::vector<bsub> s;
  if (!s.empty()) return s;
  dim_expr d0{I2(plus(V(X), K(1)), plus(V(X), K(4))), K(7), K(3)}, d1{I2(K(1), V(Y)), expr(), expr()}, m{I2(V(Y), expr()), expr(), expr()}, n{interval_expr(), expr(), K(5)};
  s.push_back({"all", B, {d0, d0}, K(9), -1});
  s.push_back({"bounds, def b", B, {d1, d1}, expr(), B});
  s.push_back({"mins, def c", B, {m, n}, expr(), C});
  s.push_back({"one, def b", B, {d0}, V(Y), B});
  s.push_back({"c from b", C, {{I2(fmin(B, 1), fmax(B, 0)), fst(B, 0), ffo(B, 0)}, d0}, fes(B), -1});
  s.push_back({"c, def b", C, {n, m, d0}, expr(), B});
  s.push_back({"c, def c", C, {d1, n}, V(X), C});
  return s;
}

std::string show(const expr& e) { node_context ctx; for (int i = 0; i < NN; ++i) ctx.insert(names()[i]); std::ostringstream o; o << std::tie(e, ctx); return o.str(); }

void check_expr(const expr& e) {
  for (int variant = 0; variant < 2; ++variant) {
    env v0 = base_env(variant);
    reference r;
    val x = r.eval(e, v0);
    if (r.unsupported || x.k != INT) continue;
    en::eval();
    auto all = find_dependencies(e);
    for (int i = 0; i < NN; ++i) {
      depends_on_result d = depends_on(e, var(i));
      int u = r.uses[i];
      bool found = false;
      for (var q : all) found = found || q == var(i);
      if (u & ~kinds(d)) en::fail(show(e), show(e) + fmt(": depends_on(%s) is {%s}, but it is used as {%s}", all_names[i], kind_names(kinds(d)).c_str(), kind_names(u).c_str()));
      if (u && !found) en::fail(show(e), show(e) + fmt(": find_dependencies does not find %s", all_names[i]));
    }
    decl_finder f;
    e.accept(&f);
    for (const sub& t : subs()) {
      if (is_variable(t.r.e, var(t.target))) continue;
      if (t.target >= B && t.r.e.as<variable>()->field != buffer_field::none) continue;
      bool capture = false, self = false;
      for (int i : t.r.vars) { capture = capture || (f.d >> i & 1); self = self || i == t.target; }
      if (self && capture) continue;
      reference r0;
      env v1 = v0;
      v1.v[t.target] = r0.eval(t.r.e, v0);
      if (r0.unsupported) continue;
      reference r1;
      val want = r1.eval(e, v1);
      if (r1.unsupported || want.k != INT) continue;
      std::string key = show(e) + fmt(" [%s := %s]", all_names[t.target], t.r.name);
      en::tag(key.c_str());
      expr q = substitute(e, var(t.target), t.r.e);
      en::eval();
      if (!self) {
        reference r2;
        val got = r2.eval(q, v1);
        if (r2.unsupported || got.k != INT || got.i != want.i) { en::fail(key, key + fmt(" is %lld, not %lld: ", (long long)got.i, (long long)want.i) + show(q)); continue; }
      }
      if (!capture) {
        reference r2;
        env v2 = v0;
        if (!self) v2.v[t.target] = val();
        val got = r2.eval(q, v2);
        if (r2.unsupported || got.k != INT || got.i != want.i) en::fail(key, key + fmt(" is %lld, not %lld: ", (long long)got.i, (long long)want.i) + show(q) + (r2.unsupported ? " (not everything is replaced)" : ""));
      }
    }
    // Buffer metadata.
    for (const bsub& b : bsubs()) {
      if ((f.d >> b.target & 1)) continue;
      bool capture = false;
      for (auto& d : b.dims) for (expr q : {d.bounds.min, d.bounds.max, d.stride, d.fold_factor}) if (q.defined()) for (var w : find_dependencies(q)) capture = capture || (f.d >> w.id & 1);
      if (b.es.defined()) for (var w : find_dependencies(b.es)) capture = capture || (f.d >> w.id & 1);
      if (capture) continue;   // This substitution does not say that it avoids capture.
      reference r0;
      env v1 = v0;
      rbuf n;
      n.origin = b.target;
      if (b.def >= 0) { n = v0.v[b.def].b; n.origin = b.target; } else { n.es = v0.v[b.target].b.es; n.rank = b.dims.size(); }
      if (n.rank < (int)b.dims.size()) { for (int d = n.rank; d < (int)b.dims.size(); ++d) n.d[d] = n.dim(d); n.rank = b.dims.size(); }
      bool undefined = b.def < 0 && !b.es.defined();
      for (size_t d = 0; d < b.dims.size(); ++d) {
        if (b.dims[d].bounds.min.defined()) n.d[d].min = r0.I(b.dims[d].bounds.min, v0);
        if (b.dims[d].bounds.max.defined()) n.d[d].max = r0.I(b.dims[d].bounds.max, v0);
        if (b.dims[d].stride.defined()) n.d[d].stride = r0.I(b.dims[d].stride, v0);
        if (b.dims[d].fold_factor.defined()) n.d[d].fold = r0.I(b.dims[d].fold_factor, v0);
      }
      if (b.es.defined()) n.es = r0.I(b.es, v0);
      v1.v[b.target].b = n;
      reference r1;
      val want = r1.eval(e, v1);
      if (r0.unsupported || r1.unsupported || want.k != INT || undefined) continue;
      std::string key = show(e) + fmt(" [%s: %s]", all_names[b.target], b.n);
      en::tag(key.c_str());
      expr q = substitute_buffer(e, var(b.target), b.es, b.dims, b.def >= 0 ? var(b.def) : var());
      en::eval();
      reference r2;
      env v2 = v0;
      if (b.def != b.target) v2.v[b.target] = val();
      val got = r2.eval(q, v2);
      if (r2.unsupported || got.k != INT || got.i != want.i) en::fail(key, key + fmt(" is %lld, not %lld: ", (long long)got.i, (long long)want.i) + show(q));
    }
    // Replacing an expression by another of the same value does not change the value.
    if (!f.d) {
      for (int t = 0; t < NLEAF; ++t) {
        for (int o = -1; o < 3; ++o) {
          expr target = o < 0 ? leaf_expr(t) : op_expr(o, leaf_expr(t), leaf_expr((t + o) % NLEAF));
          reference r1; val tv = r1.eval(target, v0);
          expr q = substitute(e, target, K(tv.i));
          reference r2; val got = r2.eval(q, v0);
          en::eval();
          if (r2.unsupported || got.i != x.i) { std::string key = show(e) + " [" + show(target) + fmt(" := %lld]", (long long)tv.i); en::fail(key, key + fmt(" is %lld, not %lld: ", (long long)got.i, (long long)x.i) + show(q)); }
          // And replaces every occurrence.
          expr z = substitute(e, target, V(T));
          env v3 = v0;
          v3.v[T].i = tv.i;
          reference r3; val got3 = r3.eval(z, v3);
          if (r3.unsupported || got3.i != x.i) { std::string key = show(e) + " [" + show(target) + " := t]"; en::fail(key, key + fmt(" is %lld, not %lld: ", (long long)got3.i, (long long)x.i) + show(z)); }
          if (o < 0 && t != 2 && r3.uses[T] == 0 && !match(e, z)) {}
          reference r4;
          r4.eval(z, v3);
          if (o < 0 && t == 0 && (r4.uses[X] & U_VAR)) { std::string key = show(e) + " [x := t]"; en::fail(key, key + " still uses x: " + show(z)); }
        }
      }
    }
  }
  en::nontrivial(std::hash<std::string>()(show(e)));
}

en::family exprs() {
  return {"expressions", (uint64_t)NOP * NLEAF,
      [=](uint64_t u) {
        int o = u % NOP, a = u / NOP;
        for (int b = 0; b < NLEAF; ++b) {
          expr x = op_expr(o, leaf_expr(a), leaf_expr(b));
          check_expr(x);
          for (int p = 0; p < NOP; ++p)
            for (int c = 0; c < NLEAF; ++c) {
              check_expr(op_expr(p, x, leaf_expr(c)));
              check_expr(op_expr(p, leaf_expr(c), x));
            }
        }
      },
      [=](uint64_t u) { return show(op_expr(u % NOP, leaf_expr(u / NOP), V(T))); }};
}

std::vector<en::family> make() {
  const bool t = en::thorough();
  T_ = templates(true);
  W();
  for (size_t i = 0; i < T_.size(); ++i) for (int c = T_[i].cls; c < 3; ++c) by_class[c].push_back(i);
  auto &c0 = by_class[0], &c1 = by_class[1], &c2 = by_class[2];
  std::vector<en::family> f;
  f.push_back(exprs());
  f.push_back(chains("one declaration", {{}, c2}));
  f.back().n = 1;
  f.back().run = [=](uint64_t) { for (int i : c2) run_chain({&T_[i]}); };
  f.back().describe = [](uint64_t) { return std::string("one declaration"); };
  f.push_back(chains("two declarations", {c2, t ? c2 : c1}));
  f.push_back(chains("three declarations", t ? std::vector<std::vector<int>>{c0, c1, c1} : std::vector<std::vector<int>>{c0, c0, c0}));
  return f;
}

}  // namespace

int main(int argc, char** argv) {
  return en::main_driver(argc, argv, en::families("C11", "the program runs calls in the body of a declaration", make));
}
