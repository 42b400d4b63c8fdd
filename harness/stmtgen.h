// Statement programs: nests of declarations with colliding names, with calls that observe everything in scope before,
// inside and after each declaration.
#ifndef VERIF_HARNESS_STMTGEN_H
#define VERIF_HARNESS_STMTGEN_H

#include "stmtlib.h"

#include "slinky/base/thread_pool_impl.h"

namespace sl {

enum { X, Y, T, P, B, C, D, E };
inline const char* const* names() { static const char* n[] = {"x", "y", "t", "p", "b", "c", "d", "e"}; return n; }
constexpr int NN = 8;
inline expr V(int i) { return variable::make(var(i)); }
inline expr K(index_t i) { return constant::make(i); }
inline expr fmin(int b, int d) { return variable::make(var(b), buffer_field::min, d); }
inline expr fmax(int b, int d) { return variable::make(var(b), buffer_field::max, d); }
inline expr fst(int b, int d) { return variable::make(var(b), buffer_field::stride, d); }
inline expr ffo(int b, int d) { return variable::make(var(b), buffer_field::fold_factor, d); }
inline expr fes(int b) { return variable::make(var(b), buffer_field::elem_size, -1); }
// Without simplifications.
inline expr plus(expr a, expr b) { return slinky::add::make(std::move(a), std::move(b)); }
inline expr minus(expr a, expr b) { return slinky::sub::make(std::move(a), std::move(b)); }
inline interval_expr I2(expr a, expr b) { return interval_expr(std::move(a), std::move(b)); }

struct scope { kind k[NN]; bool par = false, async_ = false; int next = 0; };

using hole = std::function<stmt(const scope&)>;
struct tmpl {
  std::string name;
  // Undefined if the template makes no sense in this scope.
  std::function<stmt(const scope&, const hole&)> make;
  int cls;   // 0: core
};

// The run of a program: what each call saw.
struct snap { const char* base; index_t es; int rank; rdim d[MAXR]; };
struct event { std::string name; std::vector<snap> b; std::vector<index_t> s; };

struct real_run {
  std::vector<event> ev;
  int fail_at = -1;
  struct alloc { char* p; size_t size; int from, to; int sym; };
  std::vector<alloc> allocs;
  bool bad_free = false;
  int check_failed = 0, call_failed = 0;
};
inline real_run*& cur() { static real_run* r; return r; }

inline std::vector<var> buffers(const call_stmt* op) { std::vector<var> r = op->inputs; r.insert(r.end(), op->outputs.begin(), op->outputs.end()); return r; }

inline index_t leaf_target(const call_stmt* op, eval_context& ctx) {
  real_run& r = *cur();
  event e;
  e.name = op->attrs.name;
  for (var v : buffers(op)) {
    const raw_buffer* b = ctx.lookup_buffer(v);
    snap s;
    s.base = (const char*)b->base;
    s.es = b->elem_size;
    s.rank = std::min<size_t>(b->rank, MAXR);
    for (int i = 0; i < s.rank; ++i) { s.d[i].min = b->dims[i].min(); s.d[i].max = b->dims[i].max(); s.d[i].stride = b->dims[i].stride(); s.d[i].fold = b->dims[i].fold_factor(); }
    while (s.rank > 0 && s.d[s.rank - 1].broadcast()) --s.rank;
    e.b.push_back(s);
  }
  for (auto& i : op->scalars) e.s.push_back(evaluate(i, ctx));
  r.ev.push_back(std::move(e));
  return (int)r.ev.size() - 1 == r.fail_at ? 7 : 0;
}

inline stmt leaf(const scope& s, int id) {
  call_stmt::symbol_list in, out;
  std::vector<expr> sc;
  for (int i = 0; i < NN; ++i) {
    if (s.k[i] == BUF) (i == C ? out : in).push_back(var(i));
    if (s.k[i] == INT) sc.push_back(V(i));
  }
  if (s.k[B] == BUF) { sc.push_back(fmin(B, 0)); sc.push_back(fmax(B, 2)); sc.push_back(ffo(B, 1)); sc.push_back(fes(B)); }
  call_stmt::attributes a;
  a.name = en::fmt("L%d", id);
  return call_stmt::make(leaf_target, std::move(in), std::move(out), std::move(sc), a);
}

struct world {
  buffer<char, 4> b, c, k1, k2;
  std::shared_ptr<raw_buffer> K1, K2;
  std::vector<char> mem[4];
};
inline world& W() {
  static world* w = nullptr;
  if (w) return *w;
  w = new world();
  auto dense = [](raw_buffer& b, std::vector<char>& m) { m.resize(256); b.base = m.data() + 64; };
  w->b = buffer<char, 4>(2);
  w->b.dims[0] = dim(0, 3, 1); w->b.dims[1] = dim(-1, 2, 4);
  dense(w->b, w->mem[0]);
  w->c = buffer<char, 4>(3);
  static_cast<raw_buffer&>(w->c).elem_size = 2;
  w->c.dims[0] = dim(1, 4, 8, 2); w->c.dims[1] = dim(0, 2, -2); w->c.dims[2] = dim(0, 1, 16, 2);
  dense(w->c, w->mem[1]);
  w->k1 = buffer<char, 4>(1); w->k1.dims[0] = dim(0, 3, 1); dense(w->k1, w->mem[2]);
  w->k2 = buffer<char, 4>(2); w->k2.dims[0] = dim(0, 2, 0); w->k2.dims[1] = dim(1, 2, 1); dense(w->k2, w->mem[3]);
  for (int i = 2; i < 4; ++i) for (size_t j = 0; j < w->mem[i].size(); ++j) w->mem[i][j] = i * 100 + j * 7;
  auto share = [](raw_buffer& b) { return std::shared_ptr<raw_buffer>(&b, [](raw_buffer*) {}); };
  w->K1 = share(w->k1);
  w->K2 = share(w->k2);
  return *w;
}
inline rbuf describe(const raw_buffer& b, int region) {
  rbuf r;
  r.base.region = region;
  r.es = b.elem_size;
  r.rank = b.rank;
  for (int i = 0; i < r.rank; ++i) { r.d[i].min = b.dims[i].min(); r.d[i].max = b.dims[i].max(); r.d[i].stride = b.dims[i].stride(); r.d[i].fold = b.dims[i].fold_factor(); }
  r.trim();
  return r;
}

inline scope start() {
  scope s;
  for (auto& k : s.k) k = NONE;
  s.k[X] = s.k[Y] = INT;
  s.k[B] = s.k[C] = BUF;
  return s;
}

inline std::vector<tmpl> templates(bool copies = false) {
  std::vector<tmpl> r;
  auto add = [&](std::string n, int cls, std::function<stmt(const scope&, const hole&)> f) { r.push_back({n, f, cls}); };
  auto in = [](const scope& s, int i, kind k) { return s.k[i] == k; };
  struct np { int sym, src; };
  const np pairs[] = {{B, B}, {C, B}, {B, C}, {D, B}};
  auto buf = [&](std::string n, int cls, int sym, int src, std::function<stmt(stmt)> f) {
    r.push_back({n + en::fmt(" %s=%s", names()[sym], names()[src]), [=](const scope& s, const hole& h) -> stmt {
      if (s.k[src] != BUF || s.k[B] != BUF || s.k[X] != INT || s.k[Y] != INT) return stmt();
      scope t = s;
      t.k[sym] = BUF;
      stmt body = h(t);
      return body.defined() ? f(body) : stmt();
    }, cls});
  };
  for (auto& p : pairs) {
    const int S = p.sym, R = p.src;
    const var sym(S), src(R);
    const int same = S == R ? 0 : 1;
    auto cd = [&](const char* n, int cls, int d, interval_expr i) { buf(en::fmt("crop%d %s", d, n), cls, S, R, [=](stmt b) { return crop_dim::make(sym, src, d, i, b); }); };
    cd("x..x+1", 0, 0, I2(V(X), plus(V(X), K(1))));
    cd("x..x+1", 1 + same, 1, I2(V(X), plus(V(X), K(1))));
    cd("1..", 1, 0, I2(K(1), expr()));
    cd("..2", 2, 1, I2(expr(), K(2)));
    cd("@y", same, 1, slinky::point(V(Y)));
    cd("inner", 0, 0, I2(plus(fmin(R, 0), K(1)), minus(fmax(R, 0), K(1))));
    cd("b", same, 1, I2(fmin(B, 1), fmax(B, 0)));
    cd("empty", 2, 0, I2(K(5), K(4)));
    cd("beyond", 2, 3, I2(K(1), K(4)));
    cd("all", 2, 0, I2(K(-9), K(9)));
    auto cb = [&](const char* n, int cls, std::vector<interval_expr> i) { buf(std::string("crop ") + n, cls, S, R, [=](stmt b) { return crop_buffer::make(sym, src, i, b); }); };
    cb("1..2,b", 0, {I2(K(1), K(2)), I2(fmin(B, 0), fmax(B, 0))});
    cb("b1,b0", 1, {I2(fmin(R, 1), fmax(R, 1)), I2(fmin(R, 0), minus(fmax(R, 0), K(1)))});
    cb("-,@2", 1 + same, {interval_expr(), slinky::point(K(2))});
    cb("", 2, {});
    cb("x..,-,0..0,1..2", 2, {I2(V(X), expr()), interval_expr(), I2(K(0), K(0)), I2(K(1), K(2))});
    auto sd = [&](const char* n, int cls, int d, expr a) { buf(en::fmt("slice%d %s", d, n), cls, S, R, [=](stmt b) { return slice_dim::make(sym, src, d, a, b); }); };
    sd("x", 0, 0, V(X));
    sd("b.min", 1, 1, fmin(B, 1));
    sd("9", 2, 0, K(9));
    sd("1", 2, 3, K(1));
    sd("2", 2, 2, K(2));
    auto sb = [&](const char* n, int cls, std::vector<expr> a) { buf(std::string("slice ") + n, cls, S, R, [=](stmt b) { return slice_buffer::make(sym, src, a, b); }); };
    sb("x", 2, {V(X)});
    sb("-,y", same, {expr(), V(Y)});
    sb("x,0", 2, {V(X), K(0)});
    sb("b,-,1,1", 2, {fmax(B, 0), expr(), K(1), K(1)});
    sb("", 2, {});
    auto tr = [&](const char* n, int cls, std::vector<int> d) { buf(std::string("transpose ") + n, cls, S, R, [=](stmt b) { return transpose::make(sym, src, d, b); }); };
    tr("0", 0, {0});
    tr("", 1, {});
    tr("1", 2, {1});
    tr("1,0", same, {1, 0});
    tr("0,1", 1, {0, 1});
    tr("0,1,2", 1 + same, {0, 1, 2});
    tr("0,0", 2, {0, 0});
    tr("0,1,2,3", 2, {0, 1, 2, 3});
    tr("new,0", 2, {transpose::new_dim, 0});
    tr("2,3", 2, {2, 3});
    buf("clone", same, S, R, [=](stmt b) { return clone_buffer::make(sym, src, b); });
    auto mk = [&](const char* n, int cls, expr base, expr es, std::vector<dim_expr> d) { buf(std::string("make ") + n, cls, S, R, [=](stmt b) { return make_buffer::make(sym, base, es, d, b); }); };
    expr at = buffer_at(V(R)), atx = buffer_at(V(R), plus(fmin(R, 0), K(1))), aty = buffer_at(V(R), expr(), V(Y)), atoob = buffer_at(V(R), K(77));
    mk("dim0", same, at, fes(R), {{I2(fmin(R, 0), plus(fmin(R, 0), K(0))), fst(R, 0), ffo(R, 0)}});
    mk("x", 1, atx, K(1), {{I2(K(0), K(1)), K(1), expr()}, {I2(fmin(B, 0), V(X)), K(2), K(2)}});
    mk("y", 2, aty, fes(R), {{I2(V(X), plus(V(X), K(2))), fst(B, 0), ffo(B, 0)}, {I2(K(0), K(0)), K(0), expr()}});
    mk("oob", 2, atoob, fes(R), {{I2(K(0), K(0)), K(0), expr()}, {I2(K(0), V(X)), K(1), expr()}});
    mk("inner", 2, at, fes(R), {{I2(K(0), K(0)), K(0), expr()}, {I2(K(0), V(X)), K(1), expr()}});
    mk("null", 2, expr(), expr(), {});
    mk("0", 2, at, expr(), {{I2(K(0), K(0)), K(0), expr()}});
    auto al = [&](const char* n, int cls, memory_type m, expr es, std::vector<dim_expr> d) { buf(std::string("alloc ") + n, cls, S, R, [=](stmt b) { return allocate::make(sym, m, es, d, b); }); };
    if (p.sym != C || p.src != B) {
      dim_expr dx{I2(K(0), V(X)), expr(), expr()}, db{I2(fmin(R, 0), fmax(R, 0)), expr(), expr()}, dn{I2(K(1), K(2)), K(-4), expr()}, dfo{I2(V(Y), plus(V(Y), K(4))), expr(), K(2)}, bc{I2(K(0), K(0)), K(0), expr()}, one{I2(K(0), K(0)), expr(), expr()}, em{I2(K(3), K(1)), expr(), expr()};
      al("heap x,b", 0, memory_type::heap, K(1), {dx, db});
      al("stack b,fold", 1, memory_type::stack, fes(R), {db, dfo});
      al("auto 0", 2, memory_type::automatic, K(4), {});
      al("heap neg,bc", 2, memory_type::heap, K(2), {dx, dn, bc, bc});
      al("stack neg", 2, memory_type::stack, K(1), {dx, dn});
      al("auto bc,one", 2, memory_type::automatic, K(1), {bc, one, dx, bc});
      al("heap empty", 2, memory_type::heap, K(1), {em, dx});
      al("auto big", 2, memory_type::automatic, K(1), {{I2(K(0), K(4999)), expr(), expr()}});
    }
  }
  for (int S : {B, C, D}) {
    buf("const1", S == B ? 0 : 1, S, B, [=](stmt b) { return constant_buffer::make(var(S), W().K1, b); });
    buf("const2", 2, S, B, [=](stmt b) { return constant_buffer::make(var(S), W().K2, b); });
  }
  auto lets = [&](const char* n, int cls, std::vector<std::pair<int, expr>> l, bool closure = false) {
    add(std::string("let ") + n, cls, [=](const scope& s, const hole& h) -> stmt {
      if (s.k[X] != INT || s.k[Y] != INT || s.k[B] != BUF) return stmt();
      scope t = s;
      if (closure) for (auto& k : t.k) k = NONE;
      std::vector<std::pair<var, expr>> v;
      for (auto& i : l) {
        if (const variable* o = i.second.as<variable>()) {
          if (o->field == buffer_field::none) { if (s.k[o->sym.id] == NONE) return stmt(); t.k[i.first] = s.k[o->sym.id]; }
          else t.k[i.first] = INT;
        } else if (as_intrinsic(i.second, intrinsic::buffer_at)) t.k[i.first] = PTR;
        else t.k[i.first] = INT;
        v.push_back({var(i.first), i.second});
      }
      stmt b = h(t);
      return b.defined() ? let_stmt::make(v, b, closure) : stmt();
    });
  };
  lets("x=y", 0, {{X, V(Y)}});
  lets("x=b.min,y=x+1", 0, {{X, fmin(B, 1)}, {Y, plus(V(X), K(1))}});
  lets("x=1,x=x+1", 1, {{X, K(1)}, {X, plus(V(X), K(1))}});
  lets("x=y,y=x", 2, {{X, V(Y)}, {Y, V(X)}});
  lets("x=y,y=x,x=y", 2, {{X, V(Y)}, {Y, plus(V(X), K(2))}, {X, V(Y)}});
  lets("x=let", 2, {{X, let::make({{var(X), V(Y)}, {var(Y), plus(V(X), K(2))}, {var(X), plus(V(Y), V(X))}}, plus(V(X), V(Y)))}});
  lets("t=x", 2, {{T, V(X)}});
  lets("p=at(b)", 2, {{P, buffer_at(V(B), V(X))}});
  lets("t=b.max,p=at(b)", 2, {{T, fmax(B, 0)}, {P, buffer_at(V(B))}});
  // Loops.
  struct lp { const char* n; interval_expr b; expr step; };
  const lp ls[] = {{"0..2", I2(K(0), K(2)), expr()}, {"x..x+1", I2(V(X), plus(V(X), K(1))), expr()}, {"1..0", I2(K(1), K(0)), K(1)}, {"0..3/2", I2(K(0), K(3)), K(2)}, {"y..4/x", I2(V(Y), K(4)), V(X)}, {"b", I2(fmin(B, 0), fmax(B, 0)), K(3)}, {"@1", slinky::point(K(1)), expr()}};
  int li = 0;
  for (auto& l : ls) {
    for (int S : {X, Y, T}) {
      if (S == T && li > 1) continue;
      for (int par = 0; par < 3; ++par) {   // serial, parallel, parallel with a closure
        int cls = li == 0 && S == X && par != 1 ? 0 : li == 0 && S == Y ? 1 : 2;
        add(en::fmt("loop%s %s %s", par == 0 ? "" : par == 1 ? " parallel" : " closure", names()[S], l.n), cls, [=](const scope& s, const hole& h) -> stmt {
          if (s.k[X] != INT || s.k[Y] != INT || s.k[B] != BUF) return stmt();
          scope t = s;
          t.k[S] = INT;
          if (par) t.par = true;
          if (par == 2) for (auto& k : t.k) if (k == TASK) k = NONE;
          stmt b = h(t);
          if (!b.defined()) return stmt();
          if (par == 2) {
            std::vector<std::pair<var, expr>> v;
            for (int i = 0; i < NN; ++i) if (t.k[i] != NONE) v.push_back({var(i), V(i)});
            b = let_stmt::make(v, b, true);
          }
          return loop::make(var(S), par ? K(par == 1 ? loop::parallel : 3) : K(1), l.b, l.step, b);
        });
      }
    }
    ++li;
  }
  // Copies, which are never evaluated.
  if (copies) {
    struct cp { const char* n; std::vector<expr> sx; std::vector<var> dx; bool pad; };
    const cp cps[] = {{"t,p", {V(T), plus(V(P), V(X))}, {var(T), var(P)}, false}, {"x,y", {plus(V(X), V(Y)), V(Y)}, {var(X), var(Y)}, true}, {"x,t", {plus(V(X), V(Y)), V(T)}, {var(X), var(T)}, false}, {"b", {V(X), fmin(B, 0)}, {var(X), var(P)}, true}};
    for (auto& c : cps)
      for (int sw = 0; sw < 2; ++sw)
        add(en::fmt("copy%d %s", sw, c.n), 1, [=](const scope& s, const hole& h) -> stmt {
          if (s.k[X] != INT || s.k[Y] != INT || s.k[B] != BUF || s.k[C] != BUF || s.k[D] != BUF) return stmt();
          stmt b = h(s);
          return b.defined() ? block::make({copy_stmt::make(nullptr, var(sw ? C : B), c.sx, var(sw ? B : C), c.dx, c.pad ? var(D) : var()), b}) : stmt();
        });
  }
  // Closures: bodies of parallel loops and of tasks, which may rename.
  for (int w = 0; w < 8; ++w) {
    static const char* n[] = {"task", "task x", "body", "body x", "task closure", "body closure", "task renamed", "wait"};
    add(std::string("async ") + n[w], w == 0 || w == 2 ? 0 : w == 3 || w == 7 ? 1 : 2, [=](const scope& s, const hole& h) -> stmt {
      if (s.k[X] != INT || s.k[Y] != INT || s.k[B] != BUF || s.k[C] != BUF) return stmt();
      int S = w == 1 || w == 3 ? X : T;
      scope t = s;
      stmt task, body;
      bool in_task = w == 0 || w == 1 || w == 4 || w == 6;
      if (in_task) {
        if (w == 4 || w == 6) for (auto& k : t.k) k = NONE;
        if (w == 4) { t.k[X] = t.k[Y] = INT; t.k[B] = BUF; }
        if (w == 6) { t.k[X] = t.k[Y] = t.k[T] = INT; t.k[B] = BUF; }
        t.async_ = true;
        stmt b = h(t);
        if (!b.defined()) return stmt();
        if (w == 4) b = let_stmt::make({{var(X), V(X)}, {var(Y), V(Y)}, {var(B), V(B)}}, b, true);
        if (w == 6) b = let_stmt::make({{var(T), V(X)}, {var(X), V(Y)}, {var(Y), V(Y)}, {var(B), V(C)}}, b, true);
        task = b;
        scope u = s;
        u.k[S] = NONE;
        body = leaf(u, 90);
      } else {
        task = leaf(t, 91);
        t.k[S] = TASK;
        if (w == 3) t.k[S] = NONE;
        if (w == 5) { for (auto& k : t.k) k = NONE; t.k[X] = t.k[Y] = INT; t.k[B] = BUF; }
        t.async_ = true;
        // x is the task here.
        if (w == 3) { body = block::make({leaf(t, 92), check::make(call::make(intrinsic::wait_for, {V(S)}))}); scope z = s; z.async_ = true; stmt b = h(z); if (!b.defined()) return stmt(); return block::make({async::make(var(S), task, body), b}); }
        stmt b = h(t);
        if (!b.defined()) return stmt();
        if (w == 7) b = block::make({leaf(t, 93), check::make(call::make(intrinsic::wait_for, {V(S)})), b});
        if (w == 5) b = let_stmt::make({{var(X), V(X)}, {var(Y), V(Y)}, {var(B), V(B)}}, b, true);
        body = b;
      }
      return async::make(var(S), task, body);
    });
  }
  auto chk = [&](const char* n, expr c) {
    add(std::string("check ") + n, 2, [=](const scope& s, const hole& h) -> stmt {
      if (s.k[X] != INT || s.k[Y] != INT || s.k[B] != BUF) return stmt();
      stmt b = h(s);
      return b.defined() ? block::make({check::make(c), b}) : stmt();
    });
  };
  chk("x<3", slinky::less::make(V(X), K(3)));
  chk("y", V(Y));
  chk("and", call::make(intrinsic::and_then, {V(X), slinky::less_equal::make(fmin(B, 0), V(X)), slinky::not_equal::make(V(Y), K(0))}));
  chk("and2", call::make(intrinsic::and_then, {V(X), slinky::less_equal::make(fmin(B, 0), V(X))}));
  chk("or2", call::make(intrinsic::or_else, {slinky::logical_not::make(V(Y)), slinky::logical_and::make(V(X), fmax(B, 0))}));
  chk("or", call::make(intrinsic::or_else, {slinky::equal::make(V(X), K(77)), slinky::logical_not::make(V(Y)), slinky::logical_and::make(V(X), fmax(B, 0))}));
  return r;
}

// Leaves around and inside a chain of templates.
struct program { stmt s; bool par = false, async_ = false; };
inline program build(const std::vector<const tmpl*>& ts, const scope& s0 = start()) {
  program p;
  int id = 0;
  std::function<stmt(const scope&, size_t)> go = [&](const scope& s, size_t i) -> stmt {
    if (s.par) p.par = true;
    if (s.async_) p.async_ = true;
    if (i == ts.size()) return leaf(s, id++);
    stmt a = leaf(s, id++);
    stmt m = ts[i]->make(s, [&](const scope& t) { return go(t, i + 1); });
    if (!m.defined()) return stmt();
    return block::make({a, m, leaf(s, id++)});
  };
  p.s = go(s0, 0);
  return p;
}

}  // namespace sl

#endif
