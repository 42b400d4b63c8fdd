// C21: structural comparison is a total order, equal exactly for equal structures.
//
// A corpus of nodes is built twice (nothing shared between the copies). Every ordered pair is compared with compare and
// match. The result must be the sign of the difference of the positions of the two nodes, where the position of a node is
// the number of nodes below it: if that holds for all pairs the relation is antisymmetric and transitive. The result must be
// zero exactly if the descriptions of the nodes written by `ser` below are the same.
#include "enum.h"

#include "slinky/builder/substitute.h"
#include "slinky/runtime/buffer.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/expr.h"
#include "slinky/runtime/print.h"
#include "slinky/runtime/stmt.h"

#include <cstring>


using en::fmt;

namespace slinky {
namespace {

// Describes a node completely. Callables are compared as the node that holds them, as the interface says.
struct ser_visitor : expr_visitor, stmt_visitor {
  std::string s;
  void n(long long v) { s += fmt("%lld ", v); }
  void v(var x) { n((long long)x.id); }
  void e(const expr& x) {
    if (x.defined()) x.accept(this);
    else s += "_ ";
  }
  void t(const stmt& x) {
    if (x.defined()) x.accept(this);
    else s += "_ ";
  }
  void i(const interval_expr& x) { e(x.min), e(x.max); }
  void d(const dim_expr& x) { i(x.bounds), e(x.stride), e(x.fold_factor); }
  void open(const char* name) { s += "(", s += name, s += " "; }
  void close() { s += ") "; }
  void visit(const variable* op) override { open("var"), v(op->sym), n((int)op->field), n(op->dim), close(); }
  void visit(const constant* op) override { open("c"), n(op->value), close(); }
  template <typename T> void bin(const char* name, const T* op) { open(name), e(op->a), e(op->b), close(); }
  void visit(const add* op) override { bin("add", op); }
  void visit(const sub* op) override { bin("sub", op); }
  void visit(const mul* op) override { bin("mul", op); }
  void visit(const div* op) override { bin("div", op); }
  void visit(const mod* op) override { bin("mod", op); }
  void visit(const class min* op) override { bin("min", op); }
  void visit(const class max* op) override { bin("max", op); }
  void visit(const equal* op) override { bin("eq", op); }
  void visit(const not_equal* op) override { bin("ne", op); }
  void visit(const less* op) override { bin("lt", op); }
  void visit(const less_equal* op) override { bin("le", op); }
  void visit(const logical_and* op) override { bin("and", op); }
  void visit(const logical_or* op) override { bin("or", op); }
  void visit(const logical_not* op) override { open("not"), e(op->a), close(); }
  void visit(const class select* op) override { open("select"), e(op->condition), e(op->true_value), e(op->false_value), close(); }
  void visit(const call* op) override {
    open("call"), n((int)op->intrinsic);
    if (op->target) s += fmt("@%p ", (const void*)op);
    for (const expr& a : op->args) e(a);
    close();
  }
  void lets(const std::vector<std::pair<var, expr>>& l) {
    for (auto& p : l) v(p.first), e(p.second);
  }
  void visit(const let* op) override { open("let"), lets(op->lets), e(op->body), close(); }
  void visit(const let_stmt* op) override { open(op->is_closure ? "closure" : "let_stmt"), lets(op->lets), t(op->body), close(); }
  void visit(const block* op) override {
    open("block");
    for (auto& x : op->stmts) t(x);
    close();
  }
  void visit(const loop* op) override { open("loop"), v(op->sym), e(op->max_workers), i(op->bounds), e(op->step), t(op->body), close(); }
  void visit(const call_stmt* op) override {
    open("call_stmt");
    if (op->target) s += fmt("@%p ", (const void*)op);
    for (var x : op->inputs) v(x);
    s += "; ";
    for (var x : op->outputs) v(x);
    s += "; ";
    for (auto& x : op->scalars) e(x);
    close();
  }
  void visit(const copy_stmt* op) override {
    open("copy");
    if (op->impl) s += fmt("@%p ", (const void*)op);
    v(op->src);
    for (auto& x : op->src_x) e(x);
    s += "; ", v(op->dst);
    for (var x : op->dst_x) v(x);
    s += "; ", v(op->pad), close();
  }
  void dims(const std::vector<dim_expr>& ds) {
    for (auto& x : ds) d(x), s += ", ";
  }
  void visit(const allocate* op) override { open("allocate"), v(op->sym), n((int)op->storage), e(op->elem_size), dims(op->dims), t(op->body), close(); }
  void visit(const make_buffer* op) override { open("make_buffer"), v(op->sym), e(op->base), e(op->elem_size), dims(op->dims), t(op->body), close(); }
  void visit(const constant_buffer* op) override {
    open("constant_buffer"), v(op->sym);
    const raw_buffer& b = *op->value;
    n(b.rank), n(b.elem_size);
    for (size_t d = 0; d < b.rank; ++d) n(b.dims[d].min()), n(b.dims[d].max()), n(b.dims[d].stride()), n(b.dims[d].fold_factor());
    if (b.size_bytes() > 128) s += fmt("@%p ", (const void*)&b);
    else {
      for (size_t x = 0; x < b.size_bytes(); ++x) s += fmt("%02x", ((const unsigned char*)b.base)[x]);
    }
    t(op->body), close();
  }
  void visit(const clone_buffer* op) override { open("clone"), v(op->sym), v(op->src), t(op->body), close(); }
  void visit(const crop_buffer* op) override {
    open("crop_buffer"), v(op->sym), v(op->src);
    for (auto& x : op->bounds) i(x), s += ", ";
    t(op->body), close();
  }
  void visit(const crop_dim* op) override { open("crop_dim"), v(op->sym), v(op->src), n(op->dim), i(op->bounds), t(op->body), close(); }
  void visit(const slice_buffer* op) override {
    open("slice_buffer"), v(op->sym), v(op->src);
    for (auto& x : op->at) e(x);
    s += "; ", t(op->body), close();
  }
  void visit(const slice_dim* op) override { open("slice_dim"), v(op->sym), v(op->src), n(op->dim), e(op->at), t(op->body), close(); }
  void visit(const transpose* op) override {
    open("transpose"), v(op->sym), v(op->src);
    for (int x : op->dims) n(x);
    s += "; ", t(op->body), close();
  }
  void visit(const async* op) override { open("async"), v(op->sym), t(op->task), t(op->body), close(); }
  void visit(const check* op) override { open("check"), e(op->condition), close(); }
};

std::string ser(const expr& e) {
  ser_visitor v;
  v.e(e);
  return v.s;
}
std::string ser(const stmt& e) {
  ser_visitor v;
  v.t(e);
  return v.s;
}

const var A(0), B(1), X(2), Y(3);

index_t fn(const call*, eval_context&) { return 0; }
index_t sfn(const call_stmt*, eval_context&) { return 0; }
void cfn(const raw_buffer&, const raw_buffer&, const raw_buffer&) {}

// Nodes that are compared as pointers are kept, and shared by the copies of the corpus.
std::vector<expr> fixed_calls;
std::vector<stmt> fixed_stmts;
std::vector<const_raw_buffer_ptr> fixed_buffers;

template <typename T> void bins(std::vector<expr>& out, const std::vector<expr>& l, const std::vector<expr>& r) {
  for (auto& a : l)
    for (auto& b : r) out.push_back(T::make(a, b));
}
void all_bins(std::vector<expr>& out, const std::vector<expr>& l, const std::vector<expr>& r) {
  bins<add>(out, l, r), bins<sub>(out, l, r), bins<mul>(out, l, r), bins<div>(out, l, r), bins<mod>(out, l, r);
  bins<class min>(out, l, r), bins<class max>(out, l, r), bins<equal>(out, l, r), bins<not_equal>(out, l, r);
  bins<less>(out, l, r), bins<less_equal>(out, l, r), bins<logical_and>(out, l, r), bins<logical_or>(out, l, r);
}

expr V(var x) { return variable::make(x); }
expr K(index_t k) { return constant::make(k); }

std::vector<expr> leaves() {
  std::vector<expr> r = {V(A), V(B), V(X), V(Y), K(0), K(1), K(-1), K(2), K(100000), K(100001), K(-100000), K(std::numeric_limits<index_t>::max()), K(std::numeric_limits<index_t>::min())};
  for (var b : {A, B})
    for (int f = 1; f <= (int)buffer_field::fold_factor; ++f) {
      buffer_field k = (buffer_field)f;
      const bool per_dim = k == buffer_field::min || k == buffer_field::max || k == buffer_field::stride || k == buffer_field::fold_factor;
      if (!per_dim) r.push_back(variable::make(b, k));
      else
        for (int d = 0; d < 3; ++d) r.push_back(variable::make(b, k, d));
    }
  return r;
}

std::vector<expr> make_exprs() {
  std::vector<expr> r = leaves();
  r.push_back(expr());
  std::vector<expr> small = {V(A), V(B), K(0), K(1), K(100000), variable::make(A, buffer_field::min, 0), variable::make(A, buffer_field::min, 1), variable::make(B, buffer_field::max, 0)};
  std::vector<expr> few = {V(A), V(B), K(1)};
  all_bins(r, small, small);
  std::vector<expr> two;
  bins<add>(two, few, few), bins<class min>(two, few, few), bins<less>(two, few, few);
  for (auto& a : small) r.push_back(logical_not::make(a));
  for (auto& a : two) r.push_back(logical_not::make(a));
  std::vector<expr> three;
  bins<add>(three, two, few), bins<add>(three, few, two), bins<class max>(three, two, few), bins<mul>(three, two, two);
  for (auto& a : three) r.push_back(a);
  for (auto& c : few)
    for (auto& a : few)
      for (auto& b : few) r.push_back(select::make(c, a, b));
  for (int k = 0; k <= (int)intrinsic::validate_buffer; ++k) {
    intrinsic i = (intrinsic)k;
    if (i == intrinsic::none) continue;
    r.push_back(call::make(i, {}));
    for (auto& a : few) r.push_back(call::make(i, {a}));
    for (auto& a : few) r.push_back(call::make(i, {a, expr()}));
    if (k % 4) continue;
    for (auto& a : few)
      for (auto& b : few) r.push_back(call::make(i, {a, b})), r.push_back(call::make(i, {a, expr(), b}));
  }
  for (auto& a : fixed_calls) r.push_back(a);
  std::vector<std::vector<std::pair<var, expr>>> ls;
  for (var x : {X, Y})
    for (auto& a : few) {
      ls.push_back({{x, a}});
      for (var y : {X, Y}) ls.push_back({{x, a}, {y, V(x)}}), ls.push_back({{x, a}, {y, K(1)}});
    }
  for (auto& l : ls)
    for (expr b : {V(X), V(A), add::make(V(X), V(Y))}) r.push_back(let::make(l, b));
  return r;
}

std::vector<interval_expr> make_intervals() {
  std::vector<interval_expr> r;
  std::vector<expr> l = {expr(), V(A), V(B), K(1), K(2), add::make(V(A), K(1))};
  for (auto& a : l)
    for (auto& b : l) r.push_back({a, b});
  for (auto& a : l) r.push_back(point(a));
  return r;
}

std::vector<dim_expr> make_dims() {
  std::vector<dim_expr> r;
  std::vector<expr> l = {expr(), V(A), K(1)};
  for (auto& a : l)
    for (auto& b : l)
      for (auto& c : l)
        for (auto& d : l) r.push_back({{a, b}, c, d});
  return r;
}

std::vector<stmt> make_stmts() {
  std::vector<stmt> r;
  auto chk = [](expr e) { return check::make(e); };
  std::vector<expr> ex = {V(A), V(B), K(1)};
  std::vector<expr> opt = {expr(), V(A), K(1)};
  std::vector<stmt> bodies = {chk(V(A)), chk(V(B)), call_stmt::make(nullptr, {A}, {B}, {}, {}), stmt()};
  r.push_back(stmt());
  for (auto& e : make_exprs())
    if (e.defined()) r.push_back(chk(e));
  std::vector<std::vector<var>> vl = {{}, {A}, {B}, {A, B}, {B, A}, {A, A, B}};
  std::vector<std::vector<expr>> sl = {{}, {K(1)}, {V(A)}, {V(A), K(1)}, {K(1), V(A)}};
  for (auto& a : vl)
    for (auto& b : vl)
      for (auto& c : sl) r.push_back(call_stmt::make(nullptr, a, b, c, {}));
  for (var s : {A, B})
    for (var d : {A, B})
      for (var p : {var(), A, Y})
        for (auto& sx : sl)
          for (std::vector<var> dx : std::vector<std::vector<var>>{{X}, {Y}, {X, Y}, {Y, X}}) r.push_back(copy_stmt::make(nullptr, s, sx, d, dx, p));
  for (auto& s : fixed_stmts) r.push_back(s);
  for (auto& b : bodies) {
    for (var x : {X, Y}) {
      for (auto& e : ex) {
        r.push_back(let_stmt::make(x, e, b));
        for (var y : {X, Y}) r.push_back(let_stmt::make({{x, e}, {y, V(x)}}, b));
      }
      r.push_back(let_stmt::make({{x, V(A)}}, b, true));
      r.push_back(let_stmt::make({{x, V(A)}, {B, V(A)}}, b, true));
      r.push_back(let_stmt::make({{x, V(A)}, {B, V(A)}}, b, false));
      for (auto& w : std::vector<expr>{K(loop::serial), K(loop::parallel), K(2), V(A)})
        for (auto& lo : ex)
          for (auto& hi : ex)
            for (auto& step : std::vector<expr>{K(1), K(2), V(B)}) r.push_back(loop::make(x, w, {lo, hi}, step, b));
      for (auto m : {memory_type::automatic, memory_type::stack, memory_type::heap})
        for (auto& es : ex)
          for (auto& ds : std::vector<std::vector<dim_expr>>{{}, {{{K(0), K(1)}, expr(), expr()}}, {{{K(0), K(2)}, expr(), expr()}}, {{{K(0), K(1)}, K(4), expr()}}, {{{K(0), K(1)}, expr(), K(2)}}, {{{K(0), K(1)}, expr(), expr()}, {{K(0), K(1)}, expr(), expr()}}}) {
            r.push_back(allocate::make(x, m, es, ds, b));
            if (m == memory_type::heap)
              for (auto& base : ex) r.push_back(make_buffer::make(x, base, es, ds, b));
          }
      for (auto& cb : fixed_buffers) r.push_back(constant_buffer::make(x, cb, b));
      for (var s : {A, B}) {
        r.push_back(clone_buffer::make(x, s, b));
        for (auto& lo : opt)
          for (auto& hi : opt) {
            for (int d = 0; d < 2; ++d) r.push_back(crop_dim::make(x, s, d, {lo, hi}, b));
            r.push_back(crop_buffer::make(x, s, {{lo, hi}}, b));
            r.push_back(crop_buffer::make(x, s, {interval_expr(), {lo, hi}}, b));
            r.push_back(crop_buffer::make(x, s, {{lo, hi}, interval_expr()}, b));
          }
        for (auto& at : opt) {
          for (int d = 0; d < 2; ++d) r.push_back(slice_dim::make(x, s, d, at, b));
          r.push_back(slice_buffer::make(x, s, {at}, b));
          for (auto& at2 : opt) r.push_back(slice_buffer::make(x, s, {at, at2}, b));
        }
        for (auto& ds : std::vector<std::vector<int>>{{}, {0}, {1}, {0, 1}, {1, 0}, {0, 0}, {0, 1, 2}, {transpose::new_dim, 0}, {0, transpose::new_dim}}) r.push_back(transpose::make(x, s, ds, b));
      }
      for (auto& t : bodies) r.push_back(async::make(x, t, b));
    }
    for (auto& c : bodies)
      for (auto& d : bodies) r.push_back(block::make({b, c, d})), r.push_back(block::make(b, block::make(c, d)));
  }
  // A second level over one of each.
  std::vector<stmt> inner = {clone_buffer::make(X, A, chk(V(A))), clone_buffer::make(X, B, chk(V(A))), let_stmt::make(X, V(A), chk(V(X))),
      crop_dim::make(X, A, 0, point(V(A)), chk(V(A))), crop_dim::make(X, A, 0, {V(A), V(A)}, chk(V(A))), loop::make(X, K(1), {K(0), K(1)}, K(1), chk(V(X))),
      loop::make(X, K(2), {K(0), K(1)}, K(1), chk(V(X)))};
  for (auto& a : inner) {
    for (auto& b : inner) r.push_back(block::make(a, b)), r.push_back(async::make(Y, a, b));
    r.push_back(clone_buffer::make(Y, A, a)), r.push_back(let_stmt::make(Y, K(1), a)), r.push_back(crop_dim::make(Y, A, 1, point(K(1)), a));
    r.push_back(loop::make(Y, K(1), {K(0), K(1)}, K(1), a)), r.push_back(loop::make(Y, K(3), {K(0), K(1)}, K(1), a));
    r.push_back(allocate::make(Y, memory_type::heap, K(1), {}, a)), r.push_back(allocate::make(Y, memory_type::stack, K(1), {}, a));
    r.push_back(slice_dim::make(Y, A, 0, K(1), a)), r.push_back(transpose::make(Y, A, {0}, a));
  }
  return r;
}

void make_fixed() {
  for (int k = 0; k < 3; ++k) {
    fixed_calls.push_back(call::make(fn, {}));
    fixed_calls.push_back(call::make(fn, {variable::make(A)}));
    fixed_stmts.push_back(call_stmt::make(sfn, {A}, {B}, {}, {}));
    fixed_stmts.push_back(copy_stmt::make(cfn, A, {variable::make(X)}, B, {X}, var()));
  }
  // Constants: every rank up to 2, two sizes, several contents; and one whose data is compared as a pointer.
  for (int rank = 0; rank < 3; ++rank)
    for (int es : {1, 2})
      for (int extent : {1, 2}) {
        if (rank == 0 && extent == 2) continue;
        for (int pattern = 0; pattern < 3; ++pattern) {
          dim ds[2];
          index_t stride = es;
          for (int d = 0; d < rank; ++d) {
            ds[d].set_min_extent(pattern == 2 ? 1 : 0, extent);
            ds[d].set_stride(stride), ds[d].set_fold_factor(dim::unfolded);
            stride *= extent;
          }
          auto b = raw_buffer::make(rank, es, ds);
          size_t i = 0;
          char* p = (char*)b->base;
          for (index_t k = 0; k < stride; ++k) p[k] = pattern == 1 ? (char)(0x80 + i++) : (char)(i++);
          fixed_buffers.push_back(b);
          if (pattern == 1) fixed_buffers.push_back(raw_buffer::make_copy(*b));
        }
      }
  for (int k = 0; k < 2; ++k) {
    dim d;
    d.set_min_extent(0, 200), d.set_stride(1), d.set_fold_factor(dim::unfolded);
    auto b = raw_buffer::make(1, 1, &d);
    memset(b->base, 0, 200);
    fixed_buffers.push_back(b);
  }
}

template <typename T> struct corpus {
  std::vector<T> a, b;
  std::vector<std::string> s;
  std::vector<int> pos;
  int cmp(int i, int j) const { return compare(a[i], b[j]); }
  void locate() {
    if (!pos.empty()) return;
    pos.resize(a.size());
    for (size_t i = 0; i < a.size(); ++i)
      for (size_t j = 0; j < a.size(); ++j) pos[i] += compare(b[j], b[i]) < 0;
  }
};
corpus<expr> EX;
corpus<stmt> ST;


int sgn(int x) { return x < 0 ? -1 : x > 0; }

template <typename T> en::family pairs(const char* what, corpus<T>& c) {
  constexpr int block = 16;
  return {what, (c.a.size() + block - 1) / block,
      [&c](uint64_t u) {
        c.locate();
        const int n = c.a.size();
        for (int i = u * block; i < std::min<int>(n, (u + 1) * block); ++i)
          for (int j = 0; j < n; ++j) {
            const int got = c.cmp(i, j);
            const bool same = c.s[i] == c.s[j];
            en::eval();
            if (!same && c.a[i].defined() && c.a[j].defined() && c.a[i].type() == c.a[j].type()) en::nontrivial(en::mix(i, j));
            auto bad = [&](const std::string& why) { en::fail(fmt("%s | %s", c.s[i].c_str(), c.s[j].c_str()), why + "\n  " + c.s[i] + "\n  " + c.s[j]); };
            if ((got == 0) != same) bad(same ? "the same structure compares different" : "different structures compare equal");
            if (match(c.a[i], c.b[j]) != same) bad(same ? "the same structure does not match" : "different structures match");
            if (match(c.a[i], c.a[j]) != same) bad("match depends on sharing of nodes");
            if (c.cmp(j, i) != -got) bad("not antisymmetric");
            if (compare(c.a[i], c.a[j]) != got || compare(c.b[i], c.a[j]) != got) bad("the result depends on sharing of nodes");
            if (node_less()(c.a[i], c.b[j]) != (got < 0)) bad("node_less is not compare");
            if (sgn(c.pos[i] - c.pos[j]) != got) bad(fmt("not transitive: %d, but %d nodes are below the first and %d below the second", got, c.pos[i], c.pos[j]));
          }
        if (en::want_sample()) en::sample("all pairs with " + c.s[u * block]);
      },
      nullptr};
}

// match of intervals, dimensions, boxes and of variables and constants with expressions.
std::string ser_of(const interval_expr& x) { ser_visitor v; v.i(x); return v.s; }
std::string ser_of(const dim_expr& x) { ser_visitor v; v.d(x); return v.s; }
std::string ser_of(const box_expr& x) { ser_visitor v; for (auto& i : x) v.i(i), v.s += ", "; return v.s; }

template <typename T> void others(const std::vector<T>& a, const std::vector<T>& b) {
  for (auto& x : a)
    for (auto& y : b) {
      const bool same = ser_of(x) == ser_of(y);
      en::eval();
      if (match(x, y) != same) en::fail(ser_of(x) + "| " + ser_of(y), same ? "the same structure does not match" : "different structures match");
    }
}

en::family parts() {
  return {"intervals, dimensions, boxes, variables and constants", 4,
      [](uint64_t u) {
        if (u == 0) others(make_intervals(), make_intervals());
        if (u == 1) others(make_dims(), make_dims());
        if (u == 2) {
          auto box = [] {
            std::vector<box_expr> r = {{}};
            auto i = make_intervals();
            for (auto& x : i) r.push_back({x});
            for (auto& x : i) r.push_back({i[0], x}), r.push_back({x, i[0]}), r.push_back({x, x}), r.push_back({i[8], x});
            return r;
          };
          others(box(), box());
        }
        if (u == 3)
          for (auto& e : EX.a) {
            for (var x : {A, B, X, Y, var()}) {
              en::eval();
              const variable* v = e.as<variable>();
              const bool want = v && v->sym == x && v->field == buffer_field::none;
              if (match(e, x) != want || match(x, e) != want) en::fail("var " + ser(e), "match with a variable");
            }
            for (index_t k : {(index_t)0, (index_t)1, (index_t)-1, (index_t)100000, std::numeric_limits<index_t>::max()}) {
              en::eval();
              const constant* c = e.as<constant>();
              const bool want = c && c->value == k;
              if (match(e, k) != want || match(k, e) != want) en::fail("constant " + ser(e), "match with a constant");
            }
          }
        for (uint64_t k = 0; k < 64; ++k) en::nontrivial(en::mix(u + 777, k));
      },
      nullptr};
}

std::vector<en::family> make() {
  make_fixed();
  EX.a = make_exprs(), EX.b = make_exprs();
  ST.a = make_stmts(), ST.b = make_stmts();
  for (auto& e : EX.a) EX.s.push_back(ser(e));
  for (auto& e : ST.a) ST.s.push_back(ser(e));
  // The two copies are the same, unless the constructors are at fault.
  for (size_t i = 0; i < EX.a.size(); ++i)
    if (ser(EX.b[i]) != EX.s[i]) abort();
  for (size_t i = 0; i < ST.a.size(); ++i)
    if (ser(ST.b[i]) != ST.s[i]) abort();
  return {pairs("pairs of expressions", EX), pairs("pairs of statements", ST), parts()};
}

en::space all() { return en::families("C21", "the two nodes are of the same kind and differ", make); }

}  // namespace

int order_main(int argc, char** argv) { return en::main_driver(argc, argv, all()); }
}  // namespace slinky

int main(int argc, char** argv) { return slinky::order_main(argc, argv); }
