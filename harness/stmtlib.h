// A reference interpreter for statements, independent of slinky's evaluator: names map to immutable values, a
// declaration evaluates its body with a new environment, and nothing is ever modified in place.
#ifndef VERIF_HARNESS_STMTLIB_H
#define VERIF_HARNESS_STMTLIB_H

#include "enum.h"
#include "slinky/builder/substitute.h"
#include "slinky/runtime/buffer.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/expr.h"
#include "slinky/runtime/print.h"
#include "slinky/runtime/stmt.h"

#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace sl {

using namespace slinky;

#ifndef SL_NV
#define SL_NV 16
#endif
constexpr int NV = SL_NV;    // variables
constexpr int MAXR = 6;

struct rdim {
  index_t min = 0, max = 0, stride = 0, fold = -1;
  bool operator==(const rdim& o) const { return min == o.min && max == o.max && stride == o.stride && fold == o.fold; }
  bool broadcast() const { return min == 0 && max == 0 && stride == 0; }
  bool contains(index_t x) const { return stride == 0 || (min <= x && x <= max); }
  index_t offset(index_t x) const {
    if (stride == 0) return 0;
    if (fold == -1) return (x - min) * stride;
    return ((x % fold) + fold) % fold * stride;
  }
};

// Memory a buffer points into.
struct ptr {
  int region = -1;   // -1: null
  index_t off = 0;
};

struct rbuf {
  int origin = -1;   // The free variable this is, or is a view of.
  ptr base;
  index_t es = 0;
  int rank = 0;
  bool cropped_beyond = false;   // Dimensions beyond the rank were cropped, which does nothing.
  int full = 0;   // The rank with trailing broadcasts, which may or may not have been dropped.
  rdim d[MAXR];
  rdim dim(int i) const {
    if (i < rank) return d[i];
    rdim r;
    r.fold = slinky::dim::broadcast().fold_factor();   // Folding does not mean anything here.
    return r;
  }
  void trim() { full = std::max(full, rank); while (rank > 0 && d[rank - 1].broadcast()) --rank; }
  bool empty() const { for (int i = 0; i < rank; ++i) if (d[i].max < d[i].min) return true; return false; }
};

enum kind : uint8_t { NONE, INT, BUF, PTR, TASK };
struct val {
  kind k = NONE;
  int origin = -1;   // INT: the free variable this is
  index_t i = 0;   // INT
  ptr p;           // PTR
  rbuf b;          // BUF
};
struct env { val v[NV]; };

struct region { var sym; index_t lo = 0, hi = 0; bool heap = false, caller = false, live = true; const void* base = nullptr; };

enum use : uint8_t { U_VAR = 1, U_IN = 2, U_OUT = 4, U_SRC = 8, U_DST = 16, U_BASE = 32, U_DIMS = 64, U_BOUNDS = 128 };

struct reference {
  uint8_t uses[NV] = {};   // how free variables were used
  void used(const rbuf& b, int u) { if (b.origin >= 0) uses[b.origin] |= u; }
  std::vector<region> regions;
  // A constant that is not one of `constants`.
  std::function<bool(const const_raw_buffer_ptr&, rbuf&)> on_constant;
  // A call; the result is returned by the call.
  std::function<index_t(const call_stmt*, const env&)> on_call;
  std::function<index_t(const copy_stmt*, const rbuf&, const rbuf&, const rbuf*, const std::vector<index_t>&)> on_copy;
  std::vector<std::pair<const raw_buffer*, rbuf>> constants;
  bool unsupported = false;     // something that has no defined meaning was evaluated
  uint32_t async_order = 0;     // bit i: the i-th async that is evaluated runs its task as late as possible
  int asyncs = 0;
  bool has_pool = true, ambiguous_broadcasts = false;
  index_t auto_stack_threshold = 4096;
  bool sliced_inner_broadcast = false;
  bool bad_free = false;        // something that is not a live heap allocation was freed
  int failed_checks = 0, failed_calls = 0;
  struct pending { std::function<void()> run; bool done; };
  std::vector<pending*> tasks;

  val bad() { unsupported = true; val r; r.k = INT; return r; }
  static val mk(index_t i) { val r; r.k = INT; r.i = i; return r; }
  index_t I(const expr& e, const env& v) {
    val r = eval(e, v);
    if (r.k != INT) { unsupported = true; return 0; }
    return r.i;
  }

  val eval(const expr& e, const env& v) {
    if (!e.defined()) return bad();
    switch (e.type()) {
    case expr_node_type::variable: {
      const variable* x = static_cast<const variable*>(e.get());
      if (x->sym.id >= NV) return bad();
      const val& r = v.v[x->sym.id];
      if (r.k == NONE) return bad();
      if (x->field == buffer_field::none) {
        if (r.k == BUF) used(r.b, U_VAR); else if (r.origin >= 0) uses[r.origin] |= U_VAR;
        val c = r;
        c.origin = -1;
        return c;
      }
      if (r.k != BUF) return bad();
      used(r.b, x->field == buffer_field::min || x->field == buffer_field::max ? U_BOUNDS | U_DIMS : x->field == buffer_field::stride || x->field == buffer_field::fold_factor ? U_DIMS : U_VAR);
      // Whether this is seen here is not clear.
      if (ambiguous_broadcasts && r.b.cropped_beyond && x->dim >= r.b.rank && (x->field == buffer_field::min || x->field == buffer_field::max)) return bad();
      rdim d = x->dim >= 0 ? r.b.dim(x->dim) : r.b.dim(MAXR);
      switch (x->field) {
      case buffer_field::rank: { rbuf b = r.b; b.trim(); return mk(b.rank); }
      case buffer_field::elem_size: return mk(r.b.es);
      case buffer_field::min: return mk(d.min);
      case buffer_field::max: return mk(d.max);
      case buffer_field::stride: return mk(d.stride);
      case buffer_field::fold_factor: return mk(d.fold);
      default: return bad();
      }
    }
    case expr_node_type::constant: return mk(static_cast<const constant*>(e.get())->value);
    case expr_node_type::let: {
      const let* l = static_cast<const let*>(e.get());
      env n = v;
      for (auto& i : l->lets) { val x = eval(i.second, n); if (i.first.id >= NV) return bad(); n.v[i.first.id] = x; }
      return eval(l->body, n);
    }
    case expr_node_type::logical_not: return mk(I(static_cast<const logical_not*>(e.get())->a, v) == 0);
    case expr_node_type::select: {
      auto s = static_cast<const class slinky::select*>(e.get());
      return eval(I(s->condition, v) ? s->true_value : s->false_value, v);
    }
    case expr_node_type::call: {
      auto c = static_cast<const call*>(e.get());
      switch (c->intrinsic) {
      case intrinsic::abs: { index_t a = I(c->args[0], v); return mk(a < 0 ? -a : a); }
      case intrinsic::and_then: for (auto& i : c->args) if (!I(i, v)) return mk(0); return mk(1);
      case intrinsic::or_else: for (auto& i : c->args) if (I(i, v)) return mk(1); return mk(0);
      case intrinsic::buffer_at: {
        const variable* bv = c->args[0].as<variable>();
        if (!bv || bv->field != buffer_field::none || bv->sym.id >= NV) return bad();
        const val& b = v.v[bv->sym.id];
        if (b.k != BUF) return bad();
        used(b.b, U_BASE | U_DIMS | U_BOUNDS);
        val r; r.k = PTR; r.p = b.b.base;
        for (size_t d = 0; d + 1 < c->args.size(); ++d) {
          if (!c->args[d + 1].defined() || (int)d >= b.b.rank) continue;
          index_t x = I(c->args[d + 1], v);
          if (!b.b.d[d].contains(x)) r.p = ptr(); else if (r.p.region >= 0) r.p.off += b.b.d[d].offset(x);
        }
        return r;
      }
      case intrinsic::free: {
        if (c->args.size() != 1) return bad();
        val b = eval(c->args[0], v);
        if (b.k != BUF || b.b.base.region < 0) return bad();
        region& r = regions[b.b.base.region];
        if (r.caller || !r.heap || !r.live) bad_free = true;
        r.live = false;
        return mk(1);
      }
      case intrinsic::wait_for:
        for (auto& i : c->args) {
          val t = eval(i, v);
          if (t.k != TASK) return bad();
          if (t.i >= 0 && !tasks[t.i]->done) { tasks[t.i]->done = true; tasks[t.i]->run(); }
        }
        return mk(1);
      default: return bad();
      }
    }
    default: break;
    }
    const binary_op* o = static_cast<const binary_op*>(e.get());
    index_t a = I(o->a, v), b = I(o->b, v);
    auto fdiv = [](index_t a, index_t b) -> index_t { if (!b) return 0; index_t q = a / b, r = a % b; return r < 0 ? q + (b > 0 ? -1 : 1) : q; };
    switch (e.type()) {
    case expr_node_type::add: return mk(a + b);
    case expr_node_type::sub: return mk(a - b);
    case expr_node_type::mul: return mk(a * b);
    case expr_node_type::div: return mk(fdiv(a, b));
    case expr_node_type::mod: return mk(b ? a - fdiv(a, b) * b : 0);
    case expr_node_type::min: return mk(a < b ? a : b);
    case expr_node_type::max: return mk(a > b ? a : b);
    case expr_node_type::equal: return mk(a == b);
    case expr_node_type::not_equal: return mk(a != b);
    case expr_node_type::less: return mk(a < b);
    case expr_node_type::less_equal: return mk(a <= b);
    case expr_node_type::logical_and: return mk(a && b);
    case expr_node_type::logical_or: return mk(a || b);
    default: return bad();
    }
  }

  void crop(rbuf& b, int d, const interval_expr& x, const env& v) {
    { int f = std::max(b.full, b.rank), t = b.rank; while (t > 0 && b.d[t - 1].broadcast()) --t;
      // Whether an explicit trailing broadcast can be cropped to nothing depends on whether it was dropped.
      if (d >= t && d < f && ((x.min.defined() && I(x.min, v) > 0) || (x.max.defined() && I(x.max, v) < 0))) { unsupported = true; return; } }
    if (d >= b.rank) { b.cropped_beyond = true; return; }
    rdim& r = b.d[d];
    // Nor is it clear whether a broadcast can be cropped to nothing at all.
    if (ambiguous_broadcasts && r.broadcast() && ((x.min.defined() && I(x.min, v) > 0) || (x.max.defined() && I(x.max, v) < 0))) { unsupported = true; return; }
    index_t lo = x.min.defined() ? I(x.min, v) : r.min, hi = x.max.defined() ? I(x.max, v) : r.max;
    lo = std::max(lo, r.min);
    hi = std::min(hi, r.max);
    if (hi < lo) b.base = ptr();
    else if (b.base.region >= 0 && r.fold == -1) b.base.off += (lo - r.min) * r.stride;
    r.min = lo;
    r.max = hi;
  }

  val* src(var s, env& v) {
    if (s.id >= NV || v.v[s.id].k != BUF) { unsupported = true; return nullptr; }
    return &v.v[s.id];
  }

  // The fields of constructed buffers.
  bool fields(rbuf& b, const expr& es, const std::vector<dim_expr>& dims, const env& v, bool strides_known) {
    b.es = es.defined() ? I(es, v) : 0;
    b.rank = dims.size();
    if (b.rank > MAXR) { unsupported = true; return false; }
    for (int i = 0; i < b.rank; ++i) {
      b.d[i].min = I(dims[i].bounds.min, v);
      b.d[i].max = I(dims[i].bounds.max, v);
      b.d[i].stride = dims[i].stride.defined() ? I(dims[i].stride, v) : strides_known ? (unsupported = true, 0) : dim::auto_stride;
      b.d[i].fold = dims[i].fold_factor.defined() ? I(dims[i].fold_factor, v) : dim::unfolded;
    }
    b.trim();
    return true;
  }

  index_t with(var s, const val& x, const stmt& body, const env& v) {
    if (s.id >= NV) { unsupported = true; return 0; }
    env n = v;
    n.v[s.id] = x;
    return run(body, n);
  }

  index_t run(const stmt& s, const env& v_) {
    if (unsupported || !s.defined()) { unsupported = true; return 0; }
    env& v = const_cast<env&>(v_);
    switch (s.type()) {
    case stmt_node_type::call_stmt: {
      index_t r = on_call(s.as<call_stmt>(), v);
      if (r) ++failed_calls;
      return r;
    }
    case stmt_node_type::copy_stmt: {
      auto c = s.as<copy_stmt>();
      if (!on_copy) { unsupported = true; return 0; }
      val *a = src(c->src, v), *b = src(c->dst, v), *p = c->pad.defined() ? src(c->pad, v) : nullptr;
      if (!a || !b || (c->pad.defined() && !p)) return 0;
      used(a->b, U_SRC | U_DIMS | U_VAR | (p ? U_BOUNDS : 0));
      if (p) used(p->b, U_SRC | U_DIMS | U_VAR);
      used(b->b, U_DST | U_DIMS | U_BOUNDS | U_VAR);
      std::vector<index_t> at;
      for (int t = 0; t < 2; ++t) {
        env n = v;
        for (size_t i = 0; i < c->dst_x.size(); ++i) { if (c->dst_x[i].id >= NV) { unsupported = true; return 0; } val q; q.k = INT; q.i = t * 5 + i; n.v[c->dst_x[i].id] = q; }
        for (auto& e : c->src_x) at.push_back(I(e, n));
      }
      return on_copy(c, a->b, b->b, p ? &p->b : nullptr, at);
    }
    case stmt_node_type::let_stmt: {
      auto l = s.as<let_stmt>();
      env n = v, c;   // Closures only see their own symbols.
      for (auto& i : l->lets) {
        if (i.first.id >= NV) { unsupported = true; return 0; }
        auto name = i.second.as<variable>();
        // A closure may capture something that does not exist here, if it does not use it.
        if (l->is_closure && name && name->sym == i.first && name->field == buffer_field::none && v.v[i.first.id].k == NONE) continue;
        val x = eval(i.second, n);
        n.v[i.first.id] = c.v[i.first.id] = x;
      }
      return run(l->body, l->is_closure ? c : n);
    }
    case stmt_node_type::block:
      for (auto& i : s.as<block>()->stmts) if (index_t r = run(i, v)) return r;
      return 0;
    case stmt_node_type::loop: {
      auto l = s.as<loop>();
      index_t w = I(l->max_workers, v), lo = I(l->bounds.min, v), hi = I(l->bounds.max, v), step = l->step.defined() ? I(l->step, v) : 1;
      if (step <= 0) { unsupported = true; return 0; }
      index_t result = 0;
      for (index_t i = lo; i <= hi; i += step) {
        index_t r = with(l->sym, mk(i), l->body, v);
        if (r && !result) result = r;
        if (result && w <= 1) break;
      }
      return result;
    }
    case stmt_node_type::allocate: {
      auto a = s.as<slinky::allocate>();
      val x; x.k = BUF;
      if (!fields(x.b, a->elem_size, a->dims, v, false)) return 0;
      // What the strides of buffers should be is another property; this uses the same implementation.
      dim dims[MAXR];
      raw_buffer rb; rb.base = nullptr; rb.elem_size = x.b.es; rb.rank = x.b.rank; rb.dims = dims;
      for (int i = 0; i < x.b.rank; ++i) { dims[i].set_bounds(x.b.d[i].min, x.b.d[i].max); dims[i].set_stride(x.b.d[i].stride); dims[i].set_fold_factor(x.b.d[i].fold); }
      auto size = rb.init_strides(1);
      if (!size) { unsupported = true; return 0; }
      for (int i = 0; i < x.b.rank; ++i) x.b.d[i].stride = dims[i].stride();
      region r;
      r.sym = a->sym;
      r.lo = rb.min_offset_bytes();
      r.hi = r.lo + (x.b.empty() ? 0 : *size);
      r.heap = a->storage == memory_type::heap || (a->storage == memory_type::automatic && (index_t)*size > auto_stack_threshold);
      int id = regions.size();
      regions.push_back(r);
      x.b.base.region = id;
      index_t result = with(a->sym, x, a->body, v);
      regions[id].live = false;
      return result;
    }
    case stmt_node_type::make_buffer: {
      auto m = s.as<make_buffer>();
      val x; x.k = BUF;
      if (!fields(x.b, m->elem_size, m->dims, v, true)) return 0;
      if (m->base.defined()) {
        val p = eval(m->base, v);
        if (p.k == PTR) x.b.base = p.p; else if (p.k != INT || p.i != 0) unsupported = true;
      }
      return with(m->sym, x, m->body, v);
    }
    case stmt_node_type::constant_buffer: {
      auto c = s.as<constant_buffer>();
      for (auto& i : constants)
        if (i.first == c->value.get()) { val x; x.k = BUF; x.b = i.second; return with(c->sym, x, c->body, v); }
      val x; x.k = BUF;
      if (on_constant && on_constant(c->value, x.b)) return with(c->sym, x, c->body, v);
      unsupported = true;
      return 0;
    }
    case stmt_node_type::clone_buffer: {
      auto c = s.as<clone_buffer>();
      val* x = src(c->src, v);
      return x ? with(c->sym, *x, c->body, v) : 0;
    }
    case stmt_node_type::crop_buffer: {
      auto c = s.as<crop_buffer>();
      val* b = src(c->src, v);
      if (!b) return 0;
      val x = *b;
      used(x.b, U_BOUNDS | U_DIMS);
      for (size_t d = 0; d < c->bounds.size(); ++d) crop(x.b, d, c->bounds[d], v);
      return with(c->sym, x, c->body, v);
    }
    case stmt_node_type::crop_dim: {
      auto c = s.as<crop_dim>();
      val* b = src(c->src, v);
      if (!b) return 0;
      val x = *b;
      used(x.b, U_BOUNDS | U_DIMS);
      crop(x.b, c->dim, c->bounds, v);
      return with(c->sym, x, c->body, v);
    }
    case stmt_node_type::slice_buffer:
    case stmt_node_type::slice_dim: {
      auto sb = s.as<slice_buffer>();
      auto sd = s.as<slice_dim>();
      val* b = src(sb ? sb->src : sd->src, v);
      if (!b) return 0;
      val x; x.k = BUF;
      x.b.base = b->b.base;
      x.b.es = b->b.es;
      x.b.full = b->b.full;
      x.b.origin = b->b.origin;
      used(x.b, U_BOUNDS | U_DIMS);
      for (int d = 0; d < b->b.rank; ++d) {
        expr at = sb ? (d < (int)sb->at.size() ? sb->at[d] : expr()) : d == sd->dim ? sd->at : expr();
        if (!at.defined()) { x.b.d[x.b.rank++] = b->b.d[d]; continue; }
        for (int k = d + 1; k < b->b.rank && b->b.d[d].broadcast(); ++k) if (!b->b.d[k].broadcast()) sliced_inner_broadcast = true;
        index_t a = I(at, v);
        if (!b->b.d[d].contains(a)) x.b.base = ptr(); else if (x.b.base.region >= 0) x.b.base.off += b->b.d[d].offset(a);
      }
      return with(sb ? sb->sym : sd->sym, x, sb ? sb->body : sd->body, v);
    }
    case stmt_node_type::transpose: {
      auto t = s.as<transpose>();
      val* b = src(t->src, v);
      if (!b) return 0;
      val x; x.k = BUF;
      x.b.base = b->b.base;
      x.b.es = b->b.es;
      x.b.origin = b->b.origin;
      used(x.b, U_DIMS);
      if (t->dims.size() > MAXR) { unsupported = true; return 0; }
      for (int i : t->dims) x.b.d[x.b.rank++] = b->b.dim(i);
      x.b.trim();
      return with(t->sym, x, t->body, v);
    }
    case stmt_node_type::async: {
      auto a = s.as<async>();
      index_t task_result = 0;
      pending p;
      env copy = v;
      p.done = false;
      p.run = [&]() { task_result = run(a->task, copy); };
      bool late = has_pool && (async_order >> asyncs & 1);
      ++asyncs;
      if (!late) { p.done = true; p.run(); }
      env n = v;
      size_t id = tasks.size();
      tasks.push_back(&p);
      if (a->sym.defined()) { val t; t.k = TASK; t.i = has_pool ? (index_t)id : -1; n.v[a->sym.id] = t; }
      index_t r = run(a->body, n);
      if (!p.done) { p.done = true; p.run(); }
      tasks[id] = nullptr;
      return task_result ? task_result : r;
    }
    case stmt_node_type::check: {
      auto c = s.as<slinky::check>();
      if (I(c->condition, v)) return 0;
      ++failed_checks;
      return 1;
    }
    default: unsupported = true; return 0;
    }
  }
};

inline std::string show(const rbuf& b) {
  std::string s = b.base.region < 0 ? "{null" : en::fmt("{r%d+%lld", b.base.region, (long long)b.base.off);
  s += en::fmt(" es%lld", (long long)b.es);
  for (int i = 0; i < b.rank; ++i) s += en::fmt(" [%lld,%lld]*%lld/%lld", (long long)b.d[i].min, (long long)b.d[i].max, (long long)b.d[i].stride, (long long)b.d[i].fold);
  return s + "}";
}

inline std::string show(const stmt& s, const char* const* names, int n) {
  node_context ctx;
  for (int i = 0; i < n; ++i) ctx.insert(names[i]);
  std::ostringstream o;
  o << std::tie(s, ctx);
  std::string r = o.str();
  return r;
}

}  // namespace sl

#endif
