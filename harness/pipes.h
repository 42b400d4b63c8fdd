// Pipelines described by value: graphs of stages, schedules for them, a reference for what they compute, and an
// environment that runs them and watches every access.
#ifndef VERIF_PIPES_H
#define VERIF_PIPES_H

#include "buf.h"

#include "slinky/base/thread_pool_impl.h"
#include "slinky/builder/pipeline.h"
#include "slinky/runtime/evaluate.h"

#include <functional>
#include <memory>
#include <optional>
#include <unordered_map>

namespace pp {

using slinky::buffer_expr;
using slinky::buffer_expr_ptr;
using slinky::call_stmt;
using slinky::copy_stmt;
using slinky::dim;
using slinky::eval_config;
using slinky::eval_context;
using slinky::expr;
using slinky::func;
using slinky::index_t;
using slinky::node_context;
using slinky::raw_buffer;
using slinky::var;

constexpr int MAXD = 4;
constexpr int INF = 1 << 20;

inline index_t fdiv(index_t a, index_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }

// The region of one dimension of an input that is needed for the index x of variable v:
// [floor(a*x/div)+lo, floor(a*x/div)+hi], or [lo, hi] without a variable, or all of the input.
// With a second variable y: floor((a*x + a2*y)/div).
struct acc {
  int v, a, div, lo, hi;
  bool full;
  int v2 = -1, a2 = 0;
  int opt = -1;                     // a variable that is only used if the extent of the buffer is not 1
  index_t at(const index_t* vars) const { return v < 0 ? 0 : fdiv(a * vars[v] + (v2 < 0 ? 0 : a2 * vars[v2]), div); }
};
inline acc P(int v, int o = 0) { return {v, 1, 1, o, o, false}; }
inline acc W(int v, int lo, int hi) { return {v, 1, 1, lo, hi, false}; }
inline acc S(int v, int a, int div, int lo, int hi) { return {v, a, div, lo, hi, false}; }
inline acc K(int lo, int hi) { return {-1, 0, 1, lo, hi, false}; }
inline acc V2(int v, int a, int v2, int a2, int off = 0) { return {v, a, 1, off, off, false, v2, a2}; }
// An optional broadcast. one: the extent is 1, the minimum is lo.
inline acc BC(int v, bool one, int lo) {
  acc a = one ? K(lo, lo) : P(v);
  a.opt = v;
  return a;
}
inline acc FULL() { return {-1, 0, 1, 0, 0, true}; }

struct crop1 {
  int lo = -INF, hi = INF;
  bool all() const { return lo == -INF && hi == INF; }
  bool has(index_t i) const { return lo <= i && i <= hi; }
};

struct inp {
  int buf;
  std::vector<acc> a;               // one per dimension of the buffer
  std::vector<crop1> in_crop, out_crop;
  std::vector<std::optional<int>> out_slice;
  bool crop_to_bounds = false;      // input_crop is the input's own bounds (pipeline inputs only)
};
enum kind { CALL, COPY, PAD };
struct stage {
  kind k;
  std::vector<inp> in;
  std::vector<int> out;             // buffers
  std::vector<int> dims;            // variables of the dimensions of the outputs (without the sliced ones)
  bool pure = false;                // the value does not depend on the index
  int in_place = 0;
  int min_rank = 99;
  int helper = 0, helper_dim = 0;   // 1: made by make_concat, 2: by make_concat from the extents of the inputs, 3: by make_stack
  bool flat = false;                // a call named memcpy: the memory of the input is copied to the output, whatever the shapes
};
enum role { IN, OUT, MID, CONST };
struct bufd {
  std::string name;
  int rank, es;
  role r;
  crop1 box[MAXD];                  // constants: the bounds. inputs: the bounds given by the caller if there is FULL access
  bool fixed = false;               // inputs: the bounds are box, whatever is required
  // Constraints on the layout, applied to the buffer_expr.
  int align[MAXD] = {0, 0, 0, 0};   // intermediate: bounds aligned to this
  bool transposed = false;          // intermediate: the last dimension is the innermost
  bool dense = false;               // intermediate: the strides are those of a dense buffer
};

struct graph {
  std::string name;
  std::vector<bufd> bufs;
  std::vector<stage> st;            // producers first
  std::vector<int> outs, ins;
  int nvars = 3;

  int add(role r, int rank, int es) {
    bufd b;
    b.r = r, b.rank = rank, b.es = es;
    b.name = en::fmt("%s%zu", r == IN ? "i" : r == OUT ? "o" : r == MID ? "t" : "k", bufs.size());
    bufs.push_back(b);
    if (r == IN) ins.push_back((int)bufs.size() - 1);
    if (r == OUT) outs.push_back((int)bufs.size() - 1);
    return (int)bufs.size() - 1;
  }
  int in(int rank, int es = 4) { return add(IN, rank, es); }
  int out(int rank, int es = 4) { return add(OUT, rank, es); }
  int mid(int rank, int es = 4) { return add(MID, rank, es); }
  int constant(std::vector<std::pair<int, int>> box, int es = 4) {
    int b = add(CONST, (int)box.size(), es);
    for (size_t d = 0; d < box.size(); ++d) bufs[b].box[d].lo = box[d].first, bufs[b].box[d].hi = box[d].second;
    return b;
  }
  void fix(int b, std::vector<std::pair<int, int>> box) {
    bufs[b].fixed = true;
    for (size_t d = 0; d < box.size(); ++d) bufs[b].box[d].lo = box[d].first, bufs[b].box[d].hi = box[d].second;
  }
  std::vector<int> default_dims(int b) {
    std::vector<int> r;
    for (int d = 0; d < bufs[b].rank; ++d) r.push_back(d);
    return r;
  }
  stage& call(std::vector<int> out, std::vector<inp> in) {
    st.push_back({CALL, in, out, default_dims(out[0])});
    return st.back();
  }
  stage& copy(int out, std::vector<inp> in) {
    st.push_back({COPY, in, {out}, default_dims(out)});
    return st.back();
  }
  stage& pad(int out, inp src, inp p) {
    st.push_back({PAD, {src, p}, {out}, default_dims(out)});
    return st.back();
  }
  int producer(int b) const {
    for (size_t s = 0; s < st.size(); ++s)
      for (int o : st[s].out)
        if (o == b) return (int)s;
    return -1;
  }
};

struct box {
  int rank = 0;
  bool any = false;                 // is anything required?
  index_t lo[MAXD], hi[MAXD];
  bool empty() const {
    if (!any) return true;
    for (int d = 0; d < rank; ++d)
      if (lo[d] > hi[d]) return true;
    return false;
  }
  std::string str() const {
    if (!any) return "none";
    std::string s;
    for (int d = 0; d < rank; ++d) s += en::fmt("[%lld,%lld]", (long long)lo[d], (long long)hi[d]);
    return s.empty() ? "scalar" : s;
  }
};

// What is required of every buffer for the given output boxes.
inline std::vector<box> required(const graph& g, const std::vector<box>& outs) {
  std::vector<box> r(g.bufs.size());
  for (size_t b = 0; b < g.bufs.size(); ++b) r[b].rank = g.bufs[b].rank;
  for (size_t i = 0; i < g.outs.size(); ++i) r[g.outs[i]] = outs[i];
  for (size_t si = g.st.size(); si-- > 0;) {
    const stage& s = g.st[si];
    for (int o : s.out)
      for (int d = 0; d < g.bufs[o].rank; ++d)
        if (int al = r[o].any && g.bufs[o].r == MID ? g.bufs[o].align[d] : 0) {
          r[o].lo[d] = fdiv(r[o].lo[d], al) * al;
          r[o].hi[d] = fdiv(r[o].hi[d] + al, al) * al - 1;
        }
    for (const inp& in : s.in) {
      // The bounds of the variables.
      index_t lo[8], hi[8];
      bool set[8] = {};
      for (int o : s.out) {
        if (!r[o].any) continue;
        int od = 0;
        for (size_t d = 0; d < s.dims.size(); ++d) {
          while (od < (int)in.out_slice.size() && in.out_slice[od]) ++od;
          int v = s.dims[d];
          index_t l = r[o].lo[od], h = r[o].hi[od];
          if (!set[v]) lo[v] = l, hi[v] = h, set[v] = true;
          else lo[v] = std::min(lo[v], l), hi[v] = std::max(hi[v], h);
          ++od;
        }
      }
      bool any = false;
      for (int o : s.out) any |= r[o].any;
      if (!any || (in.a.empty() && g.bufs[in.buf].rank > 0)) continue;
      box b;
      b.rank = g.bufs[in.buf].rank;
      b.any = true;
      for (int d = 0; d < b.rank; ++d) {
        const acc& a = in.a[d];
        if (a.full) {
          b.lo[d] = g.bufs[in.buf].box[d].lo, b.hi[d] = g.bufs[in.buf].box[d].hi;
        } else if (a.v < 0) {
          b.lo[d] = a.lo, b.hi[d] = a.hi;
        } else {
          index_t x = a.a * (a.a < 0 ? hi : lo)[a.v], y = a.a * (a.a < 0 ? lo : hi)[a.v];
          if (a.v2 >= 0) x += a.a2 * (a.a2 < 0 ? hi : lo)[a.v2], y += a.a2 * (a.a2 < 0 ? lo : hi)[a.v2];
          x = fdiv(x, a.div), y = fdiv(y, a.div);
          b.lo[d] = x + a.lo, b.hi[d] = y + a.hi;
        }
        if (in.crop_to_bounds) {
          b.lo[d] = std::max<index_t>(b.lo[d], g.bufs[in.buf].box[d].lo);
          b.hi[d] = std::min<index_t>(b.hi[d], g.bufs[in.buf].box[d].hi);
        } else if (d < (int)in.in_crop.size()) {
          b.lo[d] = std::max<index_t>(b.lo[d], in.in_crop[d].lo);
          b.hi[d] = std::min<index_t>(b.hi[d], in.in_crop[d].hi);
        }
      }
      box& q = r[in.buf];
      if (!q.any) q = b;
      else
        for (int d = 0; d < b.rank; ++d) q.lo[d] = std::min(q.lo[d], b.lo[d]), q.hi[d] = std::max(q.hi[d], b.hi[d]);
    }
  }
  return r;
}

inline uint64_t trunc(uint64_t v, int es) { return es >= 8 ? v : v & ((1ull << (8 * es)) - 1); }

// What the pipeline computes, by definition. Elements that are not defined by a copy have no value.
class reference {
  const graph& g;
  std::vector<std::unordered_map<uint64_t, std::optional<uint64_t>>> memo;
  std::vector<int> prod;

  static uint64_t pack(const index_t* i, int rank) {
    uint64_t k = 0;
    for (int d = 0; d < rank; ++d) k = k * 65536 + (uint64_t)(i[d] + 32768);
    return k;
  }

public:
  reference(const graph& g) : g(g), memo(g.bufs.size()) {
    for (size_t b = 0; b < g.bufs.size(); ++b) prod.push_back(g.producer((int)b));
  }

  template <typename Fn>
  static void access_box(const graph& g, const inp& in, const index_t* vars, const Fn& f) {
    int rank = g.bufs[in.buf].rank;
    index_t lo[MAXD], hi[MAXD], i[MAXD];
    for (int d = 0; d < rank; ++d) {
      const acc& a = in.a[d];
      if (a.full) {
        lo[d] = g.bufs[in.buf].box[d].lo, hi[d] = g.bufs[in.buf].box[d].hi;
      } else {
        index_t x = a.at(vars);
        lo[d] = x + a.lo, hi[d] = x + a.hi;
      }
      if (lo[d] > hi[d]) return;
      i[d] = lo[d];
    }
    while (true) {
      f((const index_t*)i);
      int d = 0;
      for (; d < rank; ++d) {
        if (++i[d] <= hi[d]) break;
        i[d] = lo[d];
      }
      if (d == rank) return;
    }
  }

  static uint64_t call_hash(const graph& g, const stage& s, int si, int k, const index_t* idx) {
    uint64_t h = en::mix(si * 16 + k + 1, 77);
    if (!s.pure)
      for (size_t d = 0; d < s.dims.size(); ++d) h = en::mix(h, (uint64_t)(idx[d] + 1000));
    return h;
  }

  std::optional<uint64_t> get(int b, const index_t* idx) {
    const bufd& bd = g.bufs[b];
    uint64_t key = pack(idx, bd.rank);
    auto it = memo[b].find(key);
    if (it != memo[b].end()) return it->second;
    std::optional<uint64_t> r = compute(b, idx);
    memo[b][key] = r;
    return r;
  }

  uint64_t source(int b, const index_t* idx) {
    uint64_t h = 1000 + b;
    for (int d = 0; d < g.bufs[b].rank; ++d) h = en::mix(h, (uint64_t)(idx[d] + 5000));
    return trunc(h, g.bufs[b].es);
  }

private:
  std::optional<uint64_t> compute(int b, const index_t* idx) {
    const bufd& bd = g.bufs[b];
    if (prod[b] < 0) return source(b, idx);
    int si = prod[b];
    const stage& s = g.st[si];
    index_t vars[8] = {};
    if (s.flat) {
      const bufd& in = g.bufs[s.in[0].buf];
      index_t k = 0, size = 1, i[MAXD];
      for (int d = 0; d < bd.rank; ++d) k += (idx[d] - bd.box[d].lo) * size, size *= bd.box[d].hi - bd.box[d].lo + 1;
      for (int d = 0; d < in.rank; ++d) {
        index_t e = in.box[d].hi - in.box[d].lo + 1;
        i[d] = in.box[d].lo + k % e, k /= e;
      }
      return get(s.in[0].buf, i);
    }
    if (s.k == CALL) {
      for (size_t d = 0; d < s.dims.size(); ++d) vars[s.dims[d]] = idx[d];
      int k = 0;
      while (s.out[k] != b) ++k;
      uint64_t h = call_hash(g, s, si, k, idx);
      bool ok = true;
      for (const inp& in : s.in)
        access_box(g, in, vars, [&](const index_t* i) {
          std::optional<uint64_t> v = get(in.buf, i);
          if (!v) ok = false;
          else h = en::mix(h, *v);
        });
      if (!ok) return std::nullopt;
      return trunc(h, bd.es);
    }
    std::optional<uint64_t> result;
    size_t n = s.k == PAD ? 1 : s.in.size();
    for (size_t j = 0; j < n; ++j) {
      const inp& in = s.in[j];
      bool here = true;
      int od = 0;
      for (int d = 0; d < bd.rank; ++d) {
        if (d < (int)in.out_crop.size() && !in.out_crop[d].has(idx[d])) here = false;
        if (d < (int)in.out_slice.size() && in.out_slice[d]) {
          if (*in.out_slice[d] != idx[d]) here = false;
        } else {
          vars[s.dims[od++]] = idx[d];
        }
      }
      if (!here) continue;
      index_t si_[MAXD];
      bool inside = true;
      for (int d = 0; d < g.bufs[in.buf].rank; ++d) {
        const acc& a = in.a[d];
        si_[d] = a.at(vars) + a.lo;
        if (in.crop_to_bounds) inside &= g.bufs[in.buf].box[d].has(si_[d]);
        else if (d < (int)in.in_crop.size()) inside &= in.in_crop[d].has(si_[d]);
      }
      if (inside) {
        result = get(in.buf, si_);
      } else if (s.k == PAD) {
        const inp& p = s.in[1];
        index_t pi[MAXD];
        for (int d = 0; d < g.bufs[p.buf].rank; ++d) pi[d] = idx[d];
        result = get(p.buf, pi);
      }
    }
    return result;
  }
};

// --- schedules ---
struct loop_s {
  int v, step;
  int workers;                      // 1: serial, 0: any number, else that many
};
struct at_s {
  int stage = -2, loop = 0;         // stage -2: not set, -1: root, else loop number `loop` of that stage
};
struct stage_s {
  std::vector<loop_s> loops;        // innermost first
  at_s compute;
  std::vector<at_s> store;          // per output. stage == own stage: innermost
};
struct sched {
  std::vector<stage_s> st;
};
inline std::string str(const graph& g, const sched& s) {
  std::string r;
  for (size_t i = 0; i < s.st.size(); ++i) {
    r += en::fmt(" s%zu{", i);
    for (const loop_s& l : s.st[i].loops) {
      r += en::fmt("%c/%d", "xyzw"[l.v], l.step);
      if (l.workers != 1) r += en::fmt("w%d", l.workers);
      r += ' ';
    }
    auto at = [&](const char* n, const at_s& a) {
      if (a.stage == -2) return std::string();
      if (a.stage == -1) return en::fmt("%s@root ", n);
      if (a.stage == (int)i) return en::fmt("%s@inner ", n);
      return en::fmt("%s@s%d.%c ", n, a.stage, "xyzw"[s.st[a.stage].loops[a.loop].v]);
    };
    r += at("c", s.st[i].compute);
    for (const at_s& a : s.st[i].store) r += at("m", a);
    if (r.back() == ' ') r.pop_back();
    r += "}";
  }
  return r;
}

// All schedules of a graph, given the loops to try for each stage.
inline std::vector<sched> schedules(const graph& g, const std::vector<std::vector<std::vector<loop_s>>>& loops, bool stores = true) {
  struct node {
    int parent;
    at_s at;
  };
  std::vector<sched> result;
  int n = (int)g.st.size();
  sched cur;
  cur.st.resize(n);
  std::vector<std::vector<int>> consumers(n);
  for (int s = 0; s < n; ++s)
    for (const inp& i : g.st[s].in) {
      int p = g.producer(i.buf);
      if (p >= 0) consumers[p].push_back(s);
    }
  std::function<void(int, std::vector<node>, std::vector<int>)> rec = [&](int s, std::vector<node> tree, std::vector<int> inner) {
    if (s < 0) {
      result.push_back(cur);
      return;
    }
    auto path_to = [&](int x) {
      std::vector<int> p;
      for (; x >= 0; x = tree[x].parent) p.push_back(x);
      std::reverse(p.begin(), p.end());
      return p;
    };
    std::vector<int> path = {0};
    if (!consumers[s].empty()) {
      path = path_to(inner[consumers[s][0]]);
      for (int c : consumers[s]) {
        std::vector<int> q = path_to(inner[c]);
        size_t k = 0;
        while (k < path.size() && k < q.size() && path[k] == q[k]) ++k;
        path.resize(k);
      }
    }
    bool is_out = consumers[s].empty();
    for (const std::vector<loop_s>& l : loops[s]) {
      cur.st[s].loops = l;
      for (size_t c = 0; c < path.size(); ++c) {
        bool deepest = c + 1 == path.size();
        cur.st[s].compute = is_out || deepest ? at_s() : tree[path[c]].at;
        // Where the outputs may be stored.
        std::vector<at_s> where = {at_s()};
        if (!is_out && stores)
          for (size_t k = 1; k <= c; ++k) {
            if (k == c) where.push_back({s, 0});
            else where.push_back(tree[path[k]].at);
          }
        std::vector<node> t2 = tree;
        std::vector<int> in2 = inner;
        int parent = path[c];
        for (int k = (int)l.size() - 1; k >= 0; --k) {
          t2.push_back({parent, {s, k}});
          parent = (int)t2.size() - 1;
        }
        in2[s] = parent;
        for (const at_s& w : where) {
          cur.st[s].store.assign(g.st[s].out.size(), w);
          rec(s - 1, t2, in2);
        }
      }
    }
  };
  std::vector<node> tree = {{-1, {-1, 0}}};
  rec(n - 1, tree, std::vector<int>(n, 0));
  return result;
}

struct options {
  bool no_checks = false, no_alias = false, trace = false;
  slinky::memory_type storage = slinky::memory_type::heap;
  bool separate_vars = false;       // every stage has its own variables
  // Constants of accesses and crops are written in terms of 1: an argument, 2: a let of an argument, 3: a let of the
  // metadata of a buffer. +4: also the steps of loops. Calls have scalars, too.
  int args = 0;
  bool unfolded = false;            // the inputs and outputs are declared to be unfolded
};
constexpr index_t arg_value = 3;
constexpr index_t let_value = 5;
inline std::string str(const options& o) {
  return en::fmt("%s%s%s%s%s", o.no_checks ? " no_checks" : "", o.no_alias ? " no_alias" : "", o.trace ? " trace" : "",
      o.storage == slinky::memory_type::stack ? " stack" : o.storage == slinky::memory_type::automatic ? " auto" : "",
      o.separate_vars ? " sepvars" : "") + (o.unfolded ? " unfolded" : "") + (o.args ? en::fmt(" args%d", o.args) : "");
}

struct env;

struct built {
  node_context ctx;
  std::vector<buffer_expr_ptr> bufs;
  std::vector<std::unique_ptr<func>> funcs;
  std::vector<var> vars;
  slinky::pipeline p;
  env* e = nullptr;
  bool traced = false;
  int args = 0;
  var arg, let;

  index_t call(const graph& g, int si, const call_stmt* op, eval_context& ctx);
  void copy(const graph& g, int si, const raw_buffer& src, const raw_buffer& dst, const raw_buffer& pad);
};

// A pipeline refers to g and to itself.
inline std::unique_ptr<built> build(const graph& g, const sched& sc, const options& o,
    const std::function<void(built&)>& constrain = nullptr) {
  using namespace slinky;
  auto b = std::make_unique<built>();
  std::vector<std::vector<var>> vars(g.st.size());
  const char* names[] = {"x", "y", "z", "w"};
  for (int v = 0; v < g.nvars; ++v) b->vars.push_back(var(b->ctx, names[v]));
  b->args = o.args;
  if (o.args) b->arg = var(b->ctx, "n"), b->let = var(b->ctx, "m");
  auto cst = [&](int c, bool step = false) -> expr {
    if (!o.args || c == INF || c == -INF || (step && o.args < 4)) return c;
    return (o.args & 3) == 1 ? b->arg + (c - arg_value) : b->let + (c - let_value);
  };
  for (size_t s = 0; s < g.st.size(); ++s)
    for (int v = 0; v < g.nvars; ++v) vars[s].push_back(o.separate_vars ? var(b->ctx, en::fmt("%s_%zu", names[v], s)) : b->vars[v]);
  reference ref(g);
  for (size_t i = 0; i < g.bufs.size(); ++i) {
    const bufd& d = g.bufs[i];
    if (d.r == CONST) {
      slinky::dim dims[MAXD];
      raw_buffer shape;
      shape.base = nullptr;
      shape.elem_size = d.es;
      shape.rank = d.rank;
      shape.dims = dims;
      index_t stride = d.es;
      for (int k = 0; k < d.rank; ++k) {
        dims[k] = slinky::dim(d.box[k].lo, d.box[k].hi, stride);
        stride *= d.box[k].hi - d.box[k].lo + 1;
      }
      auto c = raw_buffer::make(d.rank, d.es, dims);
      bf::each_index(*c, d.rank, [&](const index_t* idx) {
        uint64_t v = ref.source((int)i, idx);
        memcpy(bf::address(*c, idx, d.rank), &v, d.es);
      });
      b->bufs.push_back(buffer_expr::make_constant(b->ctx, d.name, const_raw_buffer_ptr(c)));
    } else {
      b->bufs.push_back(buffer_expr::make(b->ctx, d.name, d.rank, d.es));
      if (o.unfolded && d.r != MID)
        for (int k = 0; k < d.rank; ++k) b->bufs.back()->dim(k).fold_factor = dim::unfolded;
      if (d.r == MID) {
        b->bufs.back()->store_in(o.storage);
        for (int k = 0; k < d.rank; ++k)
          if (d.align[k]) {
            auto& e = b->bufs.back()->dim(k);
            e.bounds = {align_down(e.bounds.min, d.align[k]), align_up(e.bounds.max + 1, d.align[k]) - 1};
          }
        if (d.transposed || d.dense) {
          expr stride = d.es;
          for (int j = 0; j < d.rank; ++j) {
            int k = d.dense ? j : d.rank - 1 - j;
            b->bufs.back()->dim(k).stride = stride;
            stride = stride * b->bufs.back()->dim(k).extent();
          }
        }
      }
    }
  }
  if (constrain) constrain(*b);
  built* bp = b.get();
  for (size_t si = 0; si < g.st.size(); ++si) {
    const stage& s = g.st[si];
    std::vector<func::input> ins;
    for (size_t j = 0; j < s.in.size(); ++j) {
      const inp& in = s.in[j];
      func::input f;
      f.buffer = b->bufs[in.buf];
      for (int d = 0; d < (int)in.a.size(); ++d) {
        const acc& a = in.a[d];
        if (a.full) {
          f.bounds.push_back(b->bufs[in.buf]->dim(d).bounds);
        } else if (a.opt >= 0) {
          const auto& e = b->bufs[in.buf]->dim(d);
          f.bounds.push_back(select(e.extent() == 1, point(e.min()), point(vars[si][a.opt])));
        } else if (a.v < 0) {
          f.bounds.push_back(a.lo == a.hi ? point(cst(a.lo)) : bounds(cst(a.lo), cst(a.hi)));
        } else {
          expr x = vars[si][a.v];
          if (a.a != 1) x = x * a.a;
          if (a.v2 >= 0) x = x + vars[si][a.v2] * a.a2;
          if (a.div != 1) x = x / a.div;
          f.bounds.push_back(a.lo == a.hi ? point(a.lo ? x + cst(a.lo) : x) : bounds(x + cst(a.lo), x + cst(a.hi)));
        }
      }
      auto crop = [&](const std::vector<crop1>& c) {
        box_expr r;
        for (const crop1& i : c) r.push_back(i.all() ? interval_expr() : bounds(cst(i.lo), cst(i.hi)));
        return r;
      };
      f.input_crop = in.crop_to_bounds ? b->bufs[in.buf]->bounds() : crop(in.in_crop);
      f.output_crop = crop(in.out_crop);
      for (const std::optional<int>& i : in.out_slice) f.output_slice.push_back(i ? cst(*i) : expr());
      ins.push_back(std::move(f));
    }
    std::vector<func::output> outs;
    for (int ob : s.out) {
      func::output f;
      f.buffer = b->bufs[ob];
      for (int v : s.dims) f.dims.push_back(vars[si][v]);
      outs.push_back(std::move(f));
    }
    auto copy_impl = [bp, &g, si](const raw_buffer& src, const raw_buffer& dst, const raw_buffer& pad) {
      bp->copy(g, (int)si, src, dst, pad);
    };
    if (s.k == CALL) {
      call_stmt::attributes attrs;
      attrs.name = s.flat ? "memcpy" : en::fmt("s%zu", si);
      attrs.allow_in_place = s.in_place;
      if (s.min_rank != 99) attrs.min_rank = s.min_rank;
      b->funcs.push_back(std::make_unique<func>(
          [bp, &g, si](const call_stmt* op, eval_context& ctx) -> index_t { return bp->call(g, (int)si, op, ctx); },
          std::move(ins), std::move(outs), o.args ? std::vector<expr>{cst((int)si), b->arg * 2, b->let} : std::vector<expr>{}, attrs));
    } else if (s.helper) {
      int n = s.helper_dim;
      std::vector<buffer_expr_ptr> src;
      std::vector<expr> edges = {0};
      for (const inp& in : s.in) {
        src.push_back(b->bufs[in.buf]);
        if (s.helper == 1) edges.push_back(cst(in.out_crop[n].hi + 1));
        if (s.helper == 2) edges.push_back(edges.back() + src.back()->dim(n).extent());
      }
      if (s.helper == 3) {
        outs[0].dims.clear();
        for (int d = 0; d < g.bufs[s.out[0]].rank; ++d) outs[0].dims.push_back(vars[si][d]);
        b->funcs.push_back(std::make_unique<func>(func::make_stack(src, outs[0], n, copy_impl)));
      } else {
        b->funcs.push_back(std::make_unique<func>(func::make_concat(src, outs[0], n, edges, copy_impl)));
      }
    } else if (s.k == COPY) {
      b->funcs.push_back(std::make_unique<func>(func::make_copy(std::move(ins), outs[0], copy_impl)));
    } else {
      b->funcs.push_back(std::make_unique<func>(func::make_copy(ins[0], outs[0], ins[1], copy_impl)));
    }
  }
  for (size_t si = 0; si < g.st.size() && !sc.st.empty(); ++si) {
    const stage_s& ss = sc.st[si];
    func& f = *b->funcs[si];
    std::vector<func::loop_info> ls;
    for (const loop_s& l : ss.loops)
      ls.emplace_back(vars[si][l.v], cst(l.step, true), l.workers == 1 ? expr(loop::serial) : l.workers == 0 ? expr(loop::parallel) : expr(l.workers));
    f.loops(ls);
    auto id = [&](const at_s& a) {
      if (a.stage == -1) return loop_id();
      if (a.stage == (int)si) return loop_id{&f, var()};
      return loop_id{b->funcs[a.stage].get(), vars[a.stage][sc.st[a.stage].loops[a.loop].v]};
    };
    if (ss.compute.stage != -2) f.compute_at(id(ss.compute));
    for (size_t k = 0; k < ss.store.size(); ++k)
      if (ss.store[k].stage != -2 && g.bufs[g.st[si].out[k]].r == MID) b->bufs[g.st[si].out[k]]->store_at(id(ss.store[k]));
  }
  std::vector<buffer_expr_ptr> ins, outs;
  for (int i : g.ins) ins.push_back(b->bufs[i]);
  for (int i : g.outs) outs.push_back(b->bufs[i]);
  build_options bo;
  bo.no_checks = o.no_checks;
  bo.no_alias_buffers = o.no_alias;
  bo.trace = o.trace;
  b->traced = o.trace;
  if (o.args) {
    expr value = b->arg + (let_value - arg_value);
    if ((o.args & 3) == 3 && !ins.empty())
      value = slinky::buffer_elem_size(ins[0]->sym()) + b->arg + (let_value - arg_value - (index_t)g.bufs[g.ins[0]].es);
    b->p = build_pipeline(b->ctx, {b->arg}, ins, outs, {{b->let, value}}, bo);
  } else {
    b->p = build_pipeline(b->ctx, ins, outs, bo);
  }
  return b;
}

// --- running ---
struct region {
  char *lo, *hi;
  int kind;                         // 0: input, 1: output, 2: allocation, 3: freed allocation, 4: constant
};
struct allocation {
  char* mem;
  size_t size;
  bool live;
};

struct layout_s {
  int pad = 0;                      // bytes after each dimension, in elements
  int margin = 0;                   // inputs have this many more elements on each side
  bool reversed = false;            // the last dimension is innermost
};

struct env {
  const graph& g;
  reference& ref;
  std::vector<region> regions;
  std::vector<allocation> allocs;
  std::vector<char*> blocks;
  char* stack_hi = nullptr;
  bool threads = false;             // do not judge addresses on the stack
  int calls = 0, copies = 0;
  std::vector<int> stage_calls;
  int failed_calls = 0, failed_checks = 0;
  int traces = 0;
  std::vector<index_t> open_traces;
  std::vector<std::string> open_names;
  bool traced = false;
  // Faults: the n-th call, allocation fails.
  int fail_call = -1, fail_alloc = -1;
  bool fail_after = false;          // all of the following calls fail, too
  int alloc_count = 0, freed = 0;
  int failures = 0;                 // calls that failed
  int after_failure = 0;            // calls after a failure
  bool has_failed = false;
  std::vector<int> call_log;
  // Violations.
  struct violation {
    int kind;
    std::string what;
  };
  std::vector<violation> bad;
  enum { OUTPUT = 1, READ = 2, ADDRESS = 4, INPUT = 8, MEMORY = 16, RESULT = 32, SHAPE = 64, TRACE = 128 };

  env(const graph& g, reference& ref) : g(g), ref(ref) { stage_calls.resize(g.st.size()); }
  ~env() {
    for (allocation& a : allocs) free(a.mem);
    for (char* b : blocks) free(b);
  }

  void fail(int kind, const std::string& what) {
    if (bad.size() < 20) bad.push_back({kind, what});
  }

  bool owned(const char* p, int es, bool write, std::string& why) const {
    for (const region& r : regions)
      if (r.lo <= p && p + es <= r.hi) {
        if (write && r.kind == 0) why = "a caller's input";
        else if (write && r.kind == 4) why = "a constant";
        else if (r.kind == 3) why = "a freed allocation";
        else return true;
        return false;
      }
    if (threads) return true;
    if ((char*)__builtin_frame_address(0) <= p && p < stack_hi) return true;
    if (getenv("DBG2")) { fprintf(stderr, "addr %p in", (void*)p); for (auto& r : regions) fprintf(stderr, " [%p,%p)%d", (void*)r.lo, (void*)r.hi, r.kind); fprintf(stderr, "\n"); }
    why = "memory it does not own";
    return false;
  }

  void* allocate(var sym, raw_buffer* b) {
    int n = alloc_count++;
    if (n == fail_alloc && b->elem_count() > 0) {
      has_failed = true;
      b->base = nullptr;
      return nullptr;
    }
    std::optional<size_t> size = b->init_strides(1);
    if (!size) return nullptr;
    constexpr size_t G = 64;
    char* mem = (char*)malloc(*size + 2 * G);
    memset(mem, 0xA5, *size + 2 * G);
    for (size_t i = 0; i < *size; ++i) mem[G + i] = (char)(0xC0 + (n * 7 + i) % 37);
    allocs.push_back({mem, *size, true});
    regions.push_back({mem + G, mem + G + *size, 2});
    b->base = mem + G - b->min_offset_bytes();
    return mem;
  }
  void release(void* a) {
    constexpr size_t G = 64;
    for (allocation& i : allocs) {
      if (i.mem != a) continue;
      if (!i.live) {
        fail(MEMORY, "an allocation is freed twice");
        return;
      }
      i.live = false;
      ++freed;
      for (size_t k = 0; k < G; ++k)
        if ((unsigned char)i.mem[k] != 0xA5 || (unsigned char)i.mem[G + i.size + k] != 0xA5) {
          fail(ADDRESS, "memory next to an allocation was written");
          break;
        }
      memset(i.mem, 0xDD, i.size + 2 * G);
      for (region& r : regions)
        if (r.kind == 2 && r.lo == i.mem + G) r.kind = 3;
      return;
    }
    fail(MEMORY, a ? "something that was never allocated is freed" : "null is freed");
  }
};

inline index_t built::call(const graph& g, int si, const call_stmt* op, eval_context& ctx) {
  const stage& s = g.st[si];
  env& en = *e;
  int n = __atomic_fetch_add(&en.calls, 1, __ATOMIC_SEQ_CST);
  __atomic_fetch_add(&en.stage_calls[si], 1, __ATOMIC_SEQ_CST);
  if (en.has_failed) ++en.after_failure;
  if (en.traced && (en.open_names.empty() || en.open_names.back() != (s.flat ? "memcpy" : "s" + std::to_string(si)))) en.fail(env::TRACE, "a call is not traced");
  if (n == en.fail_call || (en.fail_after && n > en.fail_call)) {
    en.has_failed = true;
    __atomic_fetch_add(&en.failures, 1, __ATOMIC_SEQ_CST);
    if (!en.threads) en.call_log.push_back(-1 - si);
    return 7;
  }
  if (!en.threads) en.call_log.push_back(si);
  if (op->inputs.size() != s.in.size() || op->outputs.size() != s.out.size()) {
    en.fail(env::ADDRESS, en::fmt("stage %d is called with %zu inputs and %zu outputs", si, op->inputs.size(), op->outputs.size()));
    return 0;
  }
  if (args) {
    const index_t want[3] = {si, 2 * arg_value, let_value};
    for (int i = 0; i < 3; ++i)
      if (op->scalars.size() != 3 || evaluate(op->scalars[i], ctx) != want[i]) en.fail(env::READ, en::fmt("stage %d gets a wrong scalar %d", si, i));
  }
  const raw_buffer* ib[8];
  for (size_t j = 0; j < s.in.size(); ++j) {
    ib[j] = ctx.lookup_buffer(op->inputs[j]);
    if (!ib[j]) {
      en.fail(env::ADDRESS, en::fmt("stage %d has no input %zu", si, j));
      return 0;
    }
    if (ib[j]->elem_size != (size_t)g.bufs[s.in[j].buf].es) {
      en.fail(env::ADDRESS, en::fmt("stage %d: input %zu has element size %d", si, j, (int)ib[j]->elem_size));
      return 0;
    }
  }
  if (s.flat) {
    const raw_buffer *a = ib[0], *o = ctx.lookup_buffer(op->outputs[0]);
    int es = g.bufs[s.out[0]].es, ar = g.bufs[s.in[0].buf].rank, orank = g.bufs[s.out[0]].rank;
    if (!o || o->elem_size != (size_t)es) {
      en.fail(env::ADDRESS, en::fmt("stage %d has no output or one of the wrong element size", si));
      return 0;
    }
    for (const raw_buffer* r : {a, o}) {
      size_t n = es;
      for (size_t d = 0; d < r->rank; ++d) n *= r->dim(d).extent();
      if (n != r->size_bytes()) {
        en.fail(env::ADDRESS, en::fmt("stage %d copies the memory of %s, which is not dense", si, bf::str(*r).c_str()));
        return 0;
      }
    }
    if (a->size_bytes() != o->size_bytes()) {
      en.fail(env::ADDRESS, en::fmt("stage %d copies the memory of %s to %s", si, bf::str(*a).c_str(), bf::str(*o).c_str()));
      return 0;
    }
    std::string why;
    if (!en.owned((char*)a->base, a->size_bytes(), false, why) || !en.owned((char*)o->base, o->size_bytes(), a->base != o->base, why)) {
      en.fail(env::ADDRESS, en::fmt("stage %d copies memory from or to %s", si, why.c_str()));
      return 0;
    }
    bf::each_index(*a, ar, [&](const index_t* i) {
      uint64_t v = 0;
      memcpy(&v, bf::address(*a, i, ar), es);
      std::optional<uint64_t> want = en.ref.get(s.in[0].buf, i);
      if (want && *want != v) en.fail(env::READ, en::fmt("stage %d reads a wrong value at %s", si, bf::str(i, ar).c_str()));
    });
    (void)orank;
    memmove(o->base, a->base, a->size_bytes());
    return 0;
  }
  struct write {
    char* p;
    uint64_t v;
    int es;
  };
  std::vector<write> writes;
  for (size_t k = 0; k < s.out.size(); ++k) {
    const raw_buffer* ob = ctx.lookup_buffer(op->outputs[k]);
    int es = g.bufs[s.out[k]].es, rank = g.bufs[s.out[k]].rank;
    if (!ob || ob->elem_size != (size_t)es) {
      en.fail(env::ADDRESS, en::fmt("stage %d has no output %zu or one of the wrong element size", si, k));
      return 0;
    }
    if ((int)ob->rank > rank) {
      en.fail(env::ADDRESS, en::fmt("stage %d: output %zu has rank %d", si, k, (int)ob->rank));
      return 0;
    }
    bool sliced = (int)ob->rank < rank;
    if (sliced && s.min_rank > (int)ob->rank) {
      // Trailing dimensions of stride 0 are dropped by make_buffer.
      sliced = true;
    }
    bool stop = false;
    bf::each_index(*ob, rank, [&](const index_t* idx) {
      if (stop) return;
      index_t vars[8] = {};
      for (size_t d = 0; d < s.dims.size(); ++d) vars[s.dims[d]] = idx[d];
      uint64_t h = reference::call_hash(g, s, si, (int)k, idx);
      for (size_t j = 0; j < s.in.size() && !stop; ++j) {
        int ies = g.bufs[s.in[j].buf].es, irank = g.bufs[s.in[j].buf].rank;
        reference::access_box(g, s.in[j], vars, [&](const index_t* i) {
          if (stop) return;
          if (!bf::contains(*ib[j], i, irank)) {
            en.fail(env::ADDRESS, en::fmt("stage %d needs %s of input %zu to compute %s, but gets %s", si, bf::str(i, irank).c_str(), j,
                                      bf::str(idx, rank).c_str(), bf::str(*ib[j]).c_str()));
            stop = true;
            return;
          }
          const char* p = bf::address(*ib[j], i, irank);
          std::string why;
          if (!en.owned(p, ies, false, why)) {
            en.fail(env::ADDRESS, en::fmt("stage %d reads %s of input %zu from %s (%s)", si, bf::str(i, irank).c_str(), j, why.c_str(),
                                      bf::str(*ib[j]).c_str()));
            stop = true;
            return;
          }
          uint64_t v = 0;
          memcpy(&v, p, ies);
          if (!sliced && (int)ib[j]->rank == irank) {
            std::optional<uint64_t> want = en.ref.get(s.in[j].buf, i);
            if (want && *want != v) {
              en.fail(env::READ, en::fmt("stage %d reads a wrong value at %s of input %zu to compute %s", si, bf::str(i, irank).c_str(), j,
                                     bf::str(idx, rank).c_str()));
            }
          }
          h = en::mix(h, v);
        });
      }
      if (stop) return;
      char* p = bf::address(*ob, idx, rank);
      std::string why;
      if (!en.owned(p, es, true, why)) {
        en.fail(why[0] == 'a' && why[2] == 'c' ? env::INPUT : env::ADDRESS,
            en::fmt("stage %d writes %s of output %zu (%s) to %s", si, bf::str(idx, rank).c_str(), k, bf::str(*ob).c_str(), why.c_str()));
        stop = true;
        return;
      }
      if (s.out.size() == 1 && s.in_place) memcpy(p, &h, es);
      else writes.push_back({p, h, es});
    });
  }
  for (const write& w : writes) memcpy(w.p, &w.v, w.es);
  return 0;
}

inline void built::copy(const graph& g, int si, const raw_buffer& src, const raw_buffer& dst, const raw_buffer& pad) {
  env& en = *e;
  __atomic_fetch_add(&en.copies, 1, __ATOMIC_SEQ_CST);
  if (en.has_failed) ++en.after_failure;
  if (!en.threads) en.call_log.push_back(si);
  int es = g.bufs[g.st[si].out[0]].es;
  if (dst.elem_size != (size_t)es || src.elem_size != (size_t)es) {
    en.fail(env::ADDRESS, en::fmt("stage %d: a copy of element size %d to %d", si, (int)src.elem_size, (int)dst.elem_size));
    return;
  }
  bool stop = false;
  size_t rank = std::max(src.rank, dst.rank);
  // Where the source is entirely out of bounds, the padding (a constant) may be the source.
  bool from_padding = g.st[si].k == PAD && !pad.base;
  bf::each_index(dst, rank, [&](const index_t* i) {
    if (stop) return;
    std::string why;
    if (!en.owned(bf::address(dst, i, rank), es, true, why)) {
      en.fail(why[0] == 'a' && why[2] == 'c' ? env::INPUT : env::ADDRESS,
          en::fmt("the copy of stage %d writes %s to %s", si, bf::str(i, rank).c_str(), why.c_str()));
      stop = true;
    } else if (src.base && !from_padding && bf::contains(src, i, rank) && !en.owned(bf::address(src, i, rank), es, false, why)) {
      en.fail(env::ADDRESS, en::fmt("the copy of stage %d reads %s from %s", si, bf::str(i, rank).c_str(), why.c_str()));
      stop = true;
    } else if (!pad.base && !bf::contains(src, i, rank)) {
      // The copy would be undefined.
      en.fail(env::READ, en::fmt("the copy of stage %d to %s reads %s of %s without padding", si, bf::str(dst).c_str(), bf::str(i, rank).c_str(), bf::str(src).c_str()));
      stop = true;
    }
  });
  if (stop) return;
  slinky::copy(src, dst, pad);
}

// A buffer of the caller.
struct caller_buffer {
  bf::B b;
  std::vector<char> shape_before;   // copy of the raw_buffer and dims
  char *lo, *hi;
  std::vector<char> bytes;          // before
  raw_buffer raw_before;
  dim dims_before[bf::MAXR];
};

inline void make_buffer(env& e, caller_buffer& c, int buf, const box& bx, const layout_s& l, int kind) {
  const bufd& bd = e.g.bufs[buf];
  int rank = bd.rank;
  index_t stride = bd.es, size = bd.es;
  c.b.b.elem_size = bd.es;
  c.b.b.rank = rank;
  index_t lo[MAXD], hi[MAXD];
  for (int k = 0; k < rank; ++k) {
    int d = l.reversed ? rank - 1 - k : k;
    lo[d] = bx.any ? bx.lo[d] : 0, hi[d] = bx.any ? bx.hi[d] : -1;
    if (kind == 0 && !bd.fixed) lo[d] -= l.margin, hi[d] += l.margin;
    index_t ext = std::max<index_t>(0, hi[d] - lo[d] + 1);
    c.b.dims[d] = dim(lo[d], hi[d], stride);
    size = stride * std::max<index_t>(1, ext);
    stride = stride * std::max<index_t>(1, ext) + l.pad * bd.es;
  }
  constexpr size_t G = 32;
  char* mem = (char*)malloc(size + 2 * G);
  e.blocks.push_back(mem);
  memset(mem, kind == 0 ? 0x5A : 0x3C, size + 2 * G);
  c.b.b.base = mem + G;
  c.lo = mem;
  c.hi = mem + size + 2 * G;
  if (kind == 0)
    bf::each_index(c.b.b, rank, [&](const index_t* i) {
      uint64_t v = e.ref.source(buf, i);
      memcpy(bf::address(c.b.b, i, rank), &v, bd.es);
    });
  e.regions.push_back({mem + G, mem + G + size, kind});
  c.bytes.assign(c.lo, c.hi);
  c.raw_before = c.b.b;
  memcpy((void*)c.dims_before, (void*)c.b.dims, sizeof(c.dims_before));
}

struct run_options {
  layout_s in, out;
  int stack_threshold = 4096;
  slinky::thread_pool* pool = nullptr;
  bool threads = false;
  int fail_call = -1, fail_alloc = -1;
  bool fail_after = false;
  bool expect_failure = false;
  // Changes to the arguments: called before the run; returns false to leave them.
  std::function<void(std::vector<const raw_buffer*>&, std::vector<const raw_buffer*>&)> mutate;
};

// Runs the pipeline; violations are in e.bad.
inline index_t run(env& e, built& b, const std::vector<box>& outs, const run_options& o) {
  const graph& g = e.g;
  std::vector<box> req = required(g, outs);
  std::vector<caller_buffer> in(g.ins.size()), out(g.outs.size());
  std::vector<const raw_buffer*> ip, op;
  for (size_t i = 0; i < g.ins.size(); ++i) {
    box bx = req[g.ins[i]];
    const bufd& bd = g.bufs[g.ins[i]];
    if (bd.fixed) {
      bx.any = true;
      for (int d = 0; d < bd.rank; ++d) bx.lo[d] = bd.box[d].lo, bx.hi[d] = bd.box[d].hi;
    }
    make_buffer(e, in[i], g.ins[i], bx, o.in, 0);
    ip.push_back(&in[i].b.b);
  }
  for (size_t i = 0; i < g.outs.size(); ++i) {
    make_buffer(e, out[i], g.outs[i], outs[i], o.out, 1);
    op.push_back(&out[i].b.b);
  }
  for (size_t i = 0; i < g.bufs.size(); ++i)
    if (g.bufs[i].r == CONST) {
      const raw_buffer& c = *b.bufs[i]->constant();
      e.regions.push_back({(char*)c.base, (char*)c.base + c.size_bytes(), 4});
    }
  if (o.mutate) o.mutate(ip, op);
  eval_config cfg;
  cfg.allocate = [&](var s, raw_buffer* r) { return e.allocate(s, r); };
  cfg.free = [&](var, raw_buffer*, void* a) { e.release(a); };
  cfg.call_failed = [&](const call_stmt*) { ++e.failed_calls; };
  cfg.check_failed = [&](const expr&) { ++e.failed_checks, e.has_failed = true; };
  cfg.trace_begin = [&](const char* s) -> index_t {
    index_t id = ++e.traces;
    e.open_traces.push_back(id);
    e.open_names.push_back(s);
    return id;
  };
  cfg.trace_end = [&](index_t id) {
    if (e.open_traces.empty() || e.open_traces.back() != id) e.fail(env::TRACE, "trace_end does not match the last trace_begin");
    else e.open_traces.pop_back(), e.open_names.pop_back();
  };
  cfg.thread_pool = o.pool;
  cfg.auto_stack_threshold = o.stack_threshold;
  e.fail_call = o.fail_call;
  e.fail_alloc = o.fail_alloc;
  e.fail_after = o.fail_after;
  e.threads = o.threads;
  e.traced = b.traced;
  e.stack_hi = (char*)__builtin_frame_address(0);
  b.e = &e;
  eval_context ctx;
  ctx.config = &cfg;
  const index_t args[1] = {arg_value};
  index_t result = b.p.evaluate(slinky::pipeline::scalars(args, b.args ? 1 : 0), slinky::pipeline::buffers(ip.data(), ip.size()), slinky::pipeline::buffers(op.data(), op.size()), ctx);
  b.e = nullptr;

  for (allocation& a : e.allocs)
    if (a.live) {
      e.fail(env::MEMORY, "an allocation is never freed");
      break;
    }
  for (size_t i = 0; i < in.size(); ++i) {
    if (memcmp(in[i].lo, in[i].bytes.data(), in[i].bytes.size())) e.fail(env::INPUT, en::fmt("input %zu was modified", i));
    if (memcmp((void*)in[i].dims_before, (void*)in[i].b.dims, sizeof(in[i].dims_before)) || in[i].raw_before.base != in[i].b.b.base ||
        in[i].raw_before.rank != in[i].b.b.rank)
      e.fail(env::SHAPE, en::fmt("the shape of input %zu was changed", i));
  }
  for (size_t i = 0; i < out.size(); ++i) {
    if (memcmp((void*)out[i].dims_before, (void*)out[i].b.dims, sizeof(out[i].dims_before)) || out[i].raw_before.base != out[i].b.b.base ||
        out[i].raw_before.rank != out[i].b.b.rank)
      e.fail(env::SHAPE, en::fmt("the shape of output %zu was changed", i));
    // Elements, and what is between them.
    int buf = g.outs[i], rank = g.bufs[buf].rank, es = g.bufs[buf].es;
    bool ok = true;
    bf::each_index(out[i].b.b, rank, [&](const index_t* idx) {
      char* p = bf::address(out[i].b.b, idx, rank);
      if (result == 0 && ok) {
        std::optional<uint64_t> want = e.ref.get(buf, idx);
        uint64_t v = 0;
        memcpy(&v, p, es);
        if (want && *want != v) {
          e.fail(env::OUTPUT, en::fmt("output %zu is wrong at %s", i, bf::str(idx, rank).c_str()));
          ok = false;
        }
      }
      memset(p, 0x3C, es);
    });
    if (memcmp(out[i].lo, out[i].bytes.data(), out[i].bytes.size())) e.fail(env::ADDRESS, en::fmt("memory around the elements of output %zu was modified", i));
  }
  if (!e.open_traces.empty()) e.fail(env::TRACE, "a trace_begin is not matched by a trace_end");
  if (result != 0 && !o.expect_failure) e.fail(env::RESULT, en::fmt("the run fails with %lld", (long long)result));
  if (result == 0 && o.expect_failure) e.fail(env::RESULT, "the run succeeds");
  return result;
}

}  // namespace pp

#endif
