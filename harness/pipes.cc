// Pipelines: every schedule of a list of graphs, with every build option, over several output shapes and layouts, compared
// with the definition of the graph while all accesses are watched.
// PROP_C04: schedules of computations. PROP_C06: the accesses made by the same. PROP_C07: copies and in-place computation.
#include "pipes.h"

#include <csignal>
#include <unistd.h>

using namespace pp;

#if defined(PROP_C06)
#define PROP "C06"
static const int JUDGED = env::READ | env::ADDRESS | env::MEMORY | env::RESULT;
#elif defined(PROP_C18)
#define PROP "C18"
static const int JUDGED = env::OUTPUT | env::READ | env::ADDRESS | env::MEMORY | env::RESULT | env::INPUT | env::SHAPE;
#elif defined(PROP_C17)
#define PROP "C17"
static const int JUDGED = env::OUTPUT | env::READ | env::ADDRESS | env::MEMORY | env::RESULT | env::INPUT | env::SHAPE;
#elif defined(PROP_C20)
#define PROP "C20"
#define PROP_C17
static const int JUDGED = env::OUTPUT | env::RESULT | env::TRACE;
#elif defined(PROP_C07)
#define PROP "C07"
static const int JUDGED = env::OUTPUT | env::READ | env::INPUT | env::RESULT | env::ADDRESS;
#else
#define PROP "C04"
static const int JUDGED = env::OUTPUT | env::RESULT;
#endif

namespace {

struct run_spec {
  std::vector<box> outs;
  layout_s in, out;
  int stack_threshold;
};
struct group {
  std::shared_ptr<graph> g;
  std::vector<sched> scheds;
  std::vector<options> opts;
  std::vector<run_spec> runs;
};

std::string str(const std::vector<box>& b) {
  std::string s;
  for (const box& i : b) s += " " + i.str();
  return s;
}
std::string str(const run_spec& r) {
  return en::fmt("out%s layout %d%d%d/%d%d%d t%d", str(r.outs).c_str(), r.in.pad, r.in.margin, r.in.reversed, r.out.pad, r.out.margin,
      r.out.reversed, r.stack_threshold);
}

reference& ref_of(const graph* g) {
  static std::map<const graph*, std::unique_ptr<reference>> m;
  auto& r = m[g];
  if (!r) r = std::make_unique<reference>(*g);
  return *r;
}

slinky::thread_pool* pool() {
  // No threads of its own: the caller runs everything, in a fixed order.
  static slinky::thread_pool_impl* p = new slinky::thread_pool_impl(0);
  return p;
}

#if defined(PROP_C18)
// --- runs with changed arguments ---
// A declared constraint, and what it means for the arguments.
struct constraint {
  const char* name;
  std::function<void(const graph&, built&)> declare;
  std::function<bool(const graph&, const std::vector<const raw_buffer*>& in, const std::vector<const raw_buffer*>& out)> holds;
};
index_t extent_of(const dim& d) { return d.max() - d.min() + 1; }
std::vector<constraint> constraints(const graph& g) {
  using in_t = const std::vector<const raw_buffer*>&;
  std::vector<constraint> r;
  r.push_back({"none", [](const graph&, built&) {}, [](const graph&, in_t, in_t) { return true; }});
  const bufd& i0 = g.bufs[g.ins[0]];
  const bufd& o0 = g.bufs[g.outs[0]];
  if (i0.rank >= 1) {
    r.push_back({"input stride is the element size", [](const graph& g, built& b) { b.bufs[g.ins[0]]->dim(0).stride = g.bufs[g.ins[0]].es; },
        [](const graph& g, in_t in, in_t) { return extent_of(in[0]->dims[0]) == 1 || in[0]->dims[0].stride() == g.bufs[g.ins[0]].es; }});
    r.push_back({"input min is -1", [](const graph& g, built& b) { b.bufs[g.ins[0]]->dim(0).bounds.min = -1; },
        [](const graph&, in_t in, in_t) { return in[0]->dims[0].min() == -1; }});
    r.push_back({"input max is 7", [](const graph& g, built& b) { b.bufs[g.ins[0]]->dim(0).bounds.max = 7; },
        [](const graph&, in_t in, in_t) { return in[0]->dims[0].max() == 7; }});
    r.push_back({"input is not folded", [](const graph& g, built& b) { b.bufs[g.ins[0]]->dim(0).fold_factor = dim::unfolded; },
        [](const graph&, in_t in, in_t) { return extent_of(in[0]->dims[0]) == 1 || in[0]->dims[0].fold_factor() == dim::unfolded; }});
    r.push_back({"input extent is a multiple of 4",
        [](const graph& g, built& b) {
          auto& d = b.bufs[g.ins[0]]->dim(0);
          d.bounds.max = d.bounds.min + slinky::align_up(d.extent(), 4) - 1;
        },
        [](const graph&, in_t in, in_t) { return extent_of(in[0]->dims[0]) % 4 == 0; }});
  }
  if (i0.rank >= 2) {
    r.push_back({"input is dense",
        [](const graph& g, built& b) {
          auto& e = *b.bufs[g.ins[0]];
          e.dim(0).stride = g.bufs[g.ins[0]].es;
          e.dim(1).stride = e.dim(0).stride * e.dim(0).extent();
        },
        [](const graph& g, in_t in, in_t) {
          const dim* d = in[0]->dims;
          index_t es = g.bufs[g.ins[0]].es;
          return (extent_of(d[0]) == 1 || d[0].stride() == es) && (extent_of(d[1]) == 1 || d[1].stride() == es * extent_of(d[0]));
        }});
  }
  if (o0.rank >= 1) {
    r.push_back({"output stride is the element size", [](const graph& g, built& b) { b.bufs[g.outs[0]]->dim(0).stride = g.bufs[g.outs[0]].es; },
        [](const graph& g, in_t, in_t out) { return extent_of(out[0]->dims[0]) == 1 || out[0]->dims[0].stride() == g.bufs[g.outs[0]].es; }});
    r.push_back({"output min is 0", [](const graph& g, built& b) { b.bufs[g.outs[0]]->dim(0).bounds.min = 0; },
        [](const graph&, in_t, in_t out) { return out[0]->dims[0].min() == 0; }});
    r.push_back({"output extent is even",
        [](const graph& g, built& b) {
          auto& d = b.bufs[g.outs[0]]->dim(0);
          d.bounds.max = d.bounds.min + slinky::align_up(d.extent(), 2) - 1;
        },
        [](const graph&, in_t, in_t out) { return extent_of(out[0]->dims[0]) % 2 == 0; }});
    r.push_back({"output is not folded", [](const graph& g, built& b) { b.bufs[g.outs[0]]->dim(0).fold_factor = dim::unfolded; },
        [](const graph&, in_t, in_t out) { return extent_of(out[0]->dims[0]) == 1 || out[0]->dims[0].fold_factor() == dim::unfolded; }});
  }
  if (g.ins.size() >= 2 && i0.rank >= 1 && g.bufs[g.ins[1]].rank >= 1) {
    r.push_back({"inputs have the same min", [](const graph& g, built& b) { b.bufs[g.ins[1]]->dim(0).bounds.min = b.bufs[g.ins[0]]->dim(0).bounds.min; },
        [](const graph&, in_t in, in_t) { return in[0]->dims[0].min() == in[1]->dims[0].min(); }});
  }
  return r;
}

// The arguments of one run.
struct args_s {
  std::vector<bf::B> in, out;
  std::vector<bool> null_in, null_out;
};

void check(const group& gr, const sched& sc) {
  const graph& g = *gr.g;
  reference& ref = ref_of(&g);
  signal(SIGALRM, [](int) { abort(); });
  for (const options& o : gr.opts)
    for (const constraint& c : constraints(g)) {
      std::string id = g.name + str(g, sc) + str(o) + " " + c.name;
      std::unique_ptr<built> b = build(g, sc, o, [&](built& b) { c.declare(g, b); });
      for (const run_spec& r : gr.runs) {
        std::vector<box> req = required(g, r.outs);
        bool ok = true;
        // Runs with the arguments changed by f.
        auto once = [&](const std::string& what, const std::function<void(args_s&)>& f, bool reject = false) {
          if (!ok) return;
          std::string name = id + " " + str(r) + " " + what;
          en::tag(name.c_str());
          env e(g, ref);
          run_options ro;
          ro.in = r.in, ro.out = r.out;
          ro.in.margin = 3;
          ro.stack_threshold = r.stack_threshold;
          ro.pool = pool();
          args_s a;
          bool accept = true, own_out = false;
          std::vector<const raw_buffer*> ins, outs;
          std::vector<std::pair<char*, size_t>> scratch;
          ro.mutate = [&](std::vector<const raw_buffer*>& ip, std::vector<const raw_buffer*>& op) {
            auto copy = [](const raw_buffer* p) {
              bf::B q;
              q.b = *p;
              memcpy((void*)q.dims, (const void*)p->dims, sizeof(dim) * p->rank);
              q.b.dims = q.dims;
              return q;
            };
            for (auto i : ip) a.in.push_back(copy(i)), a.null_in.push_back(false);
            for (auto i : op) a.out.push_back(copy(i)), a.null_out.push_back(false);
            // Without changes, inputs are exactly what is required.
            for (size_t k = 0; k < a.in.size(); ++k) {
              const box& bx = req[g.ins[k]];
              if (!bx.any) continue;
              a.in[k].b.base = bf::address(*ip[k], bx.lo, bx.rank);
              for (int d = 0; d < bx.rank; ++d) a.in[k].dims[d].set_bounds(bx.lo[d], bx.hi[d]);
            }
            f(a);
            // What should happen.
            bool valid = true;
            auto shape = [&](const bf::B& x, bool null, const bufd& bd) {
              valid &= !null && (int)x.b.rank == bd.rank && x.b.elem_size == (size_t)bd.es;
            };
            for (size_t k = 0; k < a.in.size(); ++k) shape(a.in[k], a.null_in[k], g.bufs[g.ins[k]]);
            for (size_t k = 0; k < a.out.size(); ++k) shape(a.out[k], a.null_out[k], g.bufs[g.outs[k]]);
            for (size_t k = 0; k < a.in.size(); ++k) ip[k] = a.null_in[k] ? nullptr : &a.in[k].b;
            for (size_t k = 0; k < a.out.size(); ++k) op[k] = a.null_out[k] ? nullptr : &a.out[k].b;
            ins = ip, outs = op;
            if (valid) {
              for (size_t k = 0; k < a.in.size(); ++k) {
                const box& bx = req[g.ins[k]];
                if (!bx.any) continue;
                for (int d = 0; d < bx.rank; ++d) valid &= a.in[k].dims[d].min() <= bx.lo[d] && bx.hi[d] <= a.in[k].dims[d].max();
              }
              for (size_t k = 0; k < a.out.size(); ++k)
                for (size_t d = 0; d < a.out[k].b.rank; ++d) {
                  index_t f = a.out[k].dims[d].fold_factor();
                  if (f == dim::unfolded) continue;
                  valid &= f <= 0 || extent_of(a.out[k].dims[d]) <= f;
                }
              valid = valid && c.holds(g, ins, outs);
            }
            accept = valid && !reject;
            // A folded output has memory of its own.
            for (size_t k = 0; k < a.out.size(); ++k) {
              if (a.null_out[k]) continue;
              bool folded = false;
              index_t size = a.out[k].b.elem_size;
              for (size_t d = 0; d < a.out[k].b.rank; ++d) {
                dim& x = a.out[k].dims[d];
                if (x.fold_factor() == dim::unfolded) continue;
                folded = true;
              }
              if (!folded) continue;
              for (size_t d = 0; d < a.out[k].b.rank; ++d) {
                dim& x = a.out[k].dims[d];
                size += std::max<index_t>(std::abs(x.fold_factor() == dim::unfolded ? 0 : x.fold_factor()), extent_of(x)) * std::abs(x.stride());
              }
              char* m = (char*)calloc(size, 1);
              e.blocks.push_back(m);
              e.regions.push_back({m, m + size, 1});
              a.out[k].b.base = m;
              own_out = true;
            }
          };
          std::vector<int> before;
          alarm(10);
          // Whether this is expected to fail is only known then.
          index_t result = run(e, *b, r.outs, ro);
          alarm(0);
          en::eval();
          en::nontrivial(std::hash<std::string>()(name));
          if (en::want_sample()) en::sample(name + en::fmt(": result %lld, %d calls, %d checks fail", (long long)result, e.calls, e.failed_checks));
          auto bad = [&](const std::string& w) {
            if (ok) en::fail(name, w);
            ok = false;
          };
          // Copies of folded inputs are judged by C07.
          bool folded_in = false;
          for (const bf::B& x : a.in)
            for (size_t d = 0; d < x.b.rank; ++d) folded_in |= x.dims[d].fold_factor() != dim::unfolded;
          folded_in = folded_in && std::any_of(g.st.begin(), g.st.end(), [](const stage& s) { return s.k != CALL; });
          if (accept) {
            if (result != 0) return bad("the run is rejected");
            for (const env::violation& v : e.bad)
              if ((v.kind & JUDGED) && !(own_out && v.kind == env::OUTPUT) && !(folded_in && (v.kind & (env::OUTPUT | env::READ)))) return bad(v.what);
            if (own_out)
              for (size_t k = 0; k < g.outs.size(); ++k) {
                int buf = g.outs[k], rank = g.bufs[buf].rank, es = g.bufs[buf].es;
                bool folded = false;
                for (int d = 0; d < rank; ++d) folded |= a.out[k].dims[d].fold_factor() != dim::unfolded;
                if (!folded) continue;
                bf::each_index(a.out[k].b, rank, [&](const index_t* idx) {
                  std::optional<uint64_t> want = ref.get(buf, idx);
                  uint64_t v = 0;
                  memcpy(&v, bf::address(a.out[k].b, idx, rank), es);
                  if (want && *want != v) bad(en::fmt("output %zu is wrong at %s", k, bf::str(idx, rank).c_str()));
                });
              }
          } else {
            if (result == 0) return bad("the run is not rejected");
            if (e.calls || e.copies) return bad(en::fmt("a rejected run makes %d calls and %d copies", e.calls, e.copies));
            if (e.alloc_count) return bad("a rejected run allocates memory");
            if (e.failed_checks != 1) return bad(en::fmt("%d checks are reported to fail", e.failed_checks));
            for (const env::violation& v : e.bad)
              if (v.kind & (env::ADDRESS | env::MEMORY | env::INPUT | env::SHAPE)) return bad(v.what);
          }
        };
        once("unchanged", [](args_s&) {});
        // The bounds of inputs.
        struct where {
          int k, d;
        };
        std::vector<where> dims;
        for (size_t k = 0; k < g.ins.size(); ++k)
          for (int d = 0; d < g.bufs[g.ins[k]].rank; ++d) dims.push_back({(int)k, d});
        auto resize = [](bf::B& x, int d, index_t lo, index_t hi) {
          // Addresses move with the min.
          x.b.base = (char*)x.b.base + lo * x.dims[d].stride();
          x.dims[d].set_bounds(x.dims[d].min() + lo, x.dims[d].max() + hi);
        };
        auto str2 = [](const where& w, int lo, int hi) { return en::fmt(" input %d dim %d %+d,%+d", w.k, w.d, lo, hi); };
        for (const where& w : dims)
          for (int lo = -3; lo <= 3; ++lo)
            for (int hi = -3; hi <= 3; ++hi) {
              if (!lo && !hi) continue;
              once("bounds:" + str2(w, lo, hi), [&](args_s& a) { resize(a.in[w.k], w.d, lo, hi); });
            }
        for (size_t i = 0; i < dims.size(); ++i)
          for (size_t j = 0; j < i; ++j)
            for (int m = 0; m < 81; ++m) {
              int l0 = m % 3 - 1, h0 = m / 3 % 3 - 1, l1 = m / 9 % 3 - 1, h1 = m / 27 - 1;
              if ((!l0 && !h0) || (!l1 && !h1)) continue;
              once("bounds:" + str2(dims[i], l0, h0) + str2(dims[j], l1, h1), [&](args_s& a) {
                resize(a.in[dims[i].k], dims[i].d, l0, h0);
                resize(a.in[dims[j].k], dims[j].d, l1, h1);
              });
            }
        // Null buffers, ranks and element sizes, of one or two buffers, and together with small inputs.
        int nb = (int)(g.ins.size() + g.outs.size());
        auto buf = [&](args_s& a, int k) -> bf::B& { return k < (int)a.in.size() ? a.in[k] : a.out[k - a.in.size()]; };
        auto change = [&](args_s& a, int k, int how) {
          bf::B& x = buf(a, k);
          int rank = (int)x.b.rank;
          switch (how) {
          case 0:
            if (k < (int)a.in.size()) a.null_in[k] = true;
            else a.null_out[k - a.in.size()] = true;
            break;
          case 1:
            if (rank == 0) return false;
            x.b.rank = rank - 1;
            break;
          case 2:
            x.dims[rank] = dim(0, 0, 64);
            x.b.rank = rank + 1;
            break;
          case 3: x.dims[rank] = dim(0, 3, 0); x.b.rank = rank + 1; break;
          case 4: x.b.elem_size *= 2; break;
          case 5: x.b.elem_size -= 1; break;
          case 6: x.b.elem_size = 0; break;
          case 7:
            if (rank == 0) return false;
            x.b.rank = 0;
            break;
          }
          return true;
        };
        static const char* names[] = {"null", "rank - 1", "rank + 1", "rank + 1 (broadcast)", "twice the element size", "element size - 1", "element size 0", "rank 0"};
        for (int k = 0; k < nb; ++k)
          for (int how = 0; how < 8; ++how) {
            once(en::fmt("buffer %d %s", k, names[how]), [&](args_s& a) { change(a, k, how); });
            for (int k2 = 0; k2 < nb; ++k2)
              for (int how2 = 0; how2 < 8; ++how2)
                if (k2 < k) once(en::fmt("buffer %d %s, buffer %d %s", k, names[how], k2, names[how2]), [&](args_s& a) {
                  change(a, k, how);
                  change(a, k2, how2);
                });
            for (const where& w : dims) {
              if (w.k == k) continue;
              once(en::fmt("buffer %d %s and", k, names[how]) + str2(w, 1, 0), [&](args_s& a) {
                resize(a.in[w.k], w.d, 1, 0);
                change(a, k, how);
              });
            }
          }
        // Strides: the dimension has a stride of its own, where this makes no difference to which elements exist.
        for (int k = 0; k < nb; ++k)
          for (int d = 0; d < 2; ++d)
            for (int f = -1; f <= 8; ++f) {
              if (f == 0) continue;
              bool out = k >= (int)g.ins.size();
              if (d >= g.bufs[out ? g.outs[k - g.ins.size()] : g.ins[k]].rank) continue;
              // A folded input does not have an element for each index; whatever is there is what the caller wants.
              once(en::fmt("buffer %d dim %d fold factor %d", k, d, f), [&](args_s& a) {
                bf::B& x = buf(a, k);
                if (!out && f > 0) {
                  // Same addresses.
                  index_t m = ((x.dims[d].min() % f) + f) % f;
                  if (m + extent_of(x.dims[d]) > f) return;
                  x.b.base = (char*)x.b.base - m * x.dims[d].stride();
                }
                if (f > 0) x.dims[d].set_fold_factor(f);
                else x.dims[d].set_fold_factor(dim::unfolded);
              });
            }
        // Overflow of addresses.
        for (int k = 0; k < nb; ++k)
          for (int how = 0; how < 3; ++how) {
            bool out = k >= (int)g.ins.size();
            if (g.bufs[out ? g.outs[k - g.ins.size()] : g.ins[k]].rank == 0) continue;
            once(en::fmt("buffer %d overflow %d", k, how), [&](args_s& a) {
              bf::B& x = buf(a, k);
              if (how == 0) x.dims[0].set_bounds(x.dims[0].min(), x.dims[0].min() + 3), x.dims[0].set_stride(INT64_MAX / 2 + 1);
              if (how == 1) x.dims[0].set_bounds(x.dims[0].min(), x.dims[0].min() + 3), x.dims[0].set_stride(-(INT64_MAX / 2 + 1));
              if (how == 2) x.b.base = (void*)(UINTPTR_MAX - 8), x.dims[0].set_bounds(x.dims[0].min(), x.dims[0].min() + 9);
            }, true);
          }
      }
    }
}
#elif defined(PROP_C17)
// Every call and every allocation of every run fails, alone and with all of the calls after it; each time, the pipeline is
// run again.
void check(const group& gr, const sched& sc) {
  const graph& g = *gr.g;
  reference& ref = ref_of(&g);
  bool serial = true;
  for (const stage_s& s : sc.st)
    for (const loop_s& l : s.loops) serial &= l.workers == 1;
  signal(SIGALRM, [](int) { abort(); });
  for (options o : gr.opts) {
#ifdef PROP_C20
    o.trace = true;
#endif
    std::string id = g.name + str(g, sc) + str(o);
    std::unique_ptr<built> b = build(g, sc, o);
    for (const run_spec& r : gr.runs) {
      run_options ro;
      ro.in = r.in, ro.out = r.out;
      ro.stack_threshold = r.stack_threshold;
      ro.pool = pool();
      int calls, allocs;
      auto once = [&](const char* what, int n, run_options ro) {
        std::string name = id + " " + str(r) + en::fmt(" %s %d", what, n);
        en::tag(name.c_str());
        env e(g, ref);
        alarm(10);
        index_t result = run(e, *b, r.outs, ro);
        alarm(0);
        en::eval();
        calls = e.calls, allocs = e.alloc_count;
        if (!e.has_failed && ro.fail_alloc >= 0) {
          // Nothing failed: the allocation is empty.
          e.bad.erase(std::remove_if(e.bad.begin(), e.bad.end(), [](const env::violation& v) { return v.kind == env::RESULT && v.what == "the run succeeds"; }), e.bad.end());
        }
        if (ro.fail_call >= 0 || ro.fail_alloc >= 0) en::nontrivial(std::hash<std::string>()(name));
        if (en::want_sample()) en::sample(name + en::fmt(": result %lld, %d calls, %d allocations", (long long)result, e.calls, e.alloc_count));
        for (const env::violation& v : e.bad)
          if (v.kind & JUDGED) {
            en::fail(name, v.what);
            return false;
          }
        if (e.failed_calls != e.failures) {
          en::fail(name, en::fmt("%d calls fail, %d are reported", e.failures, e.failed_calls));
          return false;
        }
        if (e.failed_checks) {
          en::fail(name, "a check is reported to fail");
          return false;
        }
        if (serial && e.after_failure) {
          en::fail(name, en::fmt("%d calls run after the failure", e.after_failure));
          return false;
        }
        return true;
      };
      if (!once("run", 0, ro)) return;
      int nc = calls, na = allocs;
      // Long runs: the first and the last, and some between.
      auto skip = [](int i, int n) { return !en::thorough() && n > 24 && i > 8 && i < n - 8 && i % 3; };
      for (int i = 0; i < nc + na; ++i) {
        if (i < nc ? skip(i, nc) : skip(i - nc, na)) continue;
        run_options f = ro;
        f.expect_failure = true;
        if (i < nc) f.fail_call = i;
        else f.fail_alloc = i - nc;
        if (!once(i < nc ? "call fails:" : "allocation fails:", i < nc ? i : i - nc, f)) return;
        if (i < nc) {
          f.fail_after = true;
          if (!once("calls fail from:", i, f)) return;
        }
        if (!once("run again after fault", i, ro)) return;
        if (calls != nc || allocs != na) {
          en::fail(id + " " + str(r) + en::fmt(" run again after fault %d", i), "the next run makes a different number of calls or allocations");
          return;
        }
      }
    }
  }
}
#else
void check(const group& gr, const sched& sc) {
  const graph& g = *gr.g;
  reference& ref = ref_of(&g);
  for (const options& o : gr.opts) {
    std::string id = g.name + str(g, sc) + str(o);
    en::tag(id.c_str());
    std::unique_ptr<built> b = build(g, sc, o);
    for (const run_spec& r : gr.runs) {
      env e(g, ref);
      run_options ro;
      ro.in = r.in;
      ro.out = r.out;
      ro.stack_threshold = r.stack_threshold;
      ro.pool = pool();
      run(e, *b, r.outs, ro);
      en::eval();
      if (e.calls + e.copies > 0) en::nontrivial(en::mix(std::hash<std::string>()(id), std::hash<std::string>()(str(r))));
      if (en::want_sample()) en::sample(id + " " + str(r) + en::fmt(": %d calls, %d copies, %d allocations", e.calls, e.copies, e.alloc_count));
      for (const env::violation& v : e.bad)
        if (v.kind & JUDGED) {
          en::fail(id + " " + str(r), v.what);
          return;
        }
    }
  }
}

#endif

using loops_t = std::vector<std::vector<loop_s>>;

// Loops over one dimension.
loops_t loops1(int level) {
  loops_t l = {{}};
  l.push_back({{0, 1, 1}});
  if (level >= 1) l.push_back({{0, 2, 1}});
  if (level >= 2) l.push_back({{0, 3, 1}});
  if (level >= 1) l.push_back({{0, 1, 0}});
  if (level >= 2) l.push_back({{0, 2, 2}});
  return l;
}
loops_t loops2(int level) {
  loops_t l = {{}};
  l.push_back({{1, 1, 1}});
  if (level >= 1) {
    l.push_back({{0, 2, 1}, {1, 1, 1}});
    l.push_back({{1, 1, 1}, {0, 3, 1}});
  }
  if (level >= 2) {
    l.push_back({{0, 1, 1}});
    l.push_back({{1, 2, 1}});
    l.push_back({{1, 1, 0}});
    l.push_back({{0, 2, 1}, {1, 2, 1}});
  }
  if (level >= 3) {
    l.push_back({{1, 3, 2}});
    l.push_back({{0, 1, 0}, {1, 1, 0}});
    l.push_back({{0, 2, 0}});
  }
  return l;
}

box B1(index_t lo, index_t hi) {
  box b;
  b.rank = 1, b.any = true, b.lo[0] = lo, b.hi[0] = hi;
  return b;
}
box B2(index_t l0, index_t h0, index_t l1, index_t h1) {
  box b;
  b.rank = 2, b.any = true, b.lo[0] = l0, b.hi[0] = h0, b.lo[1] = l1, b.hi[1] = h1;
  return b;
}
box B3(index_t l0, index_t h0, index_t l1, index_t h1, index_t l2, index_t h2) {
  box b = B2(l0, h0, l1, h1);
  b.rank = 3, b.lo[2] = l2, b.hi[2] = h2;
  return b;
}

const layout_s dense, padded{2, 0, false}, margin{0, 2, false}, reversed{1, 0, true}, reversed_margin{1, 1, true};

std::vector<run_spec> runs_for(const std::vector<std::vector<box>>& outs) {
  std::vector<run_spec> r;
  int k = 0;
  for (const std::vector<box>& o : outs) {
    r.push_back({o, k % 3 == 1 ? margin : dense, k % 3 == 2 ? padded : dense, k % 2 ? 0 : 4096});
    ++k;
  }
  r.push_back({outs[0], reversed_margin, reversed, 64});
  return r;
}
std::vector<run_spec> runs1(int n_out = 1) {
  std::vector<std::vector<box>> outs;
  for (box b : {B1(0, 5), B1(-3, 3), B1(2, 2), B1(7, 11), B1(0, 0)}) outs.push_back(std::vector<box>(n_out, b));
  if (en::thorough())
    for (box b : {B1(0, 1), B1(-4, -2), B1(1, 9), B1(0, 12)}) outs.push_back(std::vector<box>(n_out, b));
  return runs_for(outs);
}
std::vector<run_spec> runs2(int n_out = 1) {
  std::vector<std::vector<box>> outs;
  for (box b : {B2(0, 3, 0, 4), B2(-2, 1, 1, 3), B2(0, 0, -1, 2), B2(1, 4, 2, 2)}) outs.push_back(std::vector<box>(n_out, b));
  if (en::thorough())
    for (box b : {B2(0, 1, 0, 1), B2(-3, -1, -4, 2), B2(0, 5, 3, 8)}) outs.push_back(std::vector<box>(n_out, b));
  return runs_for(outs);
}
std::vector<run_spec> wide_inputs(std::vector<run_spec> r) {
  for (run_spec& i : r) i.in.margin = 30;
  return r;
}
std::vector<run_spec> runs3() {
  return runs_for({{B3(0, 2, 0, 2, 0, 2)}, {B3(-1, 1, 0, 3, 1, 2)}, {B3(0, 0, 1, 2, 0, 3)}});
}

std::vector<options> all_options() {
  std::vector<options> r(4);
  r[0].storage = slinky::memory_type::heap;
  r[1].storage = slinky::memory_type::automatic;
  r[1].no_checks = true;
  r[2].storage = slinky::memory_type::heap;
  r[2].no_alias = true;
  r[2].separate_vars = true;
  r[3].storage = slinky::memory_type::stack;
  r[3].trace = true;
  return r;
}
std::vector<options> two_options() {
  std::vector<options> r = all_options();
  return {r[0], r[2]};
}

// The constants of the graph are arguments of the pipeline, or computed from them.
std::vector<options> args_options(bool steps) {
  std::vector<options> r = all_options();
  r[0].args = 1, r[1].args = 2, r[2].args = 3, r[3].args = steps ? 5 : 2;
  return r;
}

// Accesses of one dimension.
std::vector<acc> accs(int v) {
  return {P(v), W(v, -1, 1), W(v, 0, 2), W(v, -2, 0), P(v, 1), W(v, 1, 2), S(v, 2, 1, 0, 1), S(v, 1, 2, 0, 0), S(v, -1, 1, 0, 0), S(v, 1, 2, 0, 1), K(1, 4)};
}
std::vector<acc> few_accs(int v) { return {P(v), W(v, -1, 1), W(v, 0, 2), S(v, 2, 1, 0, 1), S(v, 1, 2, 0, 0)}; }

std::vector<group> groups;

// Storing a buffer that is produced or consumed by a copy (or an in place computation) inside a loop fails in several
// ways, see the known findings of C07. Of these schedules, only the ones of the known findings are checked.
const char* known_stored[] = {
    "copy between: (x,x+1y) 2 s0{} s1{m@inner} s2{y/1 x/3}",
    "pad: 110 x [-25,3] s0{} s1{x/1 m@inner} s2{x/2}",
    "pad 2d: 110 (x,y) [0,2][0,3] s0{} s1{y/1 m@inner} s2{x/2 y/1}",
    "in place: 4 0 4 s0{m@s3.x} s1{m@inner} s2{x/1} s3{x/2}",
    "in place 2d: 0 1 2 s0{} s1{m@inner} s2{x/2 y/1}",
};
bool stored_in_loops_fails(const std::string& name) {
  auto starts = [&](const char* p) { return name.compare(0, strlen(p), p) == 0; };
  int k, ip, es;
  bool two_vars = name.find("x+1y") != std::string::npos;
  return starts("pad: ") || starts("pad 2d: ") || starts("in place 2d: ") ||
         sscanf(name.c_str(), "in place: %d %d %d", &k, &ip, &es) == 3 ||
         (two_vars && starts("copy between: ")) || starts("copied twice: ");
}

void add(graph g, const std::vector<loops_t>& loops, std::vector<run_spec> runs, std::vector<options> opts, bool stores = true) {
  group gr;
  gr.g = std::make_shared<graph>(std::move(g));
  gr.scheds = schedules(*gr.g, loops, stores);
  if (stored_in_loops_fails(gr.g->name)) {
    std::vector<sched> keep;
    for (const sched& i : gr.scheds) {
      bool stored = false;
      for (const auto& j : i.st)
        for (const at_s& a : j.store) stored = stored || a.stage >= 0;
      std::string name = gr.g->name + str(*gr.g, i);
      for (const char* k : known_stored) stored = stored && name != k;
      if (!stored) keep.push_back(i);
    }
    gr.scheds = keep;
  }
  gr.runs = std::move(runs);
  gr.opts = std::move(opts);
  groups.push_back(std::move(gr));
}

std::string str(const acc& a) {
  if (a.full) return "full";
  std::string s;
  if (a.v >= 0) {
    if (a.a != 1) s += en::fmt("%d", a.a);
    s += "xyzw"[a.v];
    if (a.v2 >= 0) s += en::fmt("%+d%c", a.a2, "xyzw"[a.v2]);
    if (a.div != 1) s += en::fmt("/%d", a.div);
  }
  if (a.lo == a.hi) return s + (a.lo || s.empty() ? en::fmt("%+d", a.lo) : "");
  return s + en::fmt("[%d,%d]", a.lo, a.hi);
}

int T() { return en::thorough() ? 1 : 0; }

// Pipelines with arguments, lets and scalars.
void with_arguments() {
  std::vector<acc> as = {P(0), P(0, 1), W(0, -1, 1), W(0, 0, 2), W(0, -2, -1), S(0, 2, 1, 0, 1), S(0, 1, 2, 1, 1), S(0, -1, 1, 0, 1)};
  for (const acc& a : as)
    for (const acc& b : as) {
      graph g;
      g.name = "args chain2: " + str(a) + " " + str(b);
      int i = g.in(1), t = g.mid(1), o = g.out(1);
      g.call({t}, {{i, {a}}});
      g.call({o}, {{t, {b}}});
      add(g, {loops1(1), loops1(2)}, runs1(), args_options(true));
    }
  for (const acc& a : {P(0, 1), W(0, -1, 1), S(0, 2, 1, 0, 1)})
    for (const acc& b : {P(0, -1), W(0, 0, 2)}) {
      graph g;
      g.name = "args skip: " + str(a) + " " + str(b);
      int i = g.in(1), t = g.mid(1), u = g.mid(1), o = g.out(1);
      g.call({t}, {{i, {P(0)}}});
      g.call({u}, {{t, {a}}});
      g.call({o}, {{u, {b}}, {t, {P(0)}}});
      add(g, {loops1(0), loops1(1), loops1(1)}, runs1(), args_options(true));
    }
  for (const acc& a : {P(0, 1), W(0, -1, 1)})
    for (const acc& b : {P(1), W(1, 0, 2)}) {
      graph g;
      g.name = "args 2d: " + str(a) + " " + str(b);
      int i = g.in(2), t = g.mid(2), o = g.out(2);
      g.call({t}, {{i, {P(0), P(1)}}});
      g.call({o}, {{t, {a, b}}});
      add(g, {loops2(1), loops2(3)}, runs2(), args_options(true));
    }
}

void computations() {
  with_arguments();
  // chains of two
  for (const acc& a : accs(0))
    for (const acc& b : accs(0)) {
      graph g;
      g.name = "chain2: " + str(a) + " " + str(b);
      int i = g.in(1), t = g.mid(1), o = g.out(1);
      g.call({t}, {{i, {a}}});
      g.call({o}, {{t, {b}}});
      add(g, {loops1(1), loops1(2)}, runs1(), all_options());
    }
  // chains of three
  for (const acc& a : few_accs(0))
    for (const acc& b : few_accs(0))
      for (const acc& c : few_accs(0)) {
        graph g;
        g.name = "chain3: " + str(a) + " " + str(b) + " " + str(c);
        int i = g.in(1), t = g.mid(1), u = g.mid(1, 2), o = g.out(1);
        g.call({t}, {{i, {a}}});
        g.call({u}, {{t, {b}}});
        g.call({o}, {{u, {c}}});
        add(g, {loops1(T()), loops1(T()), loops1(1)}, runs1(), two_options());
      }
  for (const acc& a : {P(0), W(0, -1, 1)})
    for (const acc& b : {P(0), W(0, 0, 2)}) {
      graph g;
      g.name = "chain3 loops: " + str(a) + " " + str(b);
      int i = g.in(1), t = g.mid(1), u = g.mid(1), o = g.out(1);
      g.call({t}, {{i, {P(0)}}});
      g.call({u}, {{t, {a}}});
      g.call({o}, {{u, {b}}});
      add(g, {loops1(1), loops1(1), loops1(2)}, runs1(), {all_options()[0]});
    }
  // one buffer with two consumers
  for (const acc& a : few_accs(0))
    for (const acc& b : few_accs(0))
      for (const acc& c : few_accs(0)) {
        if (!en::thorough() && c.a != 1) continue;
        if (!en::thorough() && c.div != 1) continue;
        graph g;
        g.name = "diamond: " + str(a) + " " + str(b) + " " + str(c);
        int i = g.in(1), t = g.mid(1), u = g.mid(1), v = g.mid(1), o = g.out(1);
        g.call({t}, {{i, {P(0)}}});
        g.call({u}, {{t, {a}}});
        g.call({v}, {{t, {b}}});
        g.call({o}, {{u, {c}}, {v, {P(0)}}});
        add(g, {loops1(0), loops1(0), loops1(0), loops1(1)}, runs1(), {all_options()[0]});
      }
  for (const acc& a : accs(0))
    for (const acc& b : few_accs(0)) {
      graph g;
      g.name = "skip: " + str(a) + " " + str(b);
      int i = g.in(1), t = g.mid(1), u = g.mid(1), o = g.out(1);
      g.call({t}, {{i, {P(0)}}});
      g.call({u}, {{t, {a}}});
      g.call({o}, {{u, {b}}, {t, {P(0)}}});
      add(g, {loops1(0), loops1(1), loops1(1)}, runs1(), two_options());
    }
  // stages with two outputs
  for (const acc& a : few_accs(0))
    for (const acc& b : few_accs(0)) {
      graph g;
      g.name = "two outputs: " + str(a) + " " + str(b);
      int i = g.in(1), t = g.mid(1), u = g.mid(1, 2), o = g.out(1);
      g.call({t, u}, {{i, {P(0)}}});
      g.call({o}, {{t, {a}}, {u, {b}}});
      add(g, {loops1(1), loops1(2)}, runs1(), all_options());
    }
  // pipelines with several outputs
  for (const acc& a : few_accs(0))
    for (const acc& b : few_accs(0)) {
      graph g;
      g.name = "outputs: " + str(a) + " " + str(b);
      int i = g.in(1), t = g.mid(1), o = g.out(1), q = g.out(1);
      g.call({t}, {{i, {P(0)}}});
      g.call({o}, {{t, {a}}});
      g.call({q}, {{t, {b}}});
      std::vector<run_spec> runs = runs1(2);
      runs.push_back({{B1(0, 3), B1(2, 9)}, dense, dense, 0});
      runs.push_back({{B1(5, 6), B1(-2, 1)}, dense, dense, 0});
      add(g, {loops1(1), loops1(1), loops1(1)}, runs, two_options());
    }
  for (const acc& a : few_accs(0)) {
    graph g;
    g.name = "both outputs: " + str(a);
    int i = g.in(1), t = g.mid(1), o = g.out(1), q = g.out(1);
    g.call({t}, {{i, {P(0)}}});
    g.call({o, q}, {{t, {a}}});
    add(g, {loops1(1), loops1(2)}, runs1(2), two_options());
  }
  // the output of one stage is an input of another and an output of the pipeline
  for (const acc& a : few_accs(0)) {
    graph g;
    g.name = "output is intermediate: " + str(a);
    int i = g.in(1), o = g.out(1), q = g.out(1);
    g.call({o}, {{i, {P(0)}}});
    g.call({q}, {{o, {a}}});
    std::vector<run_spec> runs;
    for (box b : {B1(0, 5), B1(-3, 3), B1(2, 2)}) {
      box c = required(g, {box(), b})[o];
      runs.push_back({{c, b}, dense, dense, 0});
    }
    add(g, {loops1(1), loops1(1)}, runs, two_options());
  }
  // two dimensions
  std::vector<std::vector<acc>> acc2 = {{P(0), P(1)}, {P(0), W(1, -1, 1)}, {W(0, -1, 1), W(1, -1, 1)}, {W(0, 0, 1), P(1)},
      {P(1), P(0)}, {S(0, 2, 1, 0, 1), S(1, 2, 1, 0, 1)}, {S(0, 1, 2, 0, 0), S(1, 1, 2, 0, 0)}, {P(0), K(0, 2)}, {P(0), S(1, -1, 1, 0, 0)}, {P(0), W(1, 0, 2)}};
  for (const auto& a : acc2)
    for (const auto& b : acc2) {
      graph g;
      g.name = "chain2d: " + str(a[0]) + "," + str(a[1]) + " " + str(b[0]) + "," + str(b[1]);
      int i = g.in(2), t = g.mid(2), o = g.out(2);
      g.call({t}, {{i, a}});
      g.call({o}, {{t, b}});
      add(g, {loops2(1), loops2(3)}, runs2(), two_options());
    }
  for (int m = 0; m < 27; ++m) {
    const std::vector<acc>*a = &acc2[m % 3], *b = &acc2[m / 3 % 3], *c = &acc2[m / 9];
    graph g;
    g.name = "chain3d: " + str((*a)[0]) + "," + str((*a)[1]) + " " + str((*b)[0]) + "," + str((*b)[1]) + " " + str((*c)[0]) + "," + str((*c)[1]);
    int i = g.in(2), t = g.mid(2), u = g.mid(2), o = g.out(2);
    g.call({t}, {{i, *a}});
    g.call({u}, {{t, *b}});
    g.call({o}, {{u, *c}});
    add(g, {loops2(0), loops2(T()), loops2(1)}, runs2(), {all_options()[0]});
  }
  // accesses that move in several dimensions with one loop
  {
    std::vector<std::vector<acc>> diag = {{P(0), P(0)}, {P(0), W(0, -1, 1)}, {W(0, -1, 1), P(0)}, {W(0, 0, 1), W(0, 0, 2)}, {P(0), S(0, -1, 1, 0, 0)},
        {W(0, -1, 1), S(0, 2, 1, 0, 0)}, {S(0, 1, 2, 0, 0), W(0, 0, 1)}};
    for (const auto& b : diag)
      for (int a = 0; a < 3; ++a) {
        graph g;
        g.name = "diagonal: " + str(b[0]) + "," + str(b[1]) + en::fmt(" %d", a);
        int i = g.in(2), t = g.mid(2), o = g.out(1);
        g.call({t}, {{i, {a == 1 ? W(0, -1, 1) : P(0), a == 2 ? W(1, 0, 1) : P(1)}}});
        g.call({o}, {{t, b}});
        add(g, {loops2(1), loops1(2)}, runs1(), two_options());
      }
    for (const auto& b : diag) {
      graph g;
      g.name = "diagonal: 2d " + str(b[0]) + "," + str(b[1]);
      int i = g.in(2), t = g.mid(2), o = g.out(2);
      g.call({t}, {{i, {P(0), P(1)}}});
      std::vector<acc> c = b;
      c[1].v = 1, c[1].v2 = 0, c[1].a2 = 1;
      g.call({o}, {{t, c}});
      add(g, {loops2(0), loops2(3)}, runs2(), two_options());
    }
  }
  // reductions and different ranks
  {
    graph g;
    g.name = "matmul";
    int a = g.in(2), b = g.in(2), c = g.in(2), ab = g.mid(2), o = g.out(2);
    g.call({ab}, {{a, {K(0, 2), P(1)}}, {b, {P(0), K(0, 2)}}});
    g.call({o}, {{ab, {K(0, 3), P(1)}}, {c, {P(0), K(0, 3)}}});
    add(g, {loops2(2), loops2(3)}, runs2(), all_options());
  }
  {
    graph g;
    g.name = "matmul: full";
    int a = g.in(2), b = g.in(2), c = g.in(2), ab = g.mid(2), o = g.out(2);
    for (int i : {a, b, c}) g.fix(i, {{0, 4}, {-3, 7}});
    g.call({ab}, {{a, {FULL(), P(1)}}, {b, {P(0), K(0, 4)}}});
    g.call({o}, {{ab, {K(0, 4), P(1)}}, {c, {P(0), FULL()}}});
    g.fix(b, {{-1, 4}, {0, 4}});
    g.fix(c, {{-2, 7}, {0, 4}});
    std::vector<run_spec> r;
    for (box b : {B2(0, 3, 0, 4), B2(-2, 1, 1, 3)}) r.push_back({{b}, dense, dense, 0});
    add(g, {loops2(2), loops2(2)}, r, all_options());
  }
  for (int d = 0; d < 2; ++d) {
    graph g;
    g.name = en::fmt("reduce: %d then broadcast", d);
    int i = g.in(2), t = g.mid(1), o = g.out(2);
    if (d == 0) g.call({t}, {{i, {K(0, 3), P(0)}}});
    else g.call({t}, {{i, {P(0), K(-1, 2)}}});
    g.call({o}, {{t, {P(d)}}, {i, {P(0), P(1)}}});
    add(g, {loops1(2), loops2(3)}, runs2(), all_options());
  }
  for (int k = 0; k < 3; ++k) {
    graph g;
    g.name = en::fmt("layout: %d", k);
    int i = g.in(2), t = g.mid(2), u = g.mid(2), o = g.out(2);
    if (k == 1 || k == 2) g.bufs[t].transposed = true;
    if (k == 2) g.bufs[u].transposed = true;
    if (k == 0) g.bufs[u].transposed = true;
    g.call({t}, {{i, {P(0), P(1)}}});
    g.call({u}, {{t, {W(0, -1, 1), P(1)}}});
    g.call({o}, {{u, {P(0), W(1, -1, 1)}}});
    add(g, {loops2(0), loops2(0), loops2(2)}, runs2(), two_options());
  }
  {
    graph g;
    g.name = "constants";
    int i = g.in(1), k = g.constant({{-10, 20}}), t = g.mid(1), s = g.constant({}), o = g.out(1);
    g.call({t}, {{i, {P(0)}}, {k, {W(0, -1, 1)}}});
    g.call({o}, {{t, {W(0, 0, 1)}}, {s, {}}, {k, {P(0)}}});
    add(g, {loops1(1), loops1(2)}, runs1(), all_options());
  }
  // pure dimensions
  for (int mr = 0; mr < 3; ++mr)
    for (int a = 0; a < 3; ++a) {
      graph g;
      g.name = en::fmt("min_rank: %d %d", mr, a);
      int i = g.in(2), j = g.in(1), t = g.mid(2), o = g.out(2);
      stage& s = g.call({t}, {{i, {P(0), P(1)}}, {j, {P(0)}}});
      s.pure = true, s.min_rank = mr;
      stage& q = g.call({o}, {{t, {P(0), a == 1 ? W(1, 0, 1) : P(1)}}});
      if (a == 2) q.pure = true, q.min_rank = mr;
      add(g, {loops2(2), loops2(3)}, runs2(), all_options());
    }
}

std::vector<run_spec> few(std::vector<run_spec> r, size_t n) {
  if (!en::thorough() && r.size() > n) r.resize(n);
  return r;
}

// A copy of one input: where it is read, what part of the input and the output is copied.
inp C(int buf, std::vector<acc> a) {
  inp i;
  i.buf = buf, i.a = std::move(a);
  return i;
}
inp in_crop(inp i, std::vector<crop1> c) {
  i.in_crop = std::move(c);
  return i;
}
inp out_crop(inp i, std::vector<crop1> c) {
  i.out_crop = std::move(c);
  return i;
}
inp out_slice(inp i, std::vector<std::optional<int>> c) {
  i.out_slice = std::move(c);
  return i;
}
inp cropped_to_bounds(inp i) {
  i.crop_to_bounds = true;
  return i;
}
std::string str(const std::vector<acc>& a) {
  std::string s;
  for (const acc& i : a) s += (s.empty() ? "" : ",") + str(i);
  return "(" + s + ")";
}
std::string str(const crop1& c) { return c.all() ? "[]" : en::fmt("[%d,%d]", c.lo, c.hi); }

// A copy from rank `from` to rank `to`.
struct form {
  int from, to;
  std::vector<acc> a;
};
std::vector<form> forms1() {
  return {{1, 1, {P(0)}}, {1, 1, {P(0, 2)}}, {1, 1, {P(0, -3)}}, {1, 1, {S(0, 2, 1, 0, 0)}}, {1, 1, {S(0, 2, 1, 1, 1)}}, {1, 1, {S(0, 1, 2, 0, 0)}},
      {1, 1, {S(0, -1, 1, 0, 0)}}, {1, 1, {S(0, -1, 1, 4, 4)}}, {1, 1, {K(3, 3)}}, {2, 1, {P(0), P(0)}}, {2, 1, {K(1, 1), P(0)}}, {2, 1, {P(0, 1), K(2, 2)}},
      {2, 1, {P(0), S(0, -1, 1, 2, 2)}}, {0, 1, {}}};
}
std::vector<form> forms2() {
  return {{2, 2, {P(0), P(1)}}, {2, 2, {P(0, 1), P(1, -2)}}, {2, 2, {P(1), P(0)}}, {2, 2, {P(1, 1), P(0, 2)}}, {2, 2, {P(0), S(1, 2, 1, 0, 0)}},
      {2, 2, {S(0, -1, 1, 3, 3), P(1)}}, {1, 2, {P(0)}}, {1, 2, {P(1)}}, {2, 2, {P(0), K(1, 1)}}, {1, 2, {V2(0, 1, 1, 3)}}, {1, 2, {V2(0, 1, 1, 1, 1)}},
      {3, 2, {P(0), K(2, 2), P(1)}}, {3, 2, {P(1), P(0), K(0, 0)}}, {2, 2, {P(0), V2(0, 1, 1, 1)}}, {2, 2, {P(1), V2(0, 1, 1, -1)}}, {2, 2, {P(0), P(0)}}};
}
int add_in(graph& g, role r, int rank, int es = 4) { return g.add(r, rank, es); }

void copies() {
  // Only copies.
  for (int two = 0; two < 2; ++two)
    for (const form& f : two ? forms2() : forms1()) {
      auto runs = two ? runs2() : runs1();
      auto L = two ? loops2(2) : loops1(2);
      auto L0 = two ? loops2(0) : loops1(0);
      {
        graph g;
        g.name = "copy: " + str(f.a);
        int i = g.in(f.from), o = g.out(f.to);
        g.copy(o, {C(i, f.a)});
        add(g, {L}, runs, all_options());
      }
      for (int w = 0; w < 3; ++w) {
        // the input is copied, and the copy consumed
        graph g;
        g.name = "copy of an input: " + str(f.a) + en::fmt(" %d", w);
        int i = g.in(f.from), t = g.mid(f.to), o = g.out(f.to);
        g.copy(t, {C(i, f.a)});
        std::vector<acc> a;
        for (int d = 0; d < f.to; ++d) a.push_back(w == 2 && d == 0 ? W(d, 0, 1) : w == 1 && d == f.to - 1 ? W(d, -1, 1) : P(d));
        g.call({o}, {{t, a}});
        add(g, {L0, L}, runs, two_options());
      }
      {
        // a computed buffer is copied to the output
        graph g;
        g.name = "copy to an output: " + str(f.a);
        int i = g.in(f.from), t = g.mid(f.from), o = g.out(f.to);
        std::vector<acc> a;
        for (int d = 0; d < f.from; ++d) a.push_back(P(d));
        g.call({t}, {{i, a}});
        g.copy(o, {C(t, f.a)});
        add(g, {{{}}, L}, runs, all_options());
      }
      // An index that mixes dimensions is only computed where it is consumed (see the known finding of C04).
      bool mixed = false;
      for (const acc& i : f.a) mixed = mixed || i.v2 >= 0;
      auto L1 = mixed ? loops_t{{}} : L0;
      for (int w = 0; w < 4; ++w) {
        // a computed buffer is copied, and the copy consumed, maybe with the original
        graph g;
        g.name = "copy between: " + str(f.a) + en::fmt(" %d", w);
        int i = g.in(f.from), t = g.mid(f.from), u = g.mid(f.to), o = g.out(f.to);
        std::vector<acc> a, b;
        for (int d = 0; d < f.from; ++d) a.push_back(P(d));
        for (int d = 0; d < f.to; ++d) b.push_back(w & 1 && d == f.to - 1 ? W(d, -1, 1) : P(d));
        g.call({t}, {{i, a}});
        g.copy(u, {C(t, f.a)});
        if (w & 2) {
          if (f.from > f.to) continue;
          std::vector<acc> c;
          for (int d = 0; d < f.from; ++d) c.push_back(P(d));
          g.call({o}, {{u, b}, {t, c}});
        } else {
          g.call({o}, {{u, b}});
        }
        add(g, {{{}}, L1, L}, runs, two_options());
      }
      // constraints on the layout of the copy
      for (int k = 0; k < 3; ++k) {
        graph g;
        g.name = "copy with layout: " + str(f.a) + en::fmt(" %d", k);
        int i = g.in(f.from), t = g.mid(f.from), u = g.mid(f.to), o = g.out(f.to);
        std::vector<acc> a, b;
        for (int d = 0; d < f.from; ++d) a.push_back(P(d));
        for (int d = 0; d < f.to; ++d) b.push_back(P(d));
        if (k == 0) g.bufs[t].transposed = true;
        if (k == 1) g.bufs[u].transposed = true;
        if (k == 2) {
          if (f.to) g.bufs[u].align[0] = 4;
          if (f.from) g.bufs[t].align[f.from - 1] = 4;
        }
        g.call({t}, {{i, a}});
        g.copy(u, {C(t, f.a)});
        g.call({o}, {{u, b}});
        add(g, {{{}}, {{}}, L0}, runs, two_options());
      }
    }
  // Two copies in a row.
  for (int two = 0; two < 2; ++two) {
    std::vector<form> fs;
    for (const form& f : two ? forms2() : forms1())
      if (f.from == f.to) fs.push_back(f);
    for (const form& f : fs)
      for (const form& h : fs) {
        graph g;
        g.name = "two copies: " + str(f.a) + " " + str(h.a);
        int r = two ? 2 : 1;
        int i = g.in(r), t = g.mid(r), u = g.mid(r), v = g.mid(r), o = g.out(r);
        std::vector<acc> a;
        for (int d = 0; d < r; ++d) a.push_back(P(d));
        g.call({t}, {{i, a}});
        g.copy(u, {C(t, f.a)});
        g.copy(v, {C(u, h.a)});
        g.call({o}, {{v, a}});
        add(g, {{{}}, {{}}, {{}}, two ? loops2(1) : loops1(1)}, two ? runs2() : runs1(), two_options(), !two || T());
        graph q;
        q.name = "two copies to an output: " + str(f.a) + " " + str(h.a);
        i = q.in(r), u = q.mid(r), o = q.out(r);
        q.copy(u, {C(i, f.a)});
        q.copy(o, {C(u, h.a)});
        add(q, {two ? loops2(0) : loops1(0), two ? loops2(1) : loops1(1)}, two ? runs2() : runs1(), two_options());
        // the same buffer copied in two ways
        graph w;
        w.name = "copied twice: " + str(f.a) + " " + str(h.a);
        i = w.in(r), t = w.mid(r), u = w.mid(r), v = w.mid(r), o = w.out(r);
        w.call({t}, {{i, a}});
        w.copy(u, {C(t, f.a)});
        w.copy(v, {C(t, h.a)});
        w.call({o}, {{u, a}, {v, a}});
        add(w, {{{}}, {{}}, {{}}, two ? loops2(1) : loops1(1)}, two ? runs2() : runs1(), two_options());
      }
  }
  // Padding: a copy of part of the source, the rest is the padding. The inputs are bigger than what is needed by far: see
  // the known finding min-max-fact, the checks of the bounds of the inputs are such facts.
  auto crops1 = std::vector<crop1>{{0, 4}, {-1, 2}, {2, 9}, {-25, 3}, {1, 25}, {5, 3}, {-20, 20}};
  auto padf = std::vector<acc>{P(0), P(0, -1), P(0, 2), S(0, 2, 1, 0, 0), S(0, -1, 1, 0, 0), S(0, 1, 2, 0, 0)};
  for (const acc& a : padf)
    for (const crop1& c : crops1)
      for (int from = 0; from < 3; ++from)
        for (int w = 0; w < 3; ++w)
          for (int full = 0; full < 2; ++full) {
            // from: an input, a computed buffer, a computed buffer also consumed. w: to the output, to a consumer
            if (from == 2 && w == 0) continue;
            graph g;
            g.name = en::fmt("pad: %d%d%d ", from, w, full) + str(a) + " " + str(c);
            int i = g.in(1), t = from ? g.mid(1) : i, p = full ? g.constant({{-12, 30}}) : g.constant({}), u = w ? g.mid(1) : -1, o = g.out(1);
            std::vector<loops_t> L;
            if (from) g.call({t}, {{i, {P(0)}}}), L.push_back({{}});
            inp src = in_crop(C(t, {a}), {c});
            inp pad = full ? C(p, {P(0)}) : C(p, {});
            g.pad(w ? u : o, src, pad), L.push_back(w ? loops1(0) : loops1(2));
            if (w) {
              acc b = w == 1 ? P(0) : W(0, -1, 1);
              if (from == 2) g.call({o}, {{u, {b}}, {t, {P(0)}}});
              else g.call({o}, {{u, {b}}});
              L.push_back(loops1(1));
            }
            add(g, L, wide_inputs(runs1()), two_options());
          }
  {
    auto fs = std::vector<std::vector<acc>>{{P(0), P(1)}, {P(0, -1), P(1, 2)}, {P(1), P(0)}, {P(1, 1), P(0)}, {P(0), S(1, 2, 1, 0, 0)}, {V2(0, 1, 1, 1)}, {P(1)}, {P(0), K(1, 1)}, {P(0), P(0)}};
    auto cs = std::vector<std::vector<crop1>>{{{0, 2}, {0, 3}}, {{-1, 2}, {}}, {{}, {1, 2}}, {{-9, 9}, {1, 9}}, {{1, 5}}};
    for (const auto& a : fs)
      for (const auto& c : cs)
        for (int from = 0; from < 2; ++from)
          for (int w = 0; w < 2; ++w)
            for (int full = 0; full < 3; ++full) {
              if (c.size() > a.size()) continue;
              graph g;
              std::string cstr;
              for (const crop1& k : c) cstr += str(k);
              g.name = en::fmt("pad 2d: %d%d%d ", from, w, full) + str(a) + " " + cstr;
              int ir = (int)a.size();
              int i = g.in(ir), t = from ? g.mid(ir) : i, p = full == 1 ? g.constant({{-12, 12}, {-12, 12}}) : full == 2 ? g.constant({{-12, 12}}) : g.constant({}),
                  u = w ? g.mid(2) : -1, o = g.out(2);
              std::vector<loops_t> L;
              std::vector<acc> id;
              for (int d = 0; d < ir; ++d) id.push_back(P(d));
              if (from) g.call({t}, {{i, id}}), L.push_back({{}});
              g.pad(w ? u : o, in_crop(C(t, a), c), full == 1 ? C(p, {P(0), P(1)}) : full == 2 ? C(p, {P(0)}) : C(p, {})), L.push_back(w ? loops2(0) : loops2(2));
              if (w) g.call({o}, {{u, {P(0), W(1, 0, 1)}}}), L.push_back(loops2(1));
              add(g, L, wide_inputs(runs2()), two_options());
            }
  }
  // Padding an input outside of the bounds it has.
  for (const acc& a : {P(0), P(0, -1), P(0, 2), S(0, 2, 1, 0, 0), S(0, -1, 1, 0, 0)})
    for (auto bounds : {std::make_pair(0, 4), std::make_pair(-5, 20), std::make_pair(2, 2), std::make_pair(8, 9)})
      for (int w = 0; w < 3; ++w) {
        graph g;
        g.name = en::fmt("pad to bounds: %d [%d,%d] ", w, bounds.first, bounds.second) + str(a);
        int i = g.in(1), p = g.constant({}), u = w ? g.mid(1) : -1, o = g.out(1);
        g.fix(i, {bounds});
        g.pad(w ? u : o, cropped_to_bounds(C(i, {a})), C(p, {}));
        std::vector<loops_t> L = {w ? loops1(0) : loops1(2)};
        if (w) g.call({o}, {{u, {w == 1 ? P(0) : W(0, -1, 1)}}}), L.push_back(loops1(1));
        add(g, L, runs1(), two_options());
      }
  // Concatenation.
  for (int from = 0; from < 4; ++from)
    for (int w = 0; w < 3; ++w)
      for (int split : {0, 2, 4, 9})
        for (int es : {4, 1}) {
          if (es == 1 && split != 2 && !T()) continue;
          // from: two inputs, two computed, one input twice, one computed twice
          graph g;
          g.name = en::fmt("concat: %d%d %d %d", from, w, split, es);
          int i = g.in(1, es), j = from < 2 ? g.in(1, es) : i;
          std::vector<loops_t> L;
          int t = i, u = j;
          if (from & 1) {
            t = g.mid(1, es), g.call({t}, {{i, {P(0)}}}), L.push_back({{}});
            u = t;
            if (from == 1) u = g.mid(1, es), g.call({u}, {{j, {P(0)}}}), L.push_back({{}});
          }
          int v = w ? g.mid(1, es) : -1, o = g.out(1, es);
          // outputs from -3 to 12: two parts
          inp a = out_crop(in_crop(C(t, {P(0, 3)}), {{0, split + 2}}), {{-3, split - 1}});
          inp b = out_crop(in_crop(C(u, {P(0, -split)}), {{0, 20}}), {{split, 20 + split}});
          g.copy(w ? v : o, {a, b});
          L.push_back(w ? loops1(0) : loops1(2));
          if (w) g.call({o}, {{v, {w == 1 ? P(0) : W(0, 0, 1)}}}), L.push_back(loops1(1));
          add(g, L, runs1(), all_options());
        }
  for (int dim = 0; dim < 2; ++dim)
    for (int from = 0; from < 2; ++from)
      for (int w = 0; w < 2; ++w)
        for (int n = 2; n < 4; ++n) {
          graph g;
          g.name = en::fmt("concat 2d: %d%d%d%d", dim, from, w, n);
          std::vector<loops_t> L;
          std::vector<int> src;
          for (int k = 0; k < n; ++k) {
            int i = g.in(2);
            if (from) {
              int t = g.mid(2);
              g.call({t}, {{i, {P(0), P(1)}}}), L.push_back({{}});
              i = t;
            }
            src.push_back(i);
          }
          int v = w ? g.mid(2) : -1, o = g.out(2);
          std::vector<inp> parts;
          int edge[] = {-4, 0, 2, 12};
          for (int k = 0; k < n; ++k) {
            int lo = edge[k], hi = k + 1 == n ? 12 : edge[k + 1];
            std::vector<acc> a = {P(0), P(1)};
            a[dim] = P(dim, -lo);
            std::vector<crop1> ic(dim + 1), oc(dim + 1);
            ic[dim] = {0, hi - lo - 1};
            oc[dim] = {lo, hi - 1};
            parts.push_back(out_crop(in_crop(C(src[k], a), ic), oc));
          }
          g.copy(w ? v : o, parts);
          L.push_back(w ? loops2(0) : loops2(2));
          if (w) g.call({o}, {{v, {P(0), W(1, 0, 1)}}}), L.push_back(loops2(1));
          add(g, L, runs2(), two_options(), T());
        }
  // Stacks.
  for (int dim = 0; dim < 2; ++dim)
    for (int from = 0; from < 4; ++from)
      for (int w = 0; w < 2; ++w) {
        graph g;
        g.name = en::fmt("stack: %d%d%d", dim, from, w);
        int i = g.in(1), j = from < 2 ? g.in(1) : i, k = g.in(1);
        std::vector<loops_t> L;
        int t = i, u = j;
        if (from & 1) {
          t = g.mid(1), g.call({t}, {{i, {P(0)}}}), L.push_back({{}});
          u = t;
          if (from == 1) u = g.mid(1), g.call({u}, {{j, {P(0)}}}), L.push_back({{}});
        }
        int v = w ? g.mid(2) : -1, o = g.out(2);
        std::vector<inp> parts;
        int srcs[] = {t, u, k};
        for (int q = 0; q < 3; ++q) {
          std::vector<std::optional<int>> sl(dim + 1);
          sl[dim] = q;
          parts.push_back(out_slice(C(srcs[q], {P(1 - dim)}), sl));
        }
        g.copy(w ? v : o, parts).dims = {1 - dim};
        L.push_back(w ? loops_t{{}} : loops_t{{}, {{1 - dim, 1, 1}}, {{1 - dim, 2, 1}}, {{1 - dim, 1, 0}}});
        if (w) g.call({o}, {{v, {P(0), P(1)}}}), L.push_back(loops2(1));
        std::vector<std::vector<box>> outs = {{dim ? B2(0, 3, 0, 2) : B2(0, 2, 0, 3)}, {dim ? B2(-1, 3, 1, 2) : B2(1, 2, -1, 3)}, {dim ? B2(2, 4, 0, 0) : B2(0, 0, 2, 4)}};
        add(g, L, runs_for(outs), all_options());
      }
  // Optional broadcasts of inputs, and stages made by the helpers for concatenation and stacks.
  for (int kind = 0; kind < 5; ++kind)
    for (int one = 0; one < 2; ++one)
      for (int lo : {0, 3}) {
        graph g;
        g.name = en::fmt("optional broadcast: %d%d%d", kind, one, lo);
        int i = g.in(1), o = g.out(1), j = kind == 4 ? g.in(1) : -1;
        g.fix(i, {{one ? lo : -12, one ? lo : 20}});
        std::vector<loops_t> L;
        acc a = BC(0, one, lo);
        if (kind == 0) g.copy(o, {C(i, {a})}), L = {loops1(2)};
        if (kind == 1) g.call({o}, {{i, {a}}}), L = {loops1(2)};
        if (kind == 2 || kind == 4) {
          int t = g.mid(1);
          g.copy(t, {C(i, {a})});
          std::vector<inp> in = {{t, {kind == 2 ? W(0, -1, 1) : P(0)}}};
          if (kind == 4) in.push_back({j, {P(0)}});
          g.call({o}, in), L = {loops1(1), loops1(2)};
        }
        if (kind == 3) {
          int t = g.mid(1);
          g.call({t}, {{i, {a}}});
          g.copy(o, {C(t, {P(0, 1)})}), L = {loops1(1), loops1(1)};
        }
        add(g, L, runs1(), all_options());
      }
  for (int kind = 0; kind < 3; ++kind)
    for (int one = 0; one < 4; ++one)
      for (int tr = 0; tr < 2; ++tr) {
        graph g;
        g.name = en::fmt("optional broadcast 2d: %d%d%d", kind, one, tr);
        int i = g.in(2), j = g.in(2), o = g.out(2);
        using bx = std::pair<int, int>;
        g.fix(i, {one & 1 ? bx(2, 2) : bx(-12, 20), one & 2 ? bx(-1, -1) : bx(-12, 20)});
        std::vector<acc> a = {BC(tr, one & 1, 2), BC(1 - tr, one & 2, -1)};
        std::vector<loops_t> L;
        if (kind == 0) g.copy(o, {C(i, a)}), L = {loops2(2)};
        else {
          int t = g.mid(2);
          g.copy(t, {C(i, a)});
          g.call({o}, {{t, {P(0), kind == 1 ? P(1) : W(1, -1, 1)}}, {j, {P(0), P(1)}}}), L = {loops2(0), loops2(3)};
        }
        add(g, L, runs2(), two_options());
      }
  for (int helper = 1; helper < 4; ++helper)
    for (int rank = 1; rank < 3; ++rank)
      for (int dim = 0; dim < rank; ++dim)
        for (int from = 0; from < 2; ++from)
          for (int w = 0; w < 2; ++w)
            for (int n = 1; n < 4; ++n) {
              if (helper == 2 && from) continue;
              graph g;
              g.name = en::fmt("%s: %d%d%d%d%d%d", helper == 3 ? "make stack" : "make concat", helper, rank, dim, from, w, n);
              const int edge[] = {0, 2, 3, 7};
              std::vector<loops_t> L;
              std::vector<inp> parts;
              for (int k = 0; k < n; ++k) {
                int r = rank - (helper == 3);
                int i = g.in(r), t = i;
                if (helper == 2) {
                  std::vector<std::pair<int, int>> b(r, {-12, 12});
                  b[dim] = {0, edge[k + 1] - edge[k] - 1};
                  g.fix(i, b);
                }
                std::vector<acc> id, a;
                for (int d = 0; d < r; ++d) id.push_back(P(d));
                if (from) {
                  t = g.mid(r);
                  g.call({t}, {{i, id}}), L.push_back({{}});
                }
                if (helper == 3) {
                  for (int d = 0; d < rank; ++d)
                    if (d != dim) a.push_back(P(d));
                  std::vector<std::optional<int>> sl(dim + 1);
                  sl[dim] = k;
                  parts.push_back(out_slice(C(t, a), sl));
                } else {
                  a = id;
                  a[dim] = P(dim, -edge[k]);
                  std::vector<crop1> ic(dim + 1), oc(dim + 1);
                  ic[dim] = {0, edge[k + 1] - edge[k] - 1};
                  oc[dim] = {edge[k], edge[k + 1] - 1};
                  parts.push_back(out_crop(in_crop(C(t, a), ic), oc));
                }
              }
              int v = w ? g.mid(rank) : -1, o = g.out(rank);
              stage& c = g.copy(w ? v : o, parts);
              c.helper = helper, c.helper_dim = dim;
              if (helper == 3) c.dims.erase(c.dims.begin() + dim);
              std::vector<acc> id;
              for (int d = 0; d < rank; ++d) id.push_back(P(d));
              if (helper == 3) {
                loops_t l = {{}};
                if (!w && rank == 2) l = {{}, {{1 - dim, 1, 1}}, {{1 - dim, 2, 1}}, {{1 - dim, 1, 0}}};
                L.push_back(l);
              } else {
                L.push_back(w ? loops_t{{}} : rank == 1 ? loops1(2) : loops2(2));
              }
              if (w) g.call({o}, {{v, id}}), L.push_back(rank == 1 ? loops1(1) : loops2(1));
              int end = helper == 3 ? n - 1 : edge[n] - 1;
              std::vector<std::vector<box>> outs;
              for (auto p : {std::make_pair(0, end), std::make_pair(1, end), std::make_pair(0, 0), std::make_pair(end, end)}) {
                if (p.first > p.second) continue;
                if (rank == 1) outs.push_back({B1(p.first, p.second)});
                else outs.push_back({dim ? B2(-1, 3, p.first, p.second) : B2(p.first, p.second, -1, 3)});
              }
              add(g, L, runs_for(outs), two_options(), false);
            }
  // Flat copies of dense memory to a buffer of another shape.
  std::vector<run_spec> plain;
  for (const run_spec& r : runs1())
    if (!r.in.pad && !r.in.margin && !r.in.reversed && !r.out.pad && !r.out.reversed) plain.push_back(r);
  for (int from = 0; from < 4; ++from)
    for (int to = 0; to < 5; ++to)
      for (int shape = 0; shape < 4; ++shape)
        for (int ip = 0; ip < 2; ++ip) {
          // from: an input, a computed buffer, a computed buffer also consumed, a copy of an input
          // to: consumed, padded, copied, padded and the flat copy consumed, copied to an output
          using bx = std::vector<std::pair<int, int>>;
          bx ib = std::vector<bx>{{{0, 11}}, {{0, 3}, {0, 2}}, {{1, 12}}, {{0, 11}}}[shape];
          bx ob = std::vector<bx>{{{0, 3}, {0, 2}}, {{0, 11}}, {{0, 11}}, {{0, 11}}}[shape];
          graph g;
          g.name = en::fmt("flat: %d%d%d%d", from, to, shape, ip);
          std::vector<loops_t> L;
          int i = g.in((int)ib.size());
          g.fix(i, ib);
          auto shaped = [&](int b, const bx& s) {
            for (size_t d = 0; d < s.size(); ++d) g.bufs[b].box[d].lo = s[d].first, g.bufs[b].box[d].hi = s[d].second;
            g.bufs[b].dense = g.bufs[b].r == MID;
            return b;
          };
          auto all = [](const bx& s) {
            std::vector<acc> a;
            for (auto& d : s) a.push_back(K(d.first, d.second));
            return a;
          };
          auto id = [](const bx& s) {
            std::vector<acc> a;
            for (int d = 0; d < (int)s.size(); ++d) a.push_back(P(d));
            return a;
          };
          int t = from ? shaped(g.mid((int)ib.size()), ib) : i, u = shaped(g.mid((int)ob.size()), ob), o = g.out(1);
          if (from == 3) g.copy(t, {C(i, id(ib))}), L.push_back({{}});
          else if (from) g.call({t}, {{i, id(ib)}}), L.push_back({{}});
          stage& f = g.call({u}, {{t, all(ib)}});
          f.flat = true, f.in_place = ip;
          L.push_back({{}});
          int v = u;
          bx vb = ob;
          if (to == 1 || to == 3) {
            v = g.mid((int)ob.size());
            int p = g.constant({});
            std::vector<crop1> c;
            for (auto& d : ob) c.push_back({d.first, d.second});
            g.pad(v, in_crop(C(u, id(ob)), c), C(p, {})), L.push_back({{}});
            vb[0].first -= 1, vb.back().second += 1;
          } else if (to == 2) {
            v = g.mid((int)ob.size());
            g.copy(v, {C(u, id(ob))}), L.push_back({{}});
          } else if (to == 4 && shape > 0) {
            g.copy(o, {C(u, {P(0)})}), L.push_back({{}});
            add(g, L, few(runs_for({{B1(0, 11)}}), 1), two_options());
            continue;
          } else if (to == 4) {
            continue;
          }
          std::vector<inp> ins = {{v, all(vb)}};
          if (to == 3) ins.push_back({u, all(ob)});
          if (from == 2) ins.push_back({t, all(ib)});
          g.call({o}, ins), L.push_back(loops1(1));
          add(g, L, plain, two_options());
        }
  // Computation in place.
  for (int k = 0; k < 12; ++k)
    for (int ip = 0; ip < 4; ++ip)
      for (int es : {4}) {
        graph g;
        g.name = en::fmt("in place: %d %d %d", k, ip, es);
        int i = g.in(1), j = g.in(1), t = g.mid(1), u = g.mid(1), v = g.mid(1, es), o = g.out(1);
        std::vector<loops_t> L = {{{}}, loops1(0), loops1(0), loops1(1)};
        stage* s;
        switch (k) {
        case 0:  // a chain
          g.call({t}, {{i, {P(0)}}});
          s = &g.call({u}, {{t, {P(0)}}}), s->in_place = ip;
          s = &g.call({v}, {{u, {P(0)}}}), s->in_place = ip;
          s = &g.call({o}, {{v, {P(0)}}}), s->in_place = ip;
          break;
        case 1:  // the first is also used later
          g.call({t}, {{i, {P(0)}}});
          s = &g.call({u}, {{t, {P(0)}}}), s->in_place = ip;
          s = &g.call({v}, {{u, {P(0)}}}), s->in_place = ip;
          s = &g.call({o}, {{v, {P(0)}}, {t, {P(0)}}}), s->in_place = ip;
          break;
        case 2:  // inputs
          s = &g.call({t}, {{i, {P(0)}}}), s->in_place = ip;
          s = &g.call({u}, {{t, {P(0)}}, {i, {P(0)}}}), s->in_place = ip;
          s = &g.call({v}, {{j, {P(0)}}, {u, {P(0)}}}), s->in_place = ip;
          s = &g.call({o}, {{v, {P(0)}}, {j, {P(0)}}}), s->in_place = ip;
          break;
        case 3:  // a stencil after
          g.call({t}, {{i, {P(0)}}});
          s = &g.call({u}, {{t, {P(0)}}}), s->in_place = ip;
          s = &g.call({v}, {{u, {W(0, -1, 1)}}});
          s = &g.call({o}, {{v, {P(0)}}, {j, {P(0)}}}), s->in_place = ip;
          break;
        case 4:  // a stencil of the first
          g.call({t}, {{i, {P(0)}}});
          s = &g.call({u}, {{t, {W(0, -1, 1)}}});
          s = &g.call({v}, {{t, {P(0)}}, {u, {P(0)}}}), s->in_place = ip;
          s = &g.call({o}, {{v, {P(0)}}, {j, {P(0)}}}), s->in_place = ip;
          break;
        case 5:  // the same buffer elementwise and as a stencil
          g.call({t}, {{i, {P(0)}}});
          s = &g.call({u}, {{t, {P(0)}}, {t, {W(0, 0, 1)}}}), s->in_place = ip & 1;
          s = &g.call({v}, {{u, {W(0, -1, 0)}}, {u, {P(0)}}}), s->in_place = ip & 2;
          s = &g.call({o}, {{v, {P(0)}}}), s->in_place = ip;
          break;
        case 6:  // outputs of different bounds
          g.call({t}, {{i, {P(0)}}});
          s = &g.call({u}, {{t, {P(0)}}}), s->in_place = ip;
          s = &g.call({v}, {{u, {W(0, -2, 2)}}, {t, {P(0)}}}), s->in_place = ip & 2;
          s = &g.call({o}, {{v, {P(0)}}, {u, {P(0)}}}), s->in_place = ip;
          break;
        case 7:  // two computed buffers
          g.call({t}, {{i, {P(0)}}});
          g.call({u}, {{j, {P(0)}}});
          s = &g.call({v}, {{t, {P(0)}}, {u, {P(0)}}}), s->in_place = ip;
          s = &g.call({o}, {{v, {P(0)}}, {t, {P(0)}}}), s->in_place = ip;
          break;
        case 8:  // after a copy
          g.call({t}, {{i, {P(0)}}});
          g.copy(u, {C(t, {P(0, 1)})});
          s = &g.call({v}, {{u, {P(0)}}, {t, {P(0)}}}), s->in_place = ip;
          s = &g.call({o}, {{v, {P(0)}}, {u, {P(0)}}}), s->in_place = ip;
          break;
        case 9:  // before a copy
          g.call({t}, {{i, {P(0)}}});
          s = &g.call({u}, {{t, {P(0)}}, {j, {P(0)}}}), s->in_place = ip;
          if (es != 4) continue;
          g.copy(v, {C(u, {P(0, -1)})});
          s = &g.call({o}, {{v, {P(0)}}, {t, {P(0)}}}), s->in_place = ip;
          break;
        case 10:  // of a copy of an input
          g.copy(t, {C(i, {P(0)})});
          s = &g.call({u}, {{t, {P(0)}}, {j, {P(0)}}}), s->in_place = ip;
          s = &g.call({v}, {{u, {P(0)}}, {i, {P(0)}}}), s->in_place = ip;
          s = &g.call({o}, {{v, {P(0)}}, {u, {P(0)}}}), s->in_place = ip;
          break;
        case 11:  // of a copy of a padded constant
        {
          int c = g.constant({{-12, 30}}), z = g.constant({});
          g.pad(t, in_crop(C(c, {P(0, 1)}), {{0, 5}}), C(z, {}));
          s = &g.call({u}, {{t, {P(0)}}, {c, {P(0)}}}), s->in_place = ip;
          s = &g.call({v}, {{c, {P(0)}}, {u, {P(0)}}}), s->in_place = ip;
          s = &g.call({o}, {{v, {P(0)}}, {i, {P(0)}}, {j, {P(0)}}}), s->in_place = ip;
          break;
        }
        }
        add(g, L, few(runs1(), 4), {all_options()[0]});
      }
  for (int k = 0; k < 4; ++k)
    for (int ip = 0; ip < 4; ++ip)
      for (int al = 0; al < 3; ++al) {
        graph g;
        g.name = en::fmt("in place 2d: %d %d %d", k, ip, al);
        int i = g.in(2), j = g.in(1), t = g.mid(2), u = g.mid(2), o = g.out(2);
        // The strides we ask for do not allow for folding.
        if (al == 1 && k >= 2) continue;
        if (al == 1) g.bufs[t].transposed = true;
        if (al == 2) g.bufs[u].align[0] = 4;
        stage* s;
        g.call({t}, {{i, {P(0), P(1)}}});
        s = &g.call({u}, {{t, {P(0), P(1)}}, {j, {P(0)}}}), s->in_place = k == 1 ? 0 : ip & 1;
        if (k == 0) s = &g.call({o}, {{u, {P(0), P(1)}}}), s->in_place = ip & 1;
        if (k == 1) s = &g.call({o}, {{t, {P(0), P(1)}}, {u, {P(0), P(1)}}}), s->in_place = ip;
        if (k == 2) s = &g.call({o}, {{u, {P(0), W(1, 0, 1)}}, {t, {P(0), P(1)}}}), s->in_place = ip & 2;
        if (k == 3) s = &g.call({o}, {{u, {P(0), K(0, 1)}}, {t, {P(0), P(1)}}}), s->in_place = ip & 2;
        add(g, {{{}}, loops2(0), loops2(2)}, runs2(), two_options());
      }
  // Stages with two outputs, in place.
  for (int ip = 0; ip < 4; ++ip) {
    graph g;
    g.name = en::fmt("in place, two outputs: %d", ip);
    int i = g.in(1), t = g.mid(1), t2 = g.mid(1), u = g.mid(1), v = g.mid(1), o = g.out(1);
    g.call({t, t2}, {{i, {P(0)}}});
    stage* s = &g.call({u, v}, {{t, {P(0)}}, {t2, {P(0)}}});
    s->in_place = ip;
    s = &g.call({o}, {{u, {P(0)}}, {v, {P(0)}}}), s->in_place = ip;
    add(g, {{{}}, loops1(0), loops1(2)}, runs1(), two_options());
  }
}

}  // namespace

void faults() {
  std::vector<run_spec> r1, r2;
  r1.push_back({{B1(0, 5)}, dense, dense, 0});
  r1.push_back({{B1(-3, 1)}, dense, padded, 4096});
  r2.push_back({{B2(0, 2, 0, 3)}, dense, dense, 0});
  auto twice = [](std::vector<run_spec> r) {
    for (run_spec& i : r) i.outs.push_back(i.outs[0]);
    return r;
  };
  std::vector<options> opts = all_options();
  std::vector<options> heap = {opts[0], opts[2]};
  for (const acc& a : {P(0), W(0, -1, 1), W(0, 0, 2), S(0, 2, 1, 0, 1)})
    for (const acc& b : few_accs(0)) {
      graph g;
      g.name = "chain2: " + str(a) + " " + str(b);
      int i = g.in(1), t = g.mid(1), o = g.out(1);
      g.call({t}, {{i, {a}}});
      g.call({o}, {{t, {b}}});
      add(g, {loops1(1), loops1(2)}, r1, opts);
    }
  for (const acc& a : {P(0), W(0, -1, 1)})
    for (const acc& b : {P(0), W(0, 0, 2)}) {
      graph g;
      g.name = "chain3: " + str(a) + " " + str(b);
      int i = g.in(1), t = g.mid(1), u = g.mid(1), o = g.out(1);
      g.call({t}, {{i, {P(0)}}});
      g.call({u}, {{t, {a}}});
      g.call({o}, {{u, {b}}});
      add(g, {loops1(1), loops1(1), loops1(2)}, r1, heap);
    }
  for (const acc& a : {P(0), W(0, -1, 1)})
    for (const acc& b : {P(0), W(0, 0, 2)}) {
      graph g;
      g.name = "diamond: " + str(a) + " " + str(b);
      int i = g.in(1), t = g.mid(1), u = g.mid(1), v = g.mid(1), o = g.out(1);
      g.call({t}, {{i, {P(0)}}});
      g.call({u}, {{t, {a}}});
      g.call({v}, {{t, {b}}});
      g.call({o}, {{u, {P(0)}}, {v, {P(0)}}});
      add(g, {loops1(0), loops1(1), loops1(0), loops1(1)}, r1, heap);
    }
  for (const acc& a : {P(0), W(0, -1, 1)}) {
    graph g;
    g.name = "outputs: " + str(a);
    int i = g.in(1), t = g.mid(1), o = g.out(1), q = g.out(1);
    g.call({t}, {{i, {P(0)}}});
    g.call({o}, {{t, {a}}});
    g.call({q}, {{t, {P(0)}}});
    add(g, {loops1(1), loops1(1), loops1(1)}, twice(r1), heap);
  }
  for (const acc& a : {P(0), W(0, -1, 1)}) {
    graph g;
    g.name = "two outputs: " + str(a);
    int i = g.in(1), t = g.mid(1), u = g.mid(1, 2), o = g.out(1);
    g.call({t, u}, {{i, {P(0)}}});
    g.call({o}, {{t, {a}}, {u, {P(0)}}});
    add(g, {loops1(1), loops1(2)}, r1, opts);
  }
  for (const acc& a : {P(1), W(1, -1, 1)})
    for (int d = 0; d < 2; ++d) {
      graph g;
      g.name = en::fmt("chain2d: %d ", d) + str(a);
      int i = g.in(2), t = g.mid(2), o = g.out(2);
      g.call({t}, {{i, {P(0), d ? a : P(1)}}});
      g.call({o}, {{t, {d ? W(0, 0, 1) : P(0), a}}});
      add(g, {loops2(2), loops2(3)}, r2, heap);
    }
  // with copies
  for (int k = 0; k < 4; ++k) {
    graph g;
    g.name = en::fmt("copy: %d", k);
    int i = g.in(1), t = g.mid(1), u = g.mid(1), o = g.out(1);
    g.call({t}, {{i, {P(0)}}});
    g.copy(u, {C(t, {k == 0 ? P(0) : k == 1 ? P(0, 2) : k == 2 ? S(0, -1, 1, 3, 3) : S(0, 2, 1, 0, 0)})});
    g.call({o}, {{u, {k == 1 ? W(0, 0, 1) : P(0)}}});
    add(g, {loops1(0), {{}}, loops1(1)}, r1, heap);
  }
  // in place
  for (int k = 0; k < 2; ++k) {
    graph g;
    g.name = en::fmt("in place: %d", k);
    int i = g.in(1), t = g.mid(1), u = g.mid(1), o = g.out(1);
    g.call({t}, {{i, {P(0)}}});
    stage* s = &g.call({u}, {{t, {P(0)}}});
    s->in_place = 1;
    s = &g.call({o}, {{u, {P(0)}}});
    s->in_place = k;
    add(g, {loops1(1), loops1(1), loops1(1)}, r1, heap);
  }
}

void arguments() {
  std::vector<run_spec> r1, r2;
  r1.push_back({{B1(0, 5)}, dense, dense, 0});
  r1.push_back({{B1(-3, 3)}, dense, padded, 0});
  r1.push_back({{B1(1, 1)}, padded, dense, 0});
  r2.push_back({{B2(0, 3, 0, 2)}, dense, dense, 0});
  r2.push_back({{B2(-2, 1, 1, 1)}, padded, reversed, 0});
  auto twice = [](std::vector<run_spec> r) {
    for (run_spec& i : r) i.outs.push_back(i.outs[0]);
    return r;
  };
  std::vector<options> opts = all_options();
  opts = {opts[0], opts[2], opts[3]};
  loops_t one = {{}}, l1 = {{}, {{0, 2, 1}}}, l2 = {{}, {{0, 2, 1}, {1, 1, 1}}};
  for (const acc& a : accs(0)) {
    graph g;
    g.name = "one: " + str(a);
    int i = g.in(1), o = g.out(1);
    g.call({o}, {{i, {a}}});
    add(g, {loops1(2)}, r1, opts);
  }
  for (const acc& a : accs(0))
    for (const acc& b : few_accs(0)) {
      graph g;
      g.name = "chain2: " + str(a) + " " + str(b);
      int i = g.in(1, 2), t = g.mid(1), o = g.out(1);
      g.call({t}, {{i, {a}}});
      g.call({o}, {{t, {b}}});
      add(g, {l1, l1}, r1, {opts[0], opts[2]});
    }
  for (const acc& a : few_accs(0))
    for (const acc& b : few_accs(0)) {
      graph g;
      g.name = "two inputs: " + str(a) + " " + str(b);
      int i = g.in(1), j = g.in(1, 2), o = g.out(1);
      g.call({o}, {{i, {a}}, {j, {b}}});
      add(g, {l1}, r1, {opts[0]});
    }
  for (const acc& a : few_accs(0))
    for (const acc& b : few_accs(0)) {
      graph g;
      g.name = "input used twice: " + str(a) + " " + str(b);
      int i = g.in(1), t = g.mid(1), o = g.out(1);
      g.call({t}, {{i, {a}}});
      g.call({o}, {{t, {W(0, 0, 1)}}, {i, {b}}});
      add(g, {l1, l1}, r1, {opts[0]});
    }
  for (const acc& a : few_accs(0)) {
    graph g;
    g.name = "two outputs: " + str(a);
    int i = g.in(1), o = g.out(1), q = g.out(1, 2);
    g.call({o}, {{i, {a}}});
    g.call({q}, {{i, {W(0, 0, 1)}}});
    std::vector<run_spec> r = twice(r1);
    r[0].outs[1] = B1(2, 8);
    add(g, {l1, l1}, r, {opts[0]});
  }
  {
    graph g;
    g.name = "unused input";
    int i = g.in(1);
    g.in(1);
    int o = g.out(1);
    g.call({o}, {{i, {W(0, -1, 1)}}});
    add(g, {l1}, r1, opts);
  }
  {
    graph g;
    g.name = "scalar";
    int i = g.in(0), j = g.in(1), o = g.out(1);
    g.call({o}, {{i, {}}, {j, {P(0)}}});
    add(g, {l1}, r1, opts);
  }
  std::vector<std::vector<acc>> acc2 = {{P(0), P(1)}, {W(0, -1, 1), W(1, 0, 2)}, {P(1), P(0)}, {P(0), K(1, 2)}, {S(0, 2, 1, 0, 1), S(1, -1, 1, 0, 0)}};
  for (const auto& a : acc2) {
    graph g;
    g.name = "2d: " + str(a[0]) + "," + str(a[1]);
    int i = g.in(2), o = g.out(2);
    g.call({o}, {{i, a}});
    add(g, {l2}, r2, {opts[0]});
    graph h;
    h.name = "2d chain: " + str(a[0]) + "," + str(a[1]);
    i = h.in(2);
    int t = h.mid(2);
    o = h.out(2);
    h.call({t}, {{i, a}});
    h.call({o}, {{t, {P(0), W(1, -1, 1)}}});
    add(h, {one, l2}, r2, {opts[0]});
  }
  for (int k = 0; k < 6; ++k) {
    graph g;
    g.name = en::fmt("copy: %d", k);
    int i = g.in(1), j = g.in(1), o = g.out(1);
    if (k < 3) {
      g.copy(o, {C(i, {k == 0 ? P(0) : k == 1 ? P(0, 2) : S(0, -1, 1, 0, 0)})});
    } else if (k == 3) {
      int t = g.mid(1);
      g.copy(t, {C(i, {P(0, 1)})});
      g.call({o}, {{t, {W(0, -1, 1)}}, {j, {P(0)}}});
    } else if (k == 4) {
      g.pad(o, in_crop(C(i, {P(0)}), {{0, 3}}), C(j, {P(0)}));
    } else {
      g.copy(o, {out_crop(C(i, {P(0)}), {{-INF, 1}}), out_crop(C(j, {P(0)}), {{2, INF}})});
    }
    add(g, {one, one}, k >= 4 ? std::vector<run_spec>{r1[0], r1[2]} : r1, {opts[0], opts[1]});
  }
}

static std::vector<en::family> make() {
#if defined(PROP_C07)
  copies();
  // Inputs and outputs that may be folded are rarely aliased.
  for (group& g : groups) {
    options o = g.opts[0];
    o.unfolded = true;
    // The default of groups with all options differs from the second only by storage and checks.
    if (g.opts.size() >= 4 && !T()) g.opts[0] = o;
    else g.opts.insert(g.opts.begin(), o);
  }
  // Some of them with crops and offsets that are arguments.
  for (size_t k = 0, n = groups.size(); k < n; ++k) {
    const std::string& name = groups[k].g->name;
    bool take = false;
    for (const char* p : {"pad: 00", "pad: 11", "pad: 210", "concat: 1", "concat: 3", "stack: ", "copy between: "}) take |= name.compare(0, strlen(p), p) == 0;
    if (!take || groups[k].g->st.size() > 3 + (size_t)T()) continue;
    group gr = groups[k];
    gr.g = std::make_shared<graph>(*gr.g);
    gr.g->name = "args " + name;
    options a, b;
    a.args = 1, b.args = 3, b.no_alias = true;
    gr.opts = {a, b};
    if (stored_in_loops_fails(name)) {
      gr.scheds.erase(std::remove_if(gr.scheds.begin(), gr.scheds.end(), [](const sched& i) {
        for (const auto& j : i.st)
          for (const at_s& a : j.store)
            if (a.stage >= 0) return true;
        return false;
      }), gr.scheds.end());
    }
    groups.push_back(gr);
  }
#elif defined(PROP_C18)
  arguments();
#elif defined(PROP_C17)
  faults();
#else
  computations();
#endif
  if (const char* only = getenv("VERIF_ONLY")) {
    std::vector<group> g2;
    for (group& g : groups)
      if (g.g->name.find(only) == 0) g2.push_back(g);
    groups = g2;
  }
  // One family for each kind of graph.
  std::vector<en::family> f;
  for (size_t i = 0; i < groups.size();) {
    auto kind = [](const group& g) { return g.g->name.substr(0, g.g->name.find(':')); };
    auto units = std::make_shared<std::vector<std::pair<const group*, int>>>();
    std::string k = kind(groups[i]);
    for (; i < groups.size() && kind(groups[i]) == k; ++i)
      for (size_t j = 0; j < groups[i].scheds.size(); ++j) units->emplace_back(&groups[i], (int)j);
    f.push_back({k, units->size(), [units](uint64_t u) { check(*(*units)[u].first, (*units)[u].first->scheds[(*units)[u].second]); },
        [units](uint64_t u) {
          const group& g = *(*units)[u].first;
          return g.g->name + str(*g.g, g.scheds[(*units)[u].second]);
        }});
  }
  return f;
}

int main(int argc, char** argv) {
#if defined(PROP_C17) || defined(PROP_C18)
  std::cerr.setstate(std::ios::failbit);
#endif
  static auto s = en::families(PROP,
#if defined(PROP_C17)
      "a fault at every call and every allocation of runs of "
#endif
      "all schedules of the listed graphs (loops, steps, workers, compute_at and store_at locations), build options, output boxes and layouts", make);
  return en::main_driver(argc, argv, s);
}
