// C05: small pipelines with parallel loops, run on the real thread pool under every interleaving.
// PROP_C20: some of the same, traced.
#include <cstdio>
#include <cstring>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "engine.h"
#include "slinky/base/thread_pool_impl.h"
#include "slinky/builder/optimizations.h"
#include "slinky/builder/pipeline.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/print.h"

using namespace slinky;

namespace {

// The call of stage `stage` whose output begins at `at` fails.
int fail_stage = -1, fail_at = 0;
bool fails(int stage, const raw_buffer& out) { return stage == fail_stage && out.dim(0).min() <= fail_at && fail_at <= out.dim(0).max(); }

// The reference is the same pipeline with serial loops.
bool reference = false;

// The traces that each thread has begun and not ended.
struct tracer {
  std::vector<std::pair<index_t, std::string>> open[8];
  index_t next = 1;
  int calls = 0;
  index_t begin(const char* name) {
    mc::quiet q;
    open[mc::thread_id()].emplace_back(next, name);
    calls += !strcmp(name, "call");
    return next++;
  }
  void end(index_t id) {
    mc::quiet q;
    auto& o = open[mc::thread_id()];
    mc::check(!o.empty() && o.back().first == id, "an end does not match the last begin of its thread");
    o.pop_back();
  }
  void call() {
    mc::quiet q;
    auto& o = open[mc::thread_id()];
    mc::check(!o.empty() && o.back().second == "call", "a call is not traced");
  }
  void done() {
    mc::quiet q;
    for (auto& o : open) mc::check(o.empty(), "a begin is not matched by an end");
  }
};
#ifdef PROP_C20
constexpr bool traced = true;
#else
constexpr bool traced = false;
#endif
tracer* trace = nullptr;
build_options opts() {
  build_options o;
  o.trace = traced && !reference;
  return o;
}

using cbuf = buffer<const int>;
using obuf = buffer<int>;

// f(x) = sum of a(x + i) * (i + 2)
index_t stencil(int stage, const cbuf& a, const obuf& b, int lo, int hi) {
  mc::point();
  if (trace) trace->call();
  if (fails(stage, b)) return 1;
  for (index_t x = b.dim(0).begin(); x < b.dim(0).end(); ++x) {
    int v = 0;
    for (int i = lo; i <= hi; ++i) v += a(x + i) * (i + 2);
    b(x) = v;
  }
  return 0;
}
index_t stencil2(int stage, const cbuf& a, const obuf& b, int lo, int hi) {
  mc::point();
  if (trace) trace->call();
  if (fails(stage, b)) return 1;
  for (index_t y = b.dim(1).begin(); y < b.dim(1).end(); ++y)
    for (index_t x = b.dim(0).begin(); x < b.dim(0).end(); ++x) {
      int v = 0;
      for (int i = lo; i <= hi; ++i) v += a(x, y + i) * (i + 2);
      b(x, y) = v;
    }
  return 0;
}
index_t add(int stage, const cbuf& a, const cbuf& b, const obuf& c) {
  mc::point();
  if (trace) trace->call();
  if (fails(stage, c)) return 1;
  for (index_t x = c.dim(0).begin(); x < c.dim(0).end(); ++x) c(x) = a(x) * 3 + b(x);
  return 0;
}
func S1(int stage, buffer_expr_ptr a, buffer_expr_ptr b, var x, int lo, int hi) {
  return func::make([=](const cbuf& i, const obuf& o) -> index_t { return stencil(stage, i, o, lo, hi); }, {{a, {bounds(x + lo, x + hi)}}}, {{b, {x}}});
}
func S2(int stage, buffer_expr_ptr a, buffer_expr_ptr b, var x, var y, int lo, int hi) {
  return func::make([=](const cbuf& i, const obuf& o) -> index_t { return stencil2(stage, i, o, lo, hi); },
      {{a, {point(x), bounds(y + lo, y + hi)}}}, {{b, {x, y}}});
}
func A1(int stage, buffer_expr_ptr a, buffer_expr_ptr b, buffer_expr_ptr c, var x) {
  return func::make([=](const cbuf& i, const cbuf& j, const obuf& o) -> index_t { return add(stage, i, j, o); },
      {{a, {point(x)}}, {b, {point(x)}}}, {{c, {x}}});
}

constexpr int all = loop::parallel;
int L(int w) { return reference ? loop::serial : w; }
int in_value(index_t x, index_t y = 0) { return (int)(x * x + 7 * x + 13 * y * y + y + 5); }

// One pipeline with the shapes of its buffers. Inputs and outputs are of rank 1 or 2, [min, max] of each dimension.
struct program {
  std::string name;
  int workers = 1, bound_quick = 2, bound_thorough = 3;
  int fail_stage = -1, fail_at = 0;
  int rank = 1;
  int in_box[4] = {-4, 12, 0, 0}, out_box[4] = {0, 2, 0, 0};
  int outputs = 1;
  int callers = 1;
  std::function<pipeline()> build;
  pipeline p;
  std::vector<int> expected;
};

struct data {
  std::vector<int> in;
  std::vector<std::vector<int>> out;
  std::vector<obuf> ob;
  buffer<int, 2> ib;
  std::vector<std::unique_ptr<buffer<int, 2>>> obs;
  std::vector<const raw_buffer*> ins, outs;
  int failures = 0;

  void set(buffer<int, 2>& b, int rank, const int* box, std::vector<int>& v) {
    b.rank = rank;
    index_t n = 1;
    for (int d = 0; d < rank; ++d) {
      b.mutable_dim(d).set_bounds(box[2 * d], box[2 * d + 1]);
      b.mutable_dim(d).set_stride(n * sizeof(int));
      n *= b.dim(d).extent();
    }
    v.assign(n, -1);
    b.raw_buffer::base = v.data();
  }
  explicit data(const program& p) {
    set(ib, p.rank, p.in_box, in);
    size_t i = 0;
    for (int y = p.in_box[2]; y <= (p.rank > 1 ? p.in_box[3] : p.in_box[2]); ++y)
      for (int x = p.in_box[0]; x <= p.in_box[1]; ++x) in[i++] = in_value(x, y);
    ins = {&ib};
    out.resize(p.outputs);
    for (int o = 0; o < p.outputs; ++o) {
      obs.push_back(std::make_unique<buffer<int, 2>>());
      set(*obs[o], p.rank, p.out_box, out[o]);
      outs.push_back(&*obs[o]);
    }
  }
};

std::vector<std::unique_ptr<program>> programs;

index_t evaluate_with(const program& p, thread_pool* pool, data& d) {
  eval_config cfg;
  cfg.thread_pool = pool;
  cfg.call_failed = [&](const call_stmt*) {};
  cfg.check_failed = [&](const expr&) {};
  if (trace) {
    cfg.trace_begin = [](const char* name) { return trace->begin(name); };
    cfg.trace_end = [](index_t token) { trace->end(token); };
  }
  eval_context ctx;
  ctx.config = &cfg;
  return p.p.evaluate(d.ins, d.outs, ctx);
}
void judge(const program& p, const data& d, index_t rc) {
  mc::quiet q;
  if (p.fail_stage >= 0) {
    mc::check(rc != 0, "a run with a failing stage does not report the failure");
    return;
  }
  mc::check(rc == 0, "a run without failing stages reports a failure");
  size_t i = 0;
  for (auto& v : d.out)
    for (int k : v) mc::check(k == p.expected[i++], "the output differs from that of serial execution");
}

void body_of(program& p) {
  fail_stage = p.fail_stage, fail_at = p.fail_at;
  thread_pool_impl pool(p.workers);
  if (p.callers == 1) {
    data d(p);
    index_t rc = evaluate_with(p, &pool, d);
    judge(p, d, rc);
  } else {
    data d(p), e(p);
    index_t rc2 = 0;
    std::thread t([&]() { rc2 = evaluate_with(p, &pool, e); });
    index_t rc = evaluate_with(p, &pool, d);
    t.join();
    judge(p, d, rc);
    judge(p, e, rc2);
  }
}

void body(int i) {
  if (!traced) return body_of(*programs[i]);
  tracer t;
  trace = &t;
  body_of(*programs[i]);
  t.done();
  trace = nullptr;
}

program& prog(std::string name, std::function<pipeline()> build) {
  programs.push_back(std::make_unique<program>());
  program& p = *programs.back();
  p.name = std::move(name);
  p.build = std::move(build);
  return p;
}
std::string W(int w) { return w == all ? "n" : std::to_string(w); }

void make_programs() {
  // One stage.
  for (int w : {all, 2, 3})
    prog("one_" + W(w), [=]() {
      node_context c;
      var x(c, "x");
      auto in = buffer_expr::make(c, "in", 1, 4), out = buffer_expr::make(c, "out", 1, 4);
      func f = S1(0, in, out, x, 0, 0);
      f.loops({{x, 1, L(w)}});
      return build_pipeline(c, {in}, {out}, opts());
    }).bound_thorough = 4;
  // A stencil of a stencil, computed at different levels.
  for (int w : {all, 2, 3})
    for (int step : {1, 2})
      for (int at : {0, 1, 2}) {
        program& p = prog("stencil_" + W(w) + "_step" + std::to_string(step) + "_" + (at == 0 ? "auto" : at == 1 ? "inner" : "root"), [=]() {
          node_context c;
          var x(c, "x");
          auto in = buffer_expr::make(c, "in", 1, 4), t = buffer_expr::make(c, "t", 1, 4), out = buffer_expr::make(c, "out", 1, 4);
          func f = S1(0, in, t, x, 0, 0), g = S1(1, t, out, x, -1, 1);
          g.loops({{x, step, L(w)}});
          if (at == 1) f.compute_at({&g, x});
          if (at == 2) f.compute_root();
          return build_pipeline(c, {in}, {out}, opts());
        });
        p.out_box[1] = step == 1 ? 2 : 5;
      }
  // Chains.
  for (int w : {2, 3, all})
    for (int lo : {0, -1}) {
      program& p = prog("chain_" + W(w) + (lo ? "_back" : ""), [=]() {
        node_context c;
        var x(c, "x");
        auto in = buffer_expr::make(c, "in", 1, 4), t = buffer_expr::make(c, "t", 1, 4), u = buffer_expr::make(c, "u", 1, 4), out = buffer_expr::make(c, "out", 1, 4);
        func f = S1(0, in, t, x, 0, 0), g = S1(1, t, u, x, lo, lo + 1), h = S1(2, u, out, x, lo, lo + 1);
        h.loops({{x, 1, L(w)}});
        return build_pipeline(c, {in}, {out}, opts());
      });
      p.out_box[1] = 2;
    }
  // A stage read by two others.
  for (int w : {2, 3, all})
    prog("diamond_" + W(w), [=]() {
      node_context c;
      var x(c, "x");
      auto in = buffer_expr::make(c, "in", 1, 4), t = buffer_expr::make(c, "t", 1, 4), u = buffer_expr::make(c, "u", 1, 4), out = buffer_expr::make(c, "out", 1, 4);
      func f = S1(0, in, t, x, 0, 0), g = S1(1, t, u, x, -1, 0), h = A1(2, t, u, out, x);
      h.loops({{x, 1, L(w)}});
      return build_pipeline(c, {in}, {out}, opts());
    });
  // Two outputs.
  for (int w : {2, all}) {
    prog("outputs_" + W(w), [=]() {
      node_context c;
      var x(c, "x");
      auto in = buffer_expr::make(c, "in", 1, 4), t = buffer_expr::make(c, "t", 1, 4), o1 = buffer_expr::make(c, "o1", 1, 4), o2 = buffer_expr::make(c, "o2", 1, 4);
      func f = S1(0, in, t, x, 0, 0), g = S1(1, t, o1, x, -1, 0), h = S1(2, t, o2, x, 0, 1);
      g.loops({{x, 1, L(w)}});
      h.loops({{x, 1, L(w)}});
      return build_pipeline(c, {in}, {o1, o2}, opts());
    }).outputs = 2;
  }
  // Two dimensions: loops over one or both.
  for (int k = 0; k < 5; ++k) {
    static const char* names[] = {"y", "y2", "yx", "y2_serial_x", "serial_y_parallel_x"};
    program& p = prog(std::string("plane_") + names[k], [=]() {
      node_context c;
      var x(c, "x"), y(c, "y");
      auto in = buffer_expr::make(c, "in", 2, 4), t = buffer_expr::make(c, "t", 2, 4), out = buffer_expr::make(c, "out", 2, 4);
      func f = S2(0, in, t, x, y, 0, 0), g = S2(1, t, out, x, y, -1, 1);
      if (k == 0) g.loops({{y, 1, L(all)}});
      if (k == 1) g.loops({{y, 1, L(2)}});
      if (k == 2) g.loops({{y, 1, L(all)}, {x, 1, L(all)}}), f.compute_at({&g, y});
      if (k == 3) g.loops({{y, 1, L(2)}, {x, 1}});
      if (k == 4) g.loops({{y, 1}, {x, 1, L(all)}}), f.compute_at({&g, y});
      return build_pipeline(c, {in}, {out}, opts());
    });
    p.rank = 2;
    int in_box[] = {0, 1, -2, 4}, out_box[] = {0, 1, 0, 1};
    std::copy(in_box, in_box + 4, p.in_box);
    std::copy(out_box, out_box + 4, p.out_box);
  }
  // A copy and a padded copy between the stages.
  for (int w : {2, all})
    for (int padded : {0, 1})
      prog(std::string(padded ? "pad_" : "copy_") + W(w), [=]() {
        node_context c;
        var x(c, "x");
        auto in = buffer_expr::make(c, "in", 1, 4), t = buffer_expr::make(c, "t", 1, 4), u = buffer_expr::make(c, "u", 1, 4), out = buffer_expr::make(c, "out", 1, 4);
        auto zero = buffer_expr::make_scalar<int>(c, "zero", 7);
        func f = S1(0, in, t, x, 0, 0);
        func g = padded ? func::make_copy({t, {point(x)}, {bounds(0, 2)}}, {u, {x}}, {zero, {point(x)}}) : func::make_copy({t, {point(x - 1)}}, {u, {x}});
        func h = S1(2, u, out, x, -1, 0);
        h.loops({{x, 1, L(w)}});
        return build_pipeline(c, {in}, {out}, opts());
      });
  // Loops of their own for a producer.
  prog("two_loops", [=]() {
    node_context c;
    var x(c, "x");
    auto in = buffer_expr::make(c, "in", 1, 4), t = buffer_expr::make(c, "t", 1, 4), out = buffer_expr::make(c, "out", 1, 4);
    func f = S1(0, in, t, x, 0, 0), g = S1(1, t, out, x, -1, 0);
    f.loops({{x, 1, L(all)}});
    f.compute_root();
    g.loops({{x, 1, L(2)}});
    return build_pipeline(c, {in}, {out}, opts());
  });
  // Failing stages.
  for (int w : {2, all})
    for (int s : {0, 1})
      for (int at : {0, 1, 2}) {
        program& p = prog("fail_" + W(w) + "_stage" + std::to_string(s) + "_at" + std::to_string(at), [=]() {
          node_context c;
          var x(c, "x");
          auto in = buffer_expr::make(c, "in", 1, 4), t = buffer_expr::make(c, "t", 1, 4), out = buffer_expr::make(c, "out", 1, 4);
          func f = S1(0, in, t, x, 0, 0), g = S1(1, t, out, x, -1, 0);
          g.loops({{x, 1, L(w)}});
          return build_pipeline(c, {in}, {out}, opts());
        });
        p.fail_stage = s, p.fail_at = at;
      }
  // Two callers share a pool.
  for (int w : {2, all})
    prog("callers_" + W(w), [=]() {
      node_context c;
      var x(c, "x");
      auto in = buffer_expr::make(c, "in", 1, 4), t = buffer_expr::make(c, "t", 1, 4), out = buffer_expr::make(c, "out", 1, 4);
      func f = S1(0, in, t, x, 0, 0), g = S1(1, t, out, x, -1, 0);
      g.loops({{x, 1, L(w)}});
      return build_pipeline(c, {in}, {out}, opts());
    }).callers = 2, programs.back()->bound_quick = 1;
  // The same with two workers.
  size_t n = programs.size();
  for (size_t j = 0; j < 2 * n; ++j) {
    // The larger ones last: they get the time that is left.
    const size_t i = j % n;
    const std::string& name = programs[i]->name;
    auto is = [&](const char* s) { return name.find(s) == 0; };
    if (is("stencil_") && !is("stencil_n_step1") && !is("stencil_2_step1")) continue;
    if (is("chain_") && name != "chain_n") continue;
    if (name == "diamond_3") continue;
    if ((name == "diamond_n" || name == "chain_n") != (j >= n)) continue;
    if (is("fail_") && !is("fail_n_stage1") && !is("fail_2_stage0")) continue;
    bool heavy = is("callers") || is("plane_yx") || is("plane_y2_serial_x");
    programs.push_back(std::make_unique<program>(*programs[i]));
    programs.back()->name += "_workers2";
    programs.back()->workers = 2;
    programs.back()->bound_quick = heavy ? 0 : 1;
    programs.back()->bound_thorough = 2;
  }
}

std::vector<mc::scenario> scenarios;
template <int I>
void body_i() {
  body(I);
}
template <int... I>
void add_all(std::integer_sequence<int, I...>) {
  static void (*const bodies[])() = {body_i<I>...};
  for (int i = 0; i < (int)programs.size() && i < (int)sizeof...(I); ++i) {
    bool chosen = !traced;
    for (const char* s : {"one_n", "stencil_2_step1_auto", "chain_n", "plane_y", "plane_yx", "copy_2", "two_loops", "callers_2", "one_n_workers2",
             "fail_n_stage1_at1_workers2"})
      chosen |= programs[i]->name == s;
    chosen |= programs[i]->fail_stage >= 0 && programs[i]->workers == 1;
    if (chosen) scenarios.push_back({programs[i]->name.c_str(), bodies[i], programs[i]->bound_quick, programs[i]->bound_thorough});
  }
}

}  // namespace

int main(int argc, char** argv) {
  make_programs();
  for (auto& i : programs) {
    reference = true;
    i->p = i->build();
    data d(*i);
    fail_stage = -1;
    if (evaluate_with(*i, nullptr, d)) abort();
    reference = false;
    i->p = i->build();
    for (auto& v : d.out) i->expected.insert(i->expected.end(), v.begin(), v.end());
    if (argc > 1 && !strcmp(argv[1], "show")) {
      std::ostringstream s;
      s << i->p.body;
      printf("%s\n%s\n", i->name.c_str(), s.str().c_str());
      for (int v : i->expected) printf("%d ", v);
      printf("\n");
    }
  }
  add_all(std::make_integer_sequence<int, 256>());
  return mc::main_driver(argc, argv, scenarios.data(), (int)scenarios.size());
}
