// C19: the evaluator against a reference interpreter.
#include "exprlib.h"
#include "stmtgen.h"

using namespace sl;
using namespace slinky;
using en::fmt;

namespace {

// What the reference says.
struct ref_event { std::string name; std::vector<rbuf> b; std::vector<index_t> s; };
struct ref_run {
  std::vector<ref_event> ev;
  index_t result = 0;
  reference r;
  std::vector<int> regions_at;     // regions that exist, per event
};

void make_env(env& v, reference& r, int variant) {
  world& w = W();
  const raw_buffer* bs[] = {&w.b, &w.c, &w.k1, &w.k2};
  for (int i = 0; i < 4; ++i) {
    region g; g.sym = var(100 + i); g.caller = true; g.base = bs[i]->base; g.lo = -64; g.hi = 192;
    r.regions.push_back(g);
  }
  v.v[X].k = v.v[Y].k = INT;
  v.v[X].i = variant ? 0 : 2;
  v.v[Y].i = variant ? 1 : -1;
  v.v[B].k = v.v[C].k = BUF;
  v.v[B].b = sl::describe(w.b, 0);
  v.v[C].b = sl::describe(w.c, 1);
  r.constants.push_back({w.K1.get(), sl::describe(w.k1, 2)});
  r.constants.push_back({w.K2.get(), sl::describe(w.k2, 3)});
}

void run_ref(const stmt& s, int variant, int fail_at, uint32_t order, bool pool, ref_run& o) {
  env v;
  make_env(v, o.r, variant);
  o.r.async_order = order;
  o.r.has_pool = pool;
  o.r.on_call = [&](const call_stmt* op, const env& v) -> index_t {
    ref_event e;
    e.name = op->attrs.name;
    for (var i : op->inputs) e.b.push_back(v.v[i.id].b);
    for (auto& i : op->scalars) e.s.push_back(o.r.I(i, v));
    o.ev.push_back(std::move(e));
    return (int)o.ev.size() - 1 == fail_at ? 7 : 0;
  };
  o.result = o.r.run(s, v);
}

std::string show(const std::vector<index_t>& v) { std::string s; for (auto i : v) s += fmt(" %lld", (long long)i); return s; }

// "" if the run is what the reference says.
std::string compare(const ref_run& f, const real_run& r, index_t result, size_t n_events, bool whole) {
  size_t n = whole ? f.ev.size() : std::min(f.ev.size(), n_events);
  for (size_t i = 0; i < n && i < r.ev.size(); ++i) {
    const ref_event& a = f.ev[i];
    const event& b = r.ev[i];
    if (a.name != b.name) return fmt("event %zu is %s, not %s", i, b.name.c_str(), a.name.c_str());
    if (a.s != b.s) return fmt("event %zu (%s): values are%s, not%s", i, a.name.c_str(), show(b.s).c_str(), show(a.s).c_str());
  }
  if (whole ? r.ev.size() != f.ev.size() : r.ev.size() < n) return fmt("%zu calls ran, not %zu", r.ev.size(), f.ev.size());
  if ((f.result != 0) != (result != 0)) return fmt("the result is %lld, not %lld", (long long)result, (long long)f.result);
  std::vector<const char*> bound(f.r.regions.size(), nullptr);
  for (size_t i = 0; i < f.r.regions.size(); ++i) if (f.r.regions[i].caller) bound[i] = (const char*)f.r.regions[i].base;
  for (size_t i = 0; i < n; ++i) {
    std::vector<int> seen;
    for (size_t k = 0; k < f.ev[i].b.size(); ++k) {
      const rbuf& x = f.ev[i].b[k];
      const snap& y = r.ev[i].b[k];
      std::string ys;
      {
        rbuf t; t.base.region = 99; t.es = y.es; t.rank = y.rank;
        for (int d = 0; d < y.rank; ++d) t.d[d] = y.d[d];
        ys = sl::show(t);
      }
      bool same = x.es == y.es;
      rbuf xx = x; xx.trim();
      same = same && xx.rank == y.rank;
      for (int d = 0; same && d < xx.rank; ++d) same = xx.d[d] == y.d[d];
      if (!same) return fmt("event %zu (%s): buffer %zu is %s, not %s", i, f.ev[i].name.c_str(), k, ys.c_str(), sl::show(x).c_str());
      if (x.empty()) continue;
      if (x.base.region < 0) {
        if (y.base) return fmt("event %zu (%s): buffer %zu has a base, but should have none: %s", i, f.ev[i].name.c_str(), k, ys.c_str());
        continue;
      }
      if (!f.r.regions[x.base.region].caller && f.r.regions[x.base.region].hi <= f.r.regions[x.base.region].lo) continue;   // A view of no memory.
      if (!y.base) return fmt("event %zu (%s): buffer %zu has no base: %s", i, f.ev[i].name.c_str(), k, ys.c_str());
      const char* base = y.base - x.base.off;
      const region& g = f.r.regions[x.base.region];
      if (!bound[x.base.region]) {
        bound[x.base.region] = base;
        // It is memory of its own.
        for (size_t j = 0; j < bound.size(); ++j)
          if ((int)j != x.base.region && bound[j] && (f.r.regions[j].caller) && base + g.lo < bound[j] + f.r.regions[j].hi && bound[j] + f.r.regions[j].lo < base + g.hi)
            return fmt("event %zu (%s): buffer %zu overlaps a buffer of the caller", i, f.ev[i].name.c_str(), k);
      }
      if (bound[x.base.region] != base) return fmt("event %zu (%s): the base of buffer %zu is off by %lld: %s", i, f.ev[i].name.c_str(), k, (long long)(base - bound[x.base.region]), sl::show(x).c_str());
      if (g.heap) {
        bool ok = false;
        for (auto& a : r.allocs) ok = ok || (a.p <= base + g.lo && base + g.hi <= a.p + a.size && a.from <= (int)i && a.to > (int)i && a.sym == (int)g.sym.id);
        if (!ok) return fmt("event %zu (%s): buffer %zu is not in memory that is allocated now", i, f.ev[i].name.c_str(), k);
      }
      // Different memory that is visible at once does not overlap.
      for (int j : seen)
        if (j != x.base.region && base + g.lo < bound[j] + f.r.regions[j].hi && bound[j] + f.r.regions[j].lo < base + g.hi)
          return fmt("event %zu (%s): buffer %zu overlaps another", i, f.ev[i].name.c_str(), k);
      seen.push_back(x.base.region);
    }
  }
  size_t heap = 0;
  for (auto& g : f.r.regions) heap += g.heap;
  if (whole && r.allocs.size() != heap) return fmt("%zu heap allocations, not %zu", r.allocs.size(), heap);
  for (auto& a : r.allocs) if (a.to == INT32_MAX) return "an allocation was not freed";
  if (r.bad_free) return "freed what was not allocated";
  if (whole && r.call_failed != f.r.failed_calls) return fmt("%d failed calls were reported, not %d", r.call_failed, f.r.failed_calls);
  if (whole && r.check_failed != f.r.failed_checks) return fmt("%d failed checks were reported, not %d", r.check_failed, f.r.failed_checks);
  return "";
}

struct saved { raw_buffer b; dim d[MAXR]; };
void save(saved& s, const raw_buffer& b) { s.b = b; for (size_t i = 0; i < b.rank; ++i) s.d[i] = b.dims[i]; }
bool same(const saved& s, const raw_buffer& b) {
  if (s.b.base != b.base || s.b.rank != b.rank || s.b.elem_size != b.elem_size || s.b.dims != b.dims) return false;
  for (size_t i = 0; i < b.rank; ++i) if (s.d[i] != b.dims[i]) return false;
  return true;
}

std::string run_real(const stmt& s, int variant, int fail_at, thread_pool* pool, real_run& r, index_t& result) {
  world& w = W();
  const raw_buffer* bs[] = {&w.b, &w.c, &w.k1, &w.k2};
  saved sv[4];
  for (int i = 0; i < 4; ++i) save(sv[i], *bs[i]);
  r.fail_at = fail_at;
  cur() = &r;
  eval_config cfg;
  cfg.thread_pool = pool;
  cfg.auto_stack_threshold = 4096;
  cfg.allocate = [&](var v, raw_buffer* b) -> void* {
    void* p = b->allocate();
    if (p) r.allocs.push_back({(char*)b->base + b->min_offset_bytes(), b->size_bytes(), (int)r.ev.size(), INT32_MAX, (int)v.id});
    return p;
  };
  cfg.free = [&](var v, raw_buffer* b, void* p) {
    bool found = false;
    for (auto& a : r.allocs)
      if (!found && a.to == INT32_MAX && a.p == (char*)b->base + b->min_offset_bytes() && a.sym == (int)v.id) { a.to = r.ev.size(); found = true; }
    if (!found) r.bad_free = true;
    ::free(p);
  };
  cfg.call_failed = [&](const call_stmt*) { ++r.call_failed; };
  cfg.check_failed = [&](const expr&) { ++r.check_failed; };
  eval_context ctx;
  ctx.config = &cfg;
  ctx[var(X)] = variant ? 0 : 2;
  ctx[var(Y)] = variant ? 1 : -1;
  ctx[var(T)] = 1234;
  ctx[var(P)] = 5678;
  ctx[var(B)] = (index_t)(const raw_buffer*)&w.b;
  ctx[var(C)] = (index_t)(const raw_buffer*)&w.c;
  index_t before[C + 1];
  for (int i = 0; i <= C; ++i) before[i] = ctx.lookup(var(i));
  result = evaluate(s, ctx);
  for (int i = 0; i <= C; ++i)
    if (ctx.lookup(var(i)) != before[i]) return fmt("%s is %lld after evaluation, it was %lld", names()[i], (long long)ctx.lookup(var(i)), (long long)before[i]);
  for (int i = 0; i < 4; ++i) {
    static const char* n[] = {"the buffer b", "the buffer c", "constant 1", "constant 2"};
    if (!same(sv[i], *bs[i])) { std::string g = sl::show(sl::describe(*bs[i], i)); const_cast<raw_buffer&>(*bs[i]) = sv[i].b; for (size_t d = 0; d < sv[i].b.rank; ++d) bs[i]->dims[d] = sv[i].d[d]; return fmt("%s changed to %s", n[i], g.c_str()); }
  }
  return "";
}

thread_pool& no_threads() { static thread_pool* p = new thread_pool_impl(0); return *p; }

std::string check(const stmt& s, bool par, bool async_, int variant, bool& supported, int& n_events, int max_fail = 40) {
  supported = true;
  for (int pool = 1; pool >= (par || !async_ ? 1 : 0); --pool) {
    int n = 0, asyncs = 0;
    for (int fail = -1; fail < n; ++fail) {
      real_run r;
      index_t result = 0;
      std::vector<ref_run> refs;
      // Find out how many tasks there are.
      {
        refs.emplace_back();
        run_ref(s, variant, fail, 0, pool, refs.back());
        if (refs.back().r.unsupported) { supported = false; return ""; }
      }
      std::string e = run_real(s, variant, fail, pool ? &no_threads() : nullptr, r, result);
      if (fail < 0) n_events = n = (int)r.ev.size();
      n = std::min(n, max_fail);
      en::eval();
      std::string where = fail < 0 ? "" : fmt(" (call %d fails)", fail);
      if (!pool) where += " (no threads)";
      if (!e.empty()) return e + where;
      if (fail < 0) asyncs = refs[0].r.asyncs;
      bool loose = fail >= 0 && (par || async_);
      std::string first;
      uint32_t orders = async_ && pool ? 1u << std::min(asyncs, 6) : 1;
      bool ok = false;
      for (uint32_t o = orders + 1; o-- > 0 && !ok;) {
        ref_run f;
        run_ref(s, variant, fail, o == orders ? ~0u : o, pool, f);
        std::string x = compare(f, r, result, fail + 1, !loose);
        if (x.empty()) ok = true; else if (first.empty()) first = x;
      }
      if (!ok) return first + where;
    }
  }
  return "";
}

std::vector<tmpl> T_;
std::vector<int> by_class[3];   // templates of this class or lower

void run_chain(const std::vector<const tmpl*>& ts) {
  program p = build(ts);
  if (!p.s.defined()) return;
  std::string name;
  for (auto t : ts) name += (name.empty() ? "" : " { ") + t->name;
  for (int variant = 0; variant < 2; ++variant) {
    if (ts.size() > 2 && !en::thorough() && variant != (int)(std::hash<std::string>()(name) & 1)) continue;
    std::string key = name + (variant ? ", x=0 y=1" : ", x=2 y=-1");
    en::tag(key.c_str());
    bool supported; int n = 0;
    std::string e = check(p.s, p.par, p.async_, variant, supported, n, ts.size() < 3 || en::thorough() ? 40 : 7);
    if (!supported) continue;
    if (!e.empty()) en::fail(key, key + ": " + e + "\n" + sl::show(p.s, names(), NN));
    if (n > 2) en::nontrivial(std::hash<std::string>()(key));
    if (en::want_sample()) en::sample(key);
  }
}

en::family chains(const char* name, std::vector<std::vector<int>> levels) {
  // Units are the choices at all levels but the last.
  uint64_t n = 1;
  for (size_t i = 0; i + 1 < levels.size(); ++i) n *= levels[i].size();
  auto get = [=](uint64_t u) { std::vector<const tmpl*> r; for (size_t i = 0; i + 1 < levels.size(); ++i) { r.push_back(&T_[levels[i][u % levels[i].size()]]); u /= levels[i].size(); } return r; };
  return {name, n,
      [=](uint64_t u) {
        std::vector<const tmpl*> r = get(u);
        r.push_back(nullptr);
        for (int i : levels.back()) { r.back() = &T_[i]; run_chain(r); }
      },
      [=](uint64_t u) { std::string s; for (auto t : get(u)) s += t->name + " { "; return s; }};
}

// Two chains in a row share a body: declarations end where they should.
en::family siblings(const char* name, std::vector<int> a, std::vector<int> b) {
  return {name, a.size(),
      [=](uint64_t u) {
        for (int i : b)
          for (int k : a) {
            if (k % 4 != (int)(u % 4)) continue;
            const tmpl &o = T_[i], &f = T_[a[u]], &g = T_[k];
            bool par = false, asy = false;
            int id = 0;
            scope s0 = start();
            auto one = [&](const tmpl& t, const scope& s) { return t.make(s, [&](const scope& q) { par |= q.par; asy |= q.async_; return leaf(q, id++); }); };
            stmt s = o.make(s0, [&](const scope& q) -> stmt {
              par |= q.par; asy |= q.async_;
              stmt x = one(f, q), y = one(g, q);
              if (!x.defined() || !y.defined()) return stmt();
              return block::make({x, leaf(q, id++), y, leaf(q, id++)});
            });
            if (!s.defined()) continue;
            s = block::make({s, leaf(s0, id++)});
            std::string key = o.name + " { " + f.name + "; " + g.name + " }";
            en::tag(key.c_str());
            bool supported; int n = 0;
            std::string e = check(s, par, asy, 0, supported, n);
            if (!supported) continue;
            if (!e.empty()) en::fail(key, key + ": " + e + "\n" + sl::show(s, names(), NN));
            if (n > 2) en::nontrivial(std::hash<std::string>()(key));
          }
      },
      [=](uint64_t u) { return T_[a[u]].name; }};
}

// ---- Expressions.
const ex::i64 BV[] = {0, 1, -1, 2, -2, 3, -3, 7, -8, 64, ex::I64MAX, ex::I64MIN, ex::I64MAX - 1, ex::I64MIN + 1, (ex::i64)1 << 32, -((ex::i64)1 << 32)};
const ex::op OPS[] = {ex::ADD, ex::SUB, ex::MUL, ex::DIV, ex::MOD, ex::MIN, ex::MAX, ex::EQ, ex::NE, ex::LT, ex::LE, ex::AND, ex::OR, ex::AND_THEN, ex::OR_ELSE, ex::NOT, ex::ABS, ex::SELECT, ex::LET};
constexpr int NOPS = sizeof(OPS) / sizeof(OPS[0]);

struct small_lanes { ex::lanes l; };
ex::lanes& lanes_(bool big) {
  static ex::lanes l[2];
  ex::lanes& r = l[big];
  if (r.n) return r;
  std::vector<ex::i64> v = big ? std::vector<ex::i64>(std::begin(BV), std::end(BV)) : std::vector<ex::i64>{-3, -2, -1, 0, 1, 2, 3, 5};
  r.col.resize(22);
  for (auto a : v) for (auto b : v) { r.col[0].push_back(a); r.col[1].push_back(b); ++r.n; }
  for (int i = 2; i < 22; ++i) r.col[i].assign(r.n, 7);
  return r;
}

void check_expr(const ex::pool& p, int root) {
  expr e = ex::to_slinky(p, root);
  std::string key = ex::str(p, root);
  en::tag(key.c_str());
  eval_context ctx;
  for (int i = 0; i < 22; ++i) ctx[var(i)] = 7;
  bool varied = false;
  ex::i64 first = 0; bool any = false;
  for (bool big : {false, true}) {
    ex::lanes& L = lanes_(big);
    std::vector<ex::i64> out; std::vector<uint8_t> bad;
    ex::evaluator(p, L)(root, out, bad);
    for (int l = 0; l < L.n; ++l) {
      if (bad[l]) continue;
      ctx[var(0)] = L.col[0][l];
      ctx[var(1)] = L.col[1][l];
      index_t r = evaluate(e, ctx);
      en::eval();
      if (any && out[l] != first) varied = true;
      first = out[l]; any = true;
      if (r != out[l]) { en::fail(key, fmt("%s is %lld, not %lld, with x = %lld, y = %lld", key.c_str(), (long long)r, (long long)out[l], (long long)L.col[0][l], (long long)L.col[1][l])); return; }
      if (ctx.lookup(var(0)) != L.col[0][l] || ctx.lookup(var(1)) != L.col[1][l] || ctx.lookup(var(20)) != 7) { en::fail(key, key + ": variables changed"); return; }
    }
  }
  if (varied) en::nontrivial(std::hash<std::string>()(key));
}

// All expressions of two operators over x, y and a few constants.
int leaf_expr(ex::pool& p, int i) {
  static const ex::i64 c[] = {0, 1, -2, 3, ex::I64MIN};
  return i < 2 ? p.var(i) : p.cst(c[i - 2]);
}
constexpr int NL = 7;

void each_expr(int o1, const std::function<void(ex::pool&, int)>& f) {
  ex::op a = OPS[o1];
  int n = ex::arity(a);
  auto op = [](ex::pool& p, ex::op o, int i, int j, int k, int letv) {
    int r = p.add(o, i, j, k);
    if (o == ex::LET) p.n[r].c = letv;
    return r;
  };
  // Every position holds a leaf or an operator.
  for (int pos = -1; pos < n; ++pos) {
    for (int o2 = 0; o2 < (pos < 0 ? 1 : NOPS); ++o2) {
      ex::op b = OPS[o2];
      int m = pos < 0 ? 0 : ex::arity(b);
      int others = pos < 0 ? n : n - 1;
      int total = m + others, cnt = 1;
      for (int i = 0; i < total; ++i) cnt *= (total > 3 ? 4 : NL);
      for (int c = 0; c < cnt; ++c)
        for (int lv = 0; lv < (a == ex::LET || (pos >= 0 && b == ex::LET) ? 3 : 1); ++lv) {
          ex::pool p;
          int x = c, k = total > 3 ? 4 : NL;
          auto next = [&]() { int r = leaf_expr(p, x % k); x /= k; return r; };
          int in = -1;
          if (pos >= 0) { int i[3] = {-1, -1, -1}; for (int q = 0; q < m; ++q) i[q] = next(); in = op(p, b, i[0], i[1], i[2], lv == 2 ? 1 : 0); }
          int i[3] = {-1, -1, -1};
          for (int q = 0; q < n; ++q) i[q] = q == pos ? in : next();
          int r = op(p, a, i[0], i[1], i[2], lv == 1 ? 1 : 0);
          f(p, r);
        }
    }
  }
}

en::family exprs() {
  return {"expressions of up to two operators", (uint64_t)NOPS, [=](uint64_t u) { each_expr((int)u, [](ex::pool& p, int r) { check_expr(p, r); }); }, [=](uint64_t u) { return std::string(ex::op_name(OPS[u])); }};
}


std::vector<en::family> make() {
  const bool t = en::thorough();
  T_ = templates();
  W(); no_threads();
  for (size_t i = 0; i < T_.size(); ++i) for (int c = T_[i].cls; c < 3; ++c) by_class[c].push_back(i);
  std::vector<en::family> f;
  auto &c0 = by_class[0], &c1 = by_class[1], &c2 = by_class[2];
  f.push_back(exprs());
  f.push_back(chains("one and two declarations", {c2, c2}));
  f.push_back(chains("three declarations", t ? std::vector<std::vector<int>>{c1, c2, c1} : std::vector<std::vector<int>>{c0, c2, c1}));
  if (t) f.push_back(chains("four declarations", {c0, c0, c0, c1}));
  f.push_back(siblings("declarations in a row", t ? c2 : c1, c0));
  return f;
}

}  // namespace

int main(int argc, char** argv) {
  return en::main_driver(argc, argv, en::families("C19", "calls happen in the body of a declaration", make));
}
