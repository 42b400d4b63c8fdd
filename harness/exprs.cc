// C08: simplify(e) has the value of e. C09: bounds, constant bounds and proofs derived for e are sound.
//
// Families of expressions, all enumerated exhaustively:
//   shapes  every shape in shapes.txt (the structures the simplifier's behaviour depends on), with all optional parts
//           present or absent, all constants from a grid, and each variable in turn replaced by other terms
//   env     the same with bounds and alignments assumed for the variables
//   ops2/3  all expressions of two (three) operators over a list of leaves
//   consts  operators on boundary constants; large constants in shapes
//   fields  buffer metadata and lets
// and every assignment of values from a grid that is consistent with the assumed bounds and alignment.
#include <algorithm>
#include <memory>
#include <sstream>

#include "exprlib.h"
#include "slinky/builder/simplify.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/print.h"

using namespace ex;

namespace {

#ifdef PROP_C09
constexpr bool C09 = true;
#else
constexpr bool C09 = false;
#endif

slinky::alignment_type mr(i64 m, i64 r) { return slinky::alignment_type(m, r); }

struct env {
  std::string name;
  slinky::bounds_map b;
  slinky::alignment_map a;
  lanes L;
};
std::vector<std::unique_ptr<env>> envs;      // envs[0]: none (lanes depend on the number of variables)
std::vector<lanes> base;                     // per number of variables
lanes large2;                                // large values for two variables
lanes withbuf;                               // two variables and buffer fields

lanes grid(int nv, const std::vector<i64>& vals) {
  lanes L;
  L.n = 1;
  for (int i = 0; i < nv; ++i) L.n *= (int)vals.size();
  L.col.resize(nv);
  for (int i = 0; i < nv; ++i) {
    L.col[i].resize(L.n);
    int st = 1;
    for (int k = 0; k < i; ++k) st *= (int)vals.size();
    for (int l = 0; l < L.n; ++l) L.col[i][l] = vals[(l / st) % vals.size()];
  }
  return L;
}
std::vector<i64> span_of(i64 a, i64 b) { std::vector<i64> r; for (; a <= b; ++a) r.push_back(a); return r; }

void keep(lanes& L, const std::vector<char>& k) {
  int m = 0;
  for (int l = 0; l < L.n; ++l)
    if (k[l]) {
      for (auto& c : L.col) c[m] = c[l];
      for (auto& c : L.fcol) c[m] = c[l];
      ++m;
    }
  L.n = m;
  for (auto& c : L.col) c.resize(m);
  for (auto& c : L.fcol) c.resize(m);
}

struct bnd { int v; const char *lo, *hi; };
struct aln { int v; i64 m, r; };

void add_env(const std::string& name, std::vector<bnd> bs, std::vector<aln> as) {
  auto e = std::make_unique<env>();
  e->name = name;
  e->L = grid(3, span_of(-6, 6));
  std::vector<char> k(e->L.n, 1);
  for (auto& b : bs) {
    slinky::interval_expr iv;
    for (int side = 0; side < 2; ++side) {
      const char* t = side ? b.hi : b.lo;
      if (!t) continue;
      slinky::expr x;
      if (!strcmp(t, "inf")) x = slinky::positive_infinity();
      else if (!strcmp(t, "-inf")) x = slinky::negative_infinity();
      else {
        shape s;
        // Variable numbering in shapes is by first use, so keep names fixed by mentioning x, y and z first.
        std::string text = std::string("min(x,min(y,z))*0+(") + t + ")";
        parser(text, s, 0);
        int body = s.p.n[s.root].k[1];
        x = to_slinky(s.p, body);
        std::vector<i64> v; std::vector<uint8_t> bad;
        evaluator ev(s.p, e->L);
        ev(body, v, bad);
        for (int l = 0; l < e->L.n; ++l) {
          i64 val = e->L.col[b.v][l];
          if (side ? val > v[l] : val < v[l]) k[l] = 0;
        }
      }
      (side ? iv.max : iv.min) = x;
    }
    e->b[slinky::var(b.v)] = iv;
  }
  for (auto& a : as) {
    e->a[slinky::var(a.v)] = mr(a.m, a.r);
    for (int l = 0; l < e->L.n; ++l) {
      bool o = false;
      i64 v = e->L.col[a.v][l];
      if (a.m == 0 ? v != a.r : emod(v, a.m, o) != emod(a.r, a.m, o)) k[l] = 0;
    }
  }
  keep(e->L, k);
  if (e->L.n == 0) abort();
  envs.push_back(std::move(e));
}

std::string s_of(const slinky::expr& e) {
  if (!e.defined()) return "<undefined>";
  std::stringstream ss;
  ss << e;
  return ss.str();
}
std::string lane(const lanes& L, int l) {
  std::string r;
  for (size_t i = 0; i < L.col.size(); ++i) r += en::fmt("%s%s=%lld", i ? " " : "", var_name(i), (long long)L.col[i][l]);
  for (size_t i = 0; i < L.fcol.size(); ++i) r += " " + field_name(fields()[i]) + "=" + std::to_string(L.fcol[i][l]);
  return r;
}
uint64_t hash_of(const pool& p, int i) {
  const node& n = p.n[i];
  uint64_t h = en::mix(n.o, (uint64_t)n.c);
  for (int a = 0; a < arity(n.o); ++a) h = en::mix(h, hash_of(p, n.k[a]));
  return h;
}

struct checker {
  const pool& p;
  int root;
  const env* E;
  const lanes& L;
  std::vector<i64> val;
  std::vector<uint8_t> bad;
  slinky::expr e;
  std::string name() { return str(p, root) + (E ? " | " + E->name : ""); }
  const slinky::bounds_map& B() { static slinky::bounds_map none; return E ? E->b : none; }
  const slinky::alignment_map& A() { static slinky::alignment_map none; return E ? E->a : none; }

  bool small(int l) {
    for (const node& n : p.n)
      if (n.o == CONST && (n.c > (1 << 20) || n.c < -(1 << 20))) return false;
    for (const std::vector<i64>& c : L.col)
      if (c[l] > (1 << 20) || c[l] < -(1 << 20)) return false;
    return true;
  }

  // True if evaluating the simplified expression overflows (for large constants or values only). The library derives
  // bounds from that form, and it assumes that arithmetic does not overflow.
  std::vector<uint8_t> over;
  bool excused(int l) {
    if (small(l)) return false;
    if (over.empty()) {
      over.assign(L.n, 0);
      pool q;
      int r = from_slinky(q, slinky::simplify(e, B(), A()));
      if (!has(q, BAD) && !q.infinite) {
        std::vector<i64> v;
        evaluator ev(q, L);
        ev(r, v, over);
      }
    }
    return over[l] == 1;
  }

  // A known finding, which the existing tests insist on: the simplifier learns from a condition that a < max(b, c) (or
  // a <= max(b, c), min(b, c) < a, min(b, c) <= a) holds that both a < b and a < c do. A lane is affected if a condition in
  // the expression or its simplified form compares something with a min or max, with different results for its operands.
  std::vector<uint8_t> misread;
  void find_misread(const pool& src, int i, bool cond, std::vector<int>& lets) {
    const node& n = src.n[i];
    if (n.o == LET) {
      find_misread(src, n.k[0], false, lets);
      lets.push_back(i);
      find_misread(src, n.k[1], cond, lets);
      lets.pop_back();
      return;
    }
    if (cond && (n.o == LT || n.o == LE)) {
      for (int side = 0; side < 2; ++side) {
        int m = n.k[side];
        if (src.n[m].o != MIN && src.n[m].o != MAX) continue;
        std::vector<i64> v[2];
        for (int w = 0; w < 2; ++w) {
          pool q = src;
          int r = side ? q.add(n.o, n.k[0], src.n[m].k[w]) : q.add(n.o, src.n[m].k[w], n.k[1]);
          for (size_t k = lets.size(); k-- > 0;) { r = q.add(LET, src.n[lets[k]].k[0], r); q.n[r].c = src.n[lets[k]].c; }
          std::vector<uint8_t> o;
          evaluator ev(q, L);
          ev(r, v[w], o);
        }
        for (int l = 0; l < L.n; ++l) misread[l] |= v[0][l] != v[1][l];
        // The operands are read in the same way.
        pool q = src;
        for (int w = 0; w < 2; ++w) {
          int r = side ? q.add(n.o, n.k[0], src.n[m].k[w]) : q.add(n.o, src.n[m].k[w], n.k[1]);
          find_misread(q, r, true, lets);
        }
      }
    }
    for (int k = 0; k < arity(n.o); ++k) {
      bool c = (n.o == SELECT && k == 0) || n.o == AND || n.o == OR || n.o == AND_THEN || n.o == OR_ELSE || (n.o == NOT && cond);
      find_misread(src, n.k[k], c, lets);
    }
  }
  bool known(int l) {
    if (misread.empty()) {
      misread.assign(L.n, 0);
      std::vector<int> lets;
      if (e.defined()) {
        find_misread(p, root, false, lets);
        pool q;
        int r = from_slinky(q, slinky::simplify(e, B(), A()));
        if (!has(q, BAD) && !q.infinite) find_misread(q, r, false, lets);
      }
    }
    if (misread[l]) en::fail("min-max-fact", "a condition comparing with min or max is misread: " + name());
    return misread[l];
  }

  void simplified(const slinky::expr& s, const char* how) {
    pool q;
    int r = from_slinky(q, s);
    if (has(q, BAD) || q.infinite) {
      for (int l = 0; l < L.n; ++l)
        if (!bad[l]) {
          en::fail(name(), en::fmt("%s: %s becomes %s, which has no value, while the original is %lld for %s", how, name().c_str(), s_of(s).c_str(), (long long)val[l], lane(L, l).c_str()));
          return;
        }
      return;
    }
    std::vector<i64> v; std::vector<uint8_t> b;
    evaluator ev(q, L);
    ev(r, v, b);
    for (int l = 0; l < L.n; ++l)
      if (!bad[l] && (v[l] != val[l] || b[l] == 2)) {
        // An intermediate value of the result overflows: that is only wrong if the constants and the values of
        // the variables are small.
        if (b[l] == 1 && !small(l)) continue;
        if (known(l)) continue;
        en::fail(name(), en::fmt("%s: %s becomes %s; for %s the original is %lld and the result is %lld%s", how, name().c_str(), s_of(s).c_str(), lane(L, l).c_str(), (long long)val[l], (long long)v[l], b[l] ? " (overflows)" : ""));
        return;
      }
  }

  // bound is an upper (sign > 0) or lower bound of the value
  void bound(const slinky::expr& b, int sign, const char* how) {
    if (!b.defined()) return;
    pool q;
    int r = from_slinky(q, b);
    if (has(q, BAD)) { en::fail(name(), en::fmt("%s of %s is %s", how, name().c_str(), s_of(b).c_str())); return; }
    std::vector<i64> v; std::vector<uint8_t> o;
    if (!q.infinite) {
      evaluator ev(q, L);
      ev(r, v, o);
    }
    for (int l = 0; l < L.n; ++l) {
      if (bad[l]) continue;
      bool viol;
      if (q.infinite) {
        std::map<i64, xval> let;
        xval x = xeval(q, r, L, l, let);
        if (x.kind == 9) continue;
        viol = x.kind == 0 ? (sign > 0 ? val[l] > x.v : val[l] < x.v) : x.kind != (sign > 0 ? 1 : -1);
      } else {
        if (o[l]) continue;
        viol = sign > 0 ? val[l] > v[l] : val[l] < v[l];
      }
      if (viol && !excused(l) && !known(l)) {
        en::fail(name(), en::fmt("%s of %s is %s, but for %s the value is %lld", how, name().c_str(), s_of(b).c_str(), lane(L, l).c_str(), (long long)val[l]));
        return;
      }
    }
  }

  void prove(const slinky::expr& c, const std::vector<char>& truth, const char* what) {
    std::optional<bool> r = slinky::attempt_to_prove(c, B(), A());
    bool t = slinky::prove_true(c, B(), A()), f = slinky::prove_false(c, B(), A());
    for (int l = 0; l < L.n; ++l) {
      if (bad[l]) continue;
      if (((r && *r != (bool)truth[l]) || (t && !truth[l]) || (f && truth[l])) && !excused(l) && !known(l)) {
        en::fail(name(), en::fmt("%s: %s with %s is claimed to be %s, but for %s it is %s (the value of %s is %lld)", what, s_of(c).c_str(), name().c_str(), (r && *r) || t ? "true" : "false", lane(L, l).c_str(), truth[l] ? "true" : "false", str(p, root).c_str(), (long long)val[l]));
        return;
      }
    }
  }

  void run() {
    if (C09) c09(); else c08();
  }
  void c08() {
    slinky::expr s = slinky::simplify(e, B(), A());
    simplified(s, "simplify");
    if (en::want_sample()) en::sample(name() + " -> " + s_of(s));
    if (!s.same_as(e)) en::nontrivial(en::mix(hash_of(p, root), (uint64_t)(size_t)E));
  }
  void c09() {
    slinky::interval_expr iv = slinky::bounds_of(e, B(), A());
    bound(iv.min, -1, "lower bound");
    bound(iv.max, 1, "upper bound");
    if (en::want_sample()) en::sample(name() + " in [" + s_of(iv.min) + ", " + s_of(iv.max) + "]");
    if (!E) {
      bound(slinky::constant_lower_bound(e), -1, "constant lower bound");
      bound(slinky::constant_upper_bound(e), 1, "constant upper bound");
      auto lo = slinky::evaluate_constant_lower_bound(e), hi = slinky::evaluate_constant_upper_bound(e), c = slinky::evaluate_constant(e);
      if (lo) bound(slinky::constant::make(*lo), -1, "evaluated constant lower bound");
      if (hi) bound(slinky::constant::make(*hi), 1, "evaluated constant upper bound");
      if (c) { bound(slinky::constant::make(*c), -1, "constant value"); bound(slinky::constant::make(*c), 1, "constant value"); }
    }
    // Claims about the value that are wrong for some assignment must not be proven.
    i64 lo = I64MAX, hi = I64MIN;
    for (int l = 0; l < L.n; ++l)
      if (!bad[l]) { lo = std::min(lo, val[l]); hi = std::max(hi, val[l]); }
    if (lo > hi) return;
    if (lo != hi) en::nontrivial(en::mix(hash_of(p, root), (uint64_t)(size_t)E));
    std::vector<char> t(L.n);
    for (int l = 0; l < L.n; ++l) t[l] = val[l] != 0;
    prove(e, t, "condition");
    using namespace slinky;
    if (lo > I64MIN + 2 && hi < I64MAX - 2) {
      for (int l = 0; l < L.n; ++l) t[l] = val[l] < hi;
      prove(slinky::less::make(e, expr((index_t)hi)), t, "upper");
      for (int l = 0; l < L.n; ++l) t[l] = val[l] > lo;
      prove(slinky::less::make(expr((index_t)lo), e), t, "lower");
      if (lo < hi && hi - lo < 1000) {
        for (int m : {2, 3, 4}) {
          if (!en::thorough() && m != 2 + (int)(hash_of(p, root) % 3)) continue;
          for (int l = 0; l < L.n; ++l) { bool o = false; t[l] = emod(val[l], m, o) == 0; }
          prove(slinky::equal::make(slinky::mod::make(e, expr(m)), expr(0)), t, "alignment");
        }
      }
    }
  }
};

// Evaluate once per (expression, lanes); E may be null.
void check(const pool& p, int root, const env* E, const lanes& L) {
  std::vector<i64> v; std::vector<uint8_t> b;
  evaluator ev(p, L);
  ev(root, v, b);
  checker c{p, root, E, L, std::move(v), std::move(b), to_slinky(p, root)};
  en::eval(L.n);
  c.run();
}
int vars_used(const pool& p, int i) {
  const node& n = p.n[i];
  int m = n.o == VAR && n.c < NVAR ? (int)n.c + 1 : 0;
  for (int a = 0; a < arity(n.o); ++a) m = std::max(m, vars_used(p, n.k[a]));
  return m;
}
void check(const pool& p, int root) {
  int nv = std::max(1, vars_used(p, root));
  check(p, root, nullptr, base[std::min(nv, (int)base.size() - 1)]);
}

// ---- shapes
struct job { int shape; uint32_t opt; int variant; int first; };
std::vector<std::string> texts;
std::map<std::pair<int, uint32_t>, std::unique_ptr<shape>> parsed;
std::vector<job> jobs, env_jobs, large_jobs;

const std::vector<i64>& const_grid(int n, bool thorough, bool env) {
  static std::vector<i64> w = {-6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8}, q2 = {-4, -3, -2, -1, 0, 1, 2, 3, 4, 6}, q3 = {-4, -3, -2, -1, 0, 1, 2, 3, 4},
    q4 = {-3, -2, -1, 0, 1, 2, 4}, q7 = {-2, -1, 0, 1, 2}, e2 = {-3, -2, -1, 0, 1, 2, 4}, e3 = {-2, 0, 1, 3}, e4 = {-2, 0, 1, 3}, t4 = {-4, -3, -2, -1, 0, 1, 2, 3, 4}, t7 = {-3, -2, -1, 0, 1, 2, 3}, big = {0};
  if (C09 && !en::thorough()) env = true;
  if (env) return n <= 1 ? (thorough ? w : q2) : n == 2 ? (thorough ? q2 : e2) : n == 3 ? (thorough ? q3 : e3) : n == 4 ? (thorough ? q4 : e4) : q7;
  if (thorough) return n <= 2 ? w : n == 3 ? w : n == 4 ? t4 : t7;
  return n <= 1 ? w : n == 2 ? q2 : n == 3 ? q3 : n == 4 ? q4 : q7;
}

// What a variable can be replaced by. Variant 0: nothing replaced; otherwise variable (v-1)/NREP is replaced by term (v-1)%NREP.
constexpr int NREP = 8;
int replaced(pool& p, int which, int var, int fresh) {
  switch (which) {
  case 0: { int a = p.var(var), b = p.var(fresh); return p.add(LT, a, b); }
  case 1: { int a = p.var(var), b = p.cst(3); return p.add(MUL, a, b); }
  case 2: { int a = p.var(var), b = p.cst(2); return p.add(DIV, a, b); }
  case 3: { int a = p.var(var), b = p.cst(1); return p.add(ADD, a, b); }
  case 4: { int a = p.var(var); return p.add(ABS, a); }
  case 5: return p.cst(2);
  case 6: { int a = p.var(var), b = p.cst(3); return p.add(MOD, a, b); }
  case 7: { int a = p.add(ABS, p.var(var)); int z = p.cst(0); return p.add(SUB, z, a); }
  }
  abort();
}

// All variables may also be identified with each other: variant >= 1 + nvar*NREP maps variable j to i for one pair.
int n_variants(const shape& s, bool thorough) {
  int n = 1 + s.nvar * NREP;
  n += s.nvar * (s.nvar - 1) / 2;
  return n;
}
int build(pool& p, const shape& s, int variant, const std::vector<i64>& c) {
  int rep = -1, term = 0, ia = -1, ib = -1;
  if (variant >= 1 && variant < 1 + s.nvar * NREP) { rep = (variant - 1) / NREP; term = (variant - 1) % NREP; }
  else if (variant) {
    int k = variant - 1 - s.nvar * NREP;
    for (int b = 1; b < s.nvar; ++b) for (int a = 0; a < b; ++a) if (k-- == 0) { ia = a; ib = b; }
  }
  p.clear();
  return instantiate(p, s, s.root, [&](int h) { return c[h]; }, [&](pool& q, int v) {
    if (v == rep) return replaced(q, term, v, v == 0 ? 1 : 0);
    if (v == ib) v = ia;
    else if (ib >= 0 && v > ib) --v;
    return q.var(v);
  });
}

std::string job_name(const job& j) { return en::fmt("%s options %u variant %d constants from %d", texts[j.shape].c_str(), j.opt, j.variant, j.first); }

template <typename F>
void each_const(int n, const std::vector<i64>& g, int first, F&& f) {
  std::vector<i64> c(n);
  std::vector<int> k(n, 0);
  if (n == 0) { f(c); return; }
  k[0] = first < 0 ? 0 : first;
  for (;;) {
    for (int i = 0; i < n; ++i) c[i] = g[k[i]];
    f(c);
    int i = n - 1;
    int stop = first < 0 ? 0 : 1;
    while (i >= stop && ++k[i] == (int)g.size()) k[i--] = 0;
    if (i < stop) return;
  }
}

shape& get_shape(int s, uint32_t opt) { return *parsed[{s, opt}]; }

void run_job(const job& j) {
  shape& s = get_shape(j.shape, j.opt);
  const auto& g = const_grid(s.nconst, en::thorough() && j.variant == 0, false);
  pool p;
  if (j.first >= (int)g.size()) return;
  each_const(s.nconst, j.variant && !en::thorough() ? const_grid(s.nconst, false, true) : g, j.first, [&](const std::vector<i64>& c) {
    int r = build(p, s, j.variant, c);
    check(p, r);
  });
}
void run_env_job(const job& j) {
  shape& s = get_shape(j.shape, j.opt);
  const auto& g = const_grid(s.nconst, en::thorough(), true);
  pool p;
  each_const(s.nconst, g, -1, [&](const std::vector<i64>& c) {
    int r = build(p, s, j.variant, c);
    check(p, r, envs[j.first].get(), envs[j.first]->L);
  });
}
const std::vector<i64>& large_consts() {
  static std::vector<i64> v = {I64MIN, I64MIN + 1, -((i64)1 << 62), -((i64)1 << 32), -((i64)1 << 31) - 1, -2, -1, 0, 1, 2, ((i64)1 << 31), ((i64)1 << 32), ((i64)1 << 62), I64MAX - 1, I64MAX};
  static std::vector<i64> q = {I64MIN, -((i64)1 << 62), -((i64)1 << 32), -1, 0, 2, ((i64)1 << 31), I64MAX};
  return en::thorough() ? v : q;
}
void run_large_job(const job& j) {
  shape& s = get_shape(j.shape, j.opt);
  pool p;
  each_const(s.nconst, large_consts(), -1, [&](const std::vector<i64>& c) {
    int r = build(p, s, 0, c);
    check(p, r, nullptr, large2);
  });
}

void load_shapes() {
  const char* dir = getenv("VERIF_DIR");
  std::ifstream f(std::string(dir ? dir : "/verif") + "/harness/shapes.txt");
  std::string l;
  while (std::getline(f, l)) if (!l.empty() && l[0] != '#') texts.push_back(l);
  if (texts.size() < 100) { fprintf(stderr, "no shapes\n"); exit(2); }
  for (size_t i = 0; i < texts.size(); ++i) {
    int no = parser::count_optional(texts[i]);
    for (uint32_t o = 0; o < (1u << no); ++o) {
      auto s = std::make_unique<shape>();
      parser(texts[i], *s, o);
      shape& r = *s;
      parsed[{(int)i, o}] = std::move(s);
      int variants = n_variants(r, en::thorough());
      for (int v = 0; v < variants; ++v) {
        const auto& g = const_grid(r.nconst, en::thorough() && v == 0, false);
        if (r.nconst >= 3 && v == 0) for (size_t k = 0; k < g.size(); ++k) jobs.push_back({(int)i, o, v, (int)k});
        else if (r.nconst >= 7 && !en::thorough()) continue;
        else jobs.push_back({(int)i, o, v, -1});
      }
      if (r.nvar <= 3 && r.nconst <= 4)
        for (size_t e = 1; e < envs.size(); ++e) env_jobs.push_back({(int)i, o, 0, (int)e});
      if (r.nvar <= 2 && r.nconst <= 3 && r.nconst >= 1) large_jobs.push_back({(int)i, o, 0, -1});
    }
  }
}

// ---- all small expressions
const op OPS2[] = {ADD, SUB, MUL, DIV, MOD, MIN, MAX, EQ, NE, LT, LE, AND, OR, AND_THEN, OR_ELSE};
constexpr int NOPS2 = sizeof(OPS2) / sizeof(OPS2[0]);
struct leafset { std::vector<node> l; };
node leaf_var(int v) { node n; n.o = VAR; n.c = v; return n; }
node leaf_cst(i64 c) { node n; n.o = CONST; n.c = c; return n; }
node leaf_fld(int f) { node n; n.o = FIELD; n.c = f; return n; }

// Build the unary/binary/ternary extension number k of x with leaves; returns the root or -1.
// Operators: binary with a leaf on either side, not, abs, select with x in each position (other positions leaves).
int n_ext(int nl) { return NOPS2 * nl * 2 + 2 + 3 * nl * nl; }
int ext(pool& p, int x, int k, const std::vector<node>& L) {
  int nl = (int)L.size();
  auto leaf = [&](int i) { p.n.push_back(L[i]); return (int)p.n.size() - 1; };
  if (k < NOPS2 * nl * 2) {
    op o = OPS2[k / (nl * 2)];
    int r = k % (nl * 2);
    int l = leaf(r / 2);
    return r % 2 ? p.add(o, l, x) : p.add(o, x, l);
  }
  k -= NOPS2 * nl * 2;
  if (k < 2) return p.add(k ? ABS : NOT, x);
  k -= 2;
  int pos = k / (nl * nl), a = leaf(k % (nl * nl) / nl), b = leaf(k % nl);
  return pos == 0 ? p.add(SELECT, x, a, b) : pos == 1 ? p.add(SELECT, a, x, b) : p.add(SELECT, a, b, x);
}

std::vector<node> leaves_q, leaves_s, leaves_b, leaves_t;

// chain: depth-1 expression over leaves number u, then one extension (all of them)
void run_ops2(uint64_t u, const std::vector<node>& L, const env* E, const lanes* fixed) {
  pool p;
  int nl = (int)L.size();
  for (int l = 0; l < nl; ++l) {
    for (int k = 0; k < n_ext(nl); ++k) {
      p.clear();
      p.n.push_back(L[l]);
      int r = ext(p, 0, (int)u, L);
      r = ext(p, r, k, L);
      if (fixed) check(p, r, E, *fixed); else check(p, r);
    }
  }
}
// tree: op(op(l,l), op(l,l)) for binary ops, and chains of three.
void run_tree3(uint64_t u, const std::vector<node>& L) {
  int nl = (int)L.size();
  op o = OPS2[u % NOPS2], oa = OPS2[u / NOPS2 % NOPS2], ob = OPS2[u / NOPS2 / NOPS2];
  pool p;
  for (int k = 0; k < nl * nl * nl * nl; ++k) {
    p.clear();
    int c = k;
    int a[4];
    for (int& i : a) { p.n.push_back(L[c % nl]); i = (int)p.n.size() - 1; c /= nl; }
    int x = p.add(oa, a[0], a[1]), y = p.add(ob, a[2], a[3]);
    int r = p.add(o, x, y);
    check(p, r);
  }
}
void run_chain3(uint64_t u, const std::vector<node>& L) {
  int nl = (int)L.size(), ne = n_ext(nl);
  pool p;
  for (int l = 0; l < nl; ++l)
    for (int k = 0; k < ne; ++k) {
      p.clear();
      p.n.push_back(L[l]);
      int r = ext(p, 0, (int)(u / ne), L);
      r = ext(p, r, (int)(u % ne), L);
      r = ext(p, r, k, L);
      check(p, r);
    }
}

// Nested min, max, select and differences with constants added at every level: rules that move constants out of
// operands and those that move them in must agree (and terminate).
constexpr int NNEST = 5;
int nest_op(pool& p, int o, int cond, int a, int b) {
  switch (o) {
  case 0: return p.add(MIN, a, b);
  case 1: return p.add(MAX, a, b);
  case 2: return p.add(SELECT, cond, a, b);
  case 3: return p.add(SUB, a, b);
  default: return p.add(ADD, a, b);
  }
}
// u: three operators and the shape.
uint64_t nest_units() { return NNEST * NNEST * NNEST * 3; }
void run_nest(uint64_t u, const std::vector<node>& L, bool many) {
  static const int K[] = {-3, 0, 2, 6};
  const int nk = many ? (en::thorough() ? 4 : 3) : 2;
  const int o1 = u % NNEST, o2 = u / NNEST % NNEST, o3 = u / NNEST / NNEST % NNEST, shape = (int)(u / NNEST / NNEST / NNEST);
  int total = 1;
  for (int i = 0; i < 6; ++i) total *= nk;
  pool p;
  for (int leafs = 0; leafs < (many ? 4 : 2); ++leafs)
    for (int k = 0; k < total; ++k) {
      p.clear();
      int c = k;
      int v[4];
      auto leaf = [&](int i) { p.n.push_back(L[i % L.size()]); return (int)p.n.size() - 1; };
      auto plus = [&](int e) {
        int kk = many ? K[c % nk] : (c % nk ? (int)(1 + u % 3) * (u & 1 ? -1 : 1) * 2 - 1 : 0);
        c /= nk;
        return kk ? p.add(ADD, e, p.cst(kk)) : e;
      };
      for (int i = 0; i < 4; ++i) v[i] = leaf(i == 3 ? (leafs & 1 ? 0 : 2) : i == 2 && (leafs & 2) ? 1 : i);
      int cond = p.add(LT, leaf(1), leaf(2));
      int r;
      if (shape == 0) {  // a chain, nested on the left
        int e1 = plus(nest_op(p, o1, cond, plus(v[0]), plus(v[1])));
        int e2 = plus(nest_op(p, o2, cond, e1, plus(v[2])));
        r = plus(nest_op(p, o3, cond, e2, v[3]));
      } else if (shape == 1) {  // on the right
        int e1 = plus(nest_op(p, o1, cond, plus(v[0]), plus(v[1])));
        int e2 = plus(nest_op(p, o2, cond, plus(v[2]), e1));
        r = plus(nest_op(p, o3, cond, v[3], e2));
      } else {
        int e1 = plus(nest_op(p, o1, cond, plus(v[0]), v[1]));
        int e2 = plus(nest_op(p, o2, cond, plus(v[2]), plus(v[3])));
        r = plus(nest_op(p, o3, cond, e1, e2));
      }
      check(p, r);
    }
}

// ---- constants only, compared with the run time evaluator
void run_consts(uint64_t u) {
  static std::vector<i64> g = {I64MIN, I64MIN + 1, -((i64)1 << 62), -((i64)1 << 32), -7, -3, -2, -1, 0, 1, 2, 3, 7, 10, ((i64)1 << 31), ((i64)1 << 32), ((i64)1 << 62), I64MAX - 1, I64MAX};
  pool p;
  op o = OPS2[u % NOPS2];
  static lanes one;
  one.n = 1;
  slinky::eval_context ctx;
  for (i64 a : g) for (i64 b : g) for (int form = 0; form < 4; ++form) {
    p.clear();
    int x = p.cst(a), y = p.cst(b);
    int r = p.add(o, x, y);
    if (form == 1) r = p.add(NOT, r);
    if (form == 2) r = p.add(ABS, r);
    if (form == 3) { int t = p.cst(5), f = p.cst(-9); r = p.add(SELECT, r, t, f); }
    check(p, r, nullptr, one);
    // The value folded from constants agrees with evaluating.
    std::vector<i64> v; std::vector<uint8_t> bad;
    evaluator ev(p, one);
    ev(r, v, bad);
    if (bad[0]) continue;
    slinky::expr e = to_slinky(p, r);
    i64 run = slinky::evaluate(e, ctx);
    auto c = slinky::evaluate_constant(e);
    if (run != v[0]) en::fail(str(p, r), en::fmt("evaluating %s gives %lld instead of %lld", str(p, r).c_str(), (long long)run, (long long)v[0]));
    if (c && *c != v[0]) en::fail(str(p, r), en::fmt("evaluate_constant of %s gives %lld instead of %lld", str(p, r).c_str(), (long long)*c, (long long)v[0]));
  }
}

// ---- the helpers simplifying or bounding one operator
template <typename T>
slinky::expr simp(slinky::expr a, slinky::expr b) { return slinky::simplify(static_cast<const T*>(nullptr), std::move(a), std::move(b)); }
template <typename T>
slinky::interval_expr bnds(slinky::interval_expr a, slinky::interval_expr b) { return slinky::bounds_of(static_cast<const T*>(nullptr), std::move(a), std::move(b)); }
slinky::expr simplify_op(op o, slinky::expr a, slinky::expr b) {
  using namespace slinky;
  switch (o) {
  case ADD: return simp<slinky::add>(a, b); case SUB: return simp<slinky::sub>(a, b); case MUL: return simp<slinky::mul>(a, b); case DIV: return simp<slinky::div>(a, b); case MOD: return simp<slinky::mod>(a, b);
  case MIN: return simp<class slinky::min>(a, b); case MAX: return simp<class slinky::max>(a, b); case EQ: return simp<slinky::equal>(a, b); case NE: return simp<slinky::not_equal>(a, b); case LT: return simp<slinky::less>(a, b); case LE: return simp<slinky::less_equal>(a, b);
  case AND: return simp<slinky::logical_and>(a, b); case OR: return simp<slinky::logical_or>(a, b);
  default: abort();
  }
}
slinky::interval_expr bounds_op(op o, slinky::interval_expr a, slinky::interval_expr b) {
  switch (o) {
  case ADD: return bnds<slinky::add>(a, b); case SUB: return bnds<slinky::sub>(a, b); case MUL: return bnds<slinky::mul>(a, b); case DIV: return bnds<slinky::div>(a, b); case MOD: return bnds<slinky::mod>(a, b);
  case MIN: return bnds<class slinky::min>(a, b); case MAX: return bnds<class slinky::max>(a, b); case EQ: return bnds<slinky::equal>(a, b); case NE: return bnds<slinky::not_equal>(a, b); case LT: return bnds<slinky::less>(a, b); case LE: return bnds<slinky::less_equal>(a, b);
  case AND: return bnds<slinky::logical_and>(a, b); case OR: return bnds<slinky::logical_or>(a, b);
  default: abort();
  }
}

// Bounds of an operator whose operands are variables p in [..], q in [..] with all kinds of bounds.
struct iv { const char *lo, *hi; };
const iv IVS[] = {{"0", "0"}, {"1", "1"}, {"-2", "-2"}, {"3", "3"}, {"0", "1"}, {"0", "4"}, {"-3", "0"}, {"-1", "1"}, {"-4", "-1"}, {"1", "5"}, {"-3", "2"}, {"2", "4"}, {"-inf", "2"}, {"-inf", "-1"}, {"-inf", "0"}, {"0", "inf"}, {"1", "inf"}, {"-2", "inf"}, {"-inf", "inf"}, {"x", "x"}, {"x", "4"}, {"-3", "x"}, {"x", "x+2"}, {"x", "y"}, {"y", "y"}, {"-x", "x"}, {"x", "inf"}, {"-inf", "x"}, {"min(x,0)", "max(x,0)"}};
constexpr int NIV = sizeof(IVS) / sizeof(IVS[0]);
slinky::expr parse_side(const char* t, pool& p, int& root) {
  if (!strcmp(t, "inf")) { root = -1; return slinky::positive_infinity(); }
  if (!strcmp(t, "-inf")) { root = -1; return slinky::negative_infinity(); }
  shape s;
  std::string text = std::string("min(x,y)*0+(") + t + ")";
  parser(text, s, 0);
  p = s.p;
  root = s.p.n[s.root].k[1];
  return to_slinky(p, root);
}
void run_intervals(uint64_t u) {
  op o = OPS2[u / (NIV * NIV)];
  int ia = (int)(u / NIV % NIV), ib = (int)(u % NIV);
  if (o == AND_THEN || o == OR_ELSE) return;
  if ((o == AND || o == OR) && (ia >= 5 || ib >= 5)) return;
  if ((o == AND || o == OR) && ((ia > 1 && ia < 4) || (ib > 1 && ib < 4))) return;
  // lanes: x, y (2 columns), then members of the intervals as columns 2 and 3.
  lanes L = grid(4, span_of(-5, 5));
  std::vector<char> k(L.n, 1);
  slinky::interval_expr I[2];
  for (int s = 0; s < 2; ++s) {
    const iv& t = IVS[s ? ib : ia];
    bool pt = !strcmp(t.lo, t.hi);
    for (int side = 0; side < 2; ++side) {
      pool p; int r;
      slinky::expr e = parse_side(side ? t.hi : t.lo, p, r);
      if (side == 1 && pt) e = I[s].min;
      (side ? I[s].max : I[s].min) = e;
      if (r < 0) continue;
      std::vector<i64> v; std::vector<uint8_t> b;
      evaluator ev(p, L);
      ev(r, v, b);
      for (int l = 0; l < L.n; ++l) if (side ? L.col[2 + s][l] > v[l] : L.col[2 + s][l] < v[l]) k[l] = 0;
    }
  }
  keep(L, k);
  if (!L.n) return;
  pool p;
  int a = p.var(2), b = p.var(3), r = p.add(o, a, b);
  std::vector<i64> v; std::vector<uint8_t> bad;
  evaluator ev(p, L);
  ev(r, v, bad);
  checker c{p, r, nullptr, L, v, bad, slinky::expr()};
  std::string how = en::fmt("of the operation on [%s, %s] and [%s, %s]:", IVS[ia].lo, IVS[ia].hi, IVS[ib].lo, IVS[ib].hi);
  slinky::interval_expr res = bounds_op(o, I[0], I[1]);
  en::eval(L.n);
  en::nontrivial(en::mix(u, 77));
  c.bound(res.min, -1, ("lower bound " + how).c_str());
  c.bound(res.max, 1, ("upper bound " + how).c_str());
}

// ---- intervals given to simplify and bounds_of
void run_pairs(uint64_t u, const std::vector<node>& L) {
  int nl = (int)L.size(), ne = n_ext(nl);
  pool p;
  for (int l = 0; l < nl; ++l) for (int l2 = 0; l2 < nl; ++l2) for (int k = 0; k < ne; k += 3) {
    p.clear();
    p.n.push_back(L[l]);
    int a = ext(p, 0, (int)u, L);
    p.n.push_back(L[l2]);
    int b = ext(p, (int)p.n.size() - 1, k, L);
    for (size_t e = 0; e < 3; ++e) {
      static lanes b2 = grid(3, {-5, -2, -1, 0, 1, 3, 4});
      const env* E = e ? envs[e * 2].get() : nullptr;
      const lanes& Ln = e ? E->L : b2;
      slinky::interval_expr in(to_slinky(p, a), to_slinky(p, b));
      std::vector<i64> va, vb; std::vector<uint8_t> ba, bb;
      evaluator ev(p, Ln);
      ev(a, va, ba);
      ev(b, vb, bb);
      checker ca{p, a, E, Ln, va, ba, in.min}, cb{p, b, E, Ln, vb, bb, in.max};
      en::eval(Ln.n);
      if (C09) {
        slinky::interval_expr r = slinky::bounds_of(in, ca.B(), ca.A());
        ca.bound(r.min, -1, "lower bound of an interval");
        cb.bound(r.max, 1, "upper bound of an interval");
      } else {
        slinky::interval_expr r = slinky::simplify(in, ca.B(), ca.A());
        ca.simplified(r.min, "simplify interval min");
        cb.simplified(r.max, "simplify interval max");
      }
    }
  }
}

// ---- what is learned from conditions, and lets
int copy_into(pool& d, const pool& s, int i, int from = -1, int to = -1) {
  node n = s.n[i];
  for (int a = 0; a < arity(s.n[i].o); ++a) n.k[a] = copy_into(d, s, s.n[i].k[a], from, to);
  if (n.o == VAR && (int)n.c == from) n.c = to;
  d.n.push_back(n);
  return (int)d.n.size() - 1;
}
int parse_into(pool& d, const char* t, int from = -1, int to = -1) {
  shape s;
  parser(std::string("min(x,min(y,z))*0+(") + t + ")", s, 0);
  return copy_into(d, s.p, s.p.n[s.root].k[1], from, to);
}
const char* CONDS[] = {"x<max(y,z)", "min(x,y)<z", "x<min(y,z)", "max(x,y)<z", "x<=max(y,z)", "min(x,y)<=z", "x<y", "x<=y", "x<2", "-1<x", "x==y", "x!=y", "x==2", "x%3==1", "x%2!=0", "y==x%3",
  "x<y && y<z", "x<y || y<z", "!(x<y)", "!(x<y && y<z)", "!(x<y || z<y)", "x%3", "x*y", "x+y", "x", "x && y", "x || y", "x+1<y*2", "x/2==y", "x+y==z", "x*2<y+z", "!(x==y+z)", "abs(x)<2", "select(x<y,y,z)<2", "x<y && x%2==0",
  "min(x,2)<y", "y<max(x,2)", "max(x,y)==z", "x==max(y,z)", "!(max(x,y)<=z)", "!(x<min(y,z))", "x<=y && y<=x", "2<=x && x<=2", "x%4==3 && x<2", "and_then(x<y,y<z)", "or_else(x<y,y<z)"};
const char* THENS[] = {"min(x,y)", "max(x,y)", "min(x,z)", "max(x,z)", "min(y,z)", "max(y,z)", "x<y", "x<z", "y<z", "y<=x", "z<=x", "x==y", "x%3", "x%2", "(x+1)/2*2", "x/3", "min(x,2)", "max(x,0)", "select(x<y,1,2)", "select(x<z,x,y)", "x-y", "x*y", "x", "y", "x%3==1", "x+y", "x*2<y+z", "x/2==y", "min(x,2)<y", "x && y", "x || y", "abs(x)", "select(x%2==0,x,y)"};
constexpr int NCONDS = sizeof(CONDS) / sizeof(CONDS[0]), NTHENS = sizeof(THENS) / sizeof(THENS[0]);
const int CONDENVS = 4;
void run_cond(uint64_t u) {
  int ci = u / NTHENS, ti = u % NTHENS;
  static const lanes L3 = grid(3, {-5, -3, -2, -1, 0, 1, 2, 3, 4, 7});
  const env* E[CONDENVS] = {nullptr, envs[2].get(), envs[3].get(), envs[10].get()};
  pool p;
  for (int fi = 0; fi < NTHENS; ++fi)
    for (int e = 0; e < CONDENVS; ++e) {
      p.clear();
      int c = parse_into(p, CONDS[ci]), t = parse_into(p, THENS[ti]), f = parse_into(p, THENS[fi]);
      int r = p.add(SELECT, c, t, f);
      check(p, r, E[e], E[e] ? E[e]->L : L3);
      if (!e && fi < 4) {
        // The condition guards another use of the same values outside.
        int g = p.add(fi % 2 ? MIN : ADD, r, copy_into(p, p, t));
        check(p, g, nullptr, L3);
      }
    }
}
// The same with buffer fields for y and z.
void to_fields(pool& p) {
  for (node& n : p.n)
    if (n.o == VAR && n.c > 0) { n.o = FIELD; n.c -= 1; }
}
void run_cond_fields(uint64_t u) {
  int ci = u / NTHENS, ti = u % NTHENS;
  pool p;
  for (int fi = 0; fi < NTHENS; ++fi) {
    p.clear();
    int c = parse_into(p, CONDS[ci]), t = parse_into(p, THENS[ti]), f = parse_into(p, THENS[fi]);
    int r = p.add(SELECT, c, t, f);
    to_fields(p);
    check(p, r, nullptr, withbuf);
  }
}
const char* LETVALS[] = {"x", "y", "3", "x+1", "x*2", "min(x,y)", "x%3", "x<y", "x/2", "select(x<y,x,3)", "y*4+1", "abs(x)", "x-y"};
constexpr int NLETVALS = sizeof(LETVALS) / sizeof(LETVALS[0]);
// let v = A in let w = B[v] in C[v, w]
void run_let(uint64_t u) {
  int ai = u / NTHENS, ti = u % NTHENS;
  const int V = 20, W = 21;
  const env* E[CONDENVS] = {nullptr, envs[2].get(), envs[3].get(), envs[10].get()};
  pool p;
  auto rename = [](pool& p, size_t from, int a, int b) { for (size_t i = from; i < p.n.size(); ++i) if (p.n[i].o == VAR && p.n[i].c == a) p.n[i].c = b; };
  for (int bi = -1; bi < NLETVALS; ++bi)
    for (int form = 0; form < 4; ++form)
      for (int e = 0; e < CONDENVS; ++e) {
        p.clear();
        int a = parse_into(p, LETVALS[ai]);
        size_t m = p.n.size();
        int r;
        if (bi < 0) {
          r = parse_into(p, THENS[ti]);
          rename(p, m, form % 2, V);
          if (form >= 2) { int z = p.add(MIN, p.var(V), p.var(0)); r = p.add(ADD, r, z); }
        } else {
          int b = parse_into(p, LETVALS[bi]);
          if (form % 2) rename(p, m, 0, V);
          m = p.n.size();
          r = parse_into(p, THENS[ti]);
          rename(p, m, 0, V);
          rename(p, m, form < 2 ? 1 : 2, W);
          r = p.add(LET, b, r);
          p.n[r].c = W;
        }
        r = p.add(LET, a, r);
        p.n[r].c = V;
        check(p, r, E[e], E[e] ? E[e]->L : base[3]);
      }
}

std::string leaf_info(uint64_t u) { return en::fmt("operator %llu", (unsigned long long)u); }

std::vector<en::family> make() {
  bool T = en::thorough();
  base.push_back(lanes());
  base.push_back(grid(1, span_of(-25, 25)));
  base.push_back(grid(2, T ? span_of(-12, 12) : span_of(-8, 8)));
  base.push_back(grid(3, {-7, -4, -3, -2, -1, 0, 1, 2, 5}));
  base.push_back(grid(4, {-4, -2, -1, 0, 1, 3}));
  base.push_back(grid(5, {-3, -1, 0, 2}));
  base.push_back(grid(6, {-2, 0, 1}));
  base.push_back(grid(7, {-2, 0, 1}));
  large2 = grid(2, {I64MIN, I64MIN + 1, -((i64)1 << 62), -((i64)1 << 32) - 1, -((i64)1 << 31), -5, -2, -1, 0, 1, 2, 5, ((i64)1 << 31) + 1, ((i64)1 << 32), ((i64)1 << 62), I64MAX - 1, I64MAX});
  envs.push_back(nullptr);
  add_env("x in [0,5]", {{0, "0", "5"}}, {});
  add_env("x in [-3,2], y in [1,4]", {{0, "-3", "2"}, {1, "1", "4"}}, {});
  add_env("x in [0,y]", {{0, "0", "y"}}, {});
  add_env("x in [y,z]", {{0, "y", "z"}}, {});
  add_env("x in [y,y+3]", {{0, "y", "y+3"}}, {});
  add_env("x >= 0", {{0, "0", nullptr}}, {});
  add_env("x in [-inf,3], y in [-2,inf]", {{0, "-inf", "3"}, {1, "-2", "inf"}}, {});
  add_env("x in [1,1]", {{0, "1", "1"}}, {});
  add_env("x = 0 mod 2", {}, {{0, 2, 0}});
  add_env("x = 1 mod 3, y = 1 mod 2", {}, {{0, 3, 1}, {1, 2, 1}});
  add_env("x in [-5,6], x = 0 mod 4", {{0, "-5", "6"}}, {{0, 4, 0}});
  add_env("x in [2*y,2*y+1]", {{0, "2*y", "2*y+1"}}, {});
  add_env("x in [0,y-1], y in [1,6]", {{0, "0", "y-1"}, {1, "1", "6"}}, {});
  add_env("x in [-6,6], x = 2 mod 4, y = 0 mod 3", {{0, "-6", "6"}}, {{0, 4, 2}, {1, 3, 0}});
  add_env("x in [max(y,0),min(z,4)]", {{0, "max(y,0)", "min(z,4)"}}, {});
  add_env("x in [-5,-1], y in [-4,-2]", {{0, "-5", "-1"}, {1, "-4", "-2"}}, {});
  add_env("x = 5", {}, {{0, 0, 5}});
  add_env("x = -1 mod 6, x <= y", {{0, nullptr, "y"}}, {{0, 6, 5}});
  add_env("x in [y,y], z in [x,x+1]", {{0, "y", "y"}, {2, "x", "x+1"}}, {});
  add_env("x in [select(y<0,0,y),5], y in [-2,3]", {{0, "select(y<0,0,y)", "5"}, {1, "-2", "3"}}, {});
  add_env("x in [y/2,y/2+2], z in [0,3]", {{0, "y/2", "y/2+2"}, {2, "0", "3"}}, {});
  add_env("x in [0,1], y in [0,1]", {{0, "0", "1"}, {1, "0", "1"}}, {});
  load_shapes();

  // Buffer fields: b0 has two dimensions.
  using bf = slinky::buffer_field;
  fields() = {{BUF0, bf::min, 0}, {BUF0, bf::max, 0}, {BUF0, bf::elem_size, -1}, {BUF0, bf::rank, -1}, {BUF0, bf::stride, 0}};
  withbuf = grid(6, {0, 1, 2});
  {
    lanes& L = withbuf;
    static const i64 vx[] = {-3, 0, 2}, mn[] = {-2, 0, 3}, mx[] = {-1, 3, 4}, es[] = {0, 1, 4}, rk[] = {0, 1, 2}, st[] = {-4, 0, 1};
    std::vector<std::vector<i64>> c = L.col;
    for (int l = 0; l < L.n; ++l) { c[0][l] = vx[c[0][l]]; c[1][l] = mn[c[1][l]]; c[2][l] = mx[c[2][l]]; c[3][l] = es[c[3][l]]; c[4][l] = rk[c[4][l]]; c[5][l] = st[c[5][l]]; }
    L.col = {c[0]};
    L.fcol = {c[1], c[2], c[3], c[4], c[5]};
    // The dimensions beyond the rank are broadcasts.
    for (int l = 0; l < L.n; ++l) if (L.fcol[3][l] < 1) L.fcol[0][l] = L.fcol[1][l] = L.fcol[4][l] = 0;
  }
  leaves_q = {leaf_var(0), leaf_var(1), leaf_cst(-2), leaf_cst(-1), leaf_cst(0), leaf_cst(1), leaf_cst(2), leaf_cst(3)};
  leaves_s = {leaf_var(0), leaf_var(1), leaf_cst(2), leaf_cst(-1)};
  if (C09 && !T) leaves_s.pop_back();
  leaves_t = {leaf_var(0), leaf_var(1), leaf_cst(0), leaf_cst(3), leaf_cst(-2)};
  leaves_b = {leaf_var(0), leaf_fld(0), leaf_fld(1), leaf_fld(2), leaf_fld(3), leaf_cst(0), leaf_cst(1)};
  if (C09 && !T) leaves_b = {leaf_var(0), leaf_fld(0), leaf_fld(1), leaf_fld(3), leaf_cst(0)};
  int nq = (int)leaves_q.size(), ns = (int)leaves_s.size(), nt = (int)leaves_t.size(), nb = (int)leaves_b.size();

  std::vector<en::family> f;
  f.push_back({"shapes", jobs.size(), [](uint64_t u) { run_job(jobs[u]); }, [](uint64_t u) { return job_name(jobs[u]); }});
  f.push_back({"env", env_jobs.size(), [](uint64_t u) { run_env_job(env_jobs[u]); }, [](uint64_t u) { return job_name(env_jobs[u]); }});
  f.push_back({"consts", NOPS2, run_consts, leaf_info});
  f.push_back({"ops2", (uint64_t)n_ext(nq), [](uint64_t u) { run_ops2(u, leaves_q, nullptr, nullptr); }, leaf_info});
  f.push_back({"fields", (uint64_t)n_ext(nb), [](uint64_t u) { run_ops2(u, leaves_b, nullptr, &withbuf); }, leaf_info});
  uint64_t ne = envs.size() - 1;
  f.push_back({"ops2 env", (uint64_t)n_ext(T ? nq : ns) * ne, [=](uint64_t u) { const env* E = envs[1 + u % ne].get(); run_ops2(u / ne, T ? leaves_q : leaves_s, E, &E->L); }, leaf_info});
  f.push_back({"tree3", (uint64_t)NOPS2 * NOPS2 * NOPS2, [=](uint64_t u) { run_tree3(u, T ? leaves_t : leaves_s); }, leaf_info});
  f.push_back({"nest", nest_units(), [=](uint64_t u) { run_nest(u, {leaf_var(0), leaf_var(1), leaf_var(2)}, T || !C09); }, leaf_info});
  if (T) f.push_back({"chain3", (uint64_t)n_ext(ns) * n_ext(ns), [](uint64_t u) { run_chain3(u, leaves_s); }, leaf_info});
  auto cond_info = [](uint64_t u) { return std::string(CONDS[u / NTHENS]) + " ? " + THENS[u % NTHENS]; };
  f.push_back({"conditions", (uint64_t)NCONDS * NTHENS, run_cond, cond_info});
  f.push_back({"conditions on fields", (uint64_t)NCONDS * NTHENS, run_cond_fields, cond_info});
  f.push_back({"lets", (uint64_t)NLETVALS * NTHENS, run_let, [](uint64_t u) { return std::string("let ") + LETVALS[u / NTHENS] + " in " + THENS[u % NTHENS]; }});
  f.push_back({"pairs", (uint64_t)n_ext(ns), [](uint64_t u) { run_pairs(u, leaves_s); }, leaf_info});
  if (C09) f.push_back({"intervals", (uint64_t)NOPS2 * NIV * NIV, run_intervals, leaf_info});
  f.push_back({"large", large_jobs.size(), [](uint64_t u) { run_large_job(large_jobs[u]); }, [](uint64_t u) { return job_name(large_jobs[u]); }});
  return f;
}

}  // namespace

int main(int argc, char** argv) {
  return en::main_driver(argc, argv, en::families(C09 ? "C09" : "C08", "an expression (and assumptions about its variables), evaluated for every assignment of a grid; non-trivial when it is simplified to something else (C08) or takes more than one value (C09)", make, 120));
}
