// Expressions of our own: built by enumeration or parsed from shapes, converted to and from slinky expressions, and
// evaluated over all lanes (assignments of values to variables) at once with a reference semantics that is independent
// of slinky's evaluator: Euclidean division with x/0 == x%0 == 0, logical operators giving 0 or 1, lazily evaluated
// select and short circuiting operators. Lanes on which an evaluated operation overflows are flagged.
#ifndef VERIF_HARNESS_EXPRLIB_H
#define VERIF_HARNESS_EXPRLIB_H

#include <cassert>
#include <cctype>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <string>
#include <vector>

#include "enum.h"
#include "slinky/runtime/expr.h"

namespace ex {

using i64 = int64_t;
constexpr i64 I64MAX = INT64_MAX, I64MIN = INT64_MIN;

enum op : uint8_t { VAR, CONST, FIELD, ADD, SUB, MUL, DIV, MOD, MIN, MAX, EQ, NE, LT, LE, AND, OR, NOT, SELECT, ABS, AND_THEN, OR_ELSE, LET, PINF, NINF, INDET, BAD };
inline int arity(op o) {
  switch (o) {
  case VAR: case CONST: case FIELD: case PINF: case NINF: case INDET: case BAD: return 0;
  case NOT: case ABS: return 1;
  case SELECT: return 3;
  default: return 2;  // LET: value, body
  }
}
inline const char* op_name(op o) {
  static const char* n[] = {"var", "const", "field", "+", "-", "*", "/", "%", "min", "max", "==", "!=", "<", "<=", "&&", "||", "!", "select", "abs", "and_then", "or_else", "let", "inf", "-inf", "indet", "bad"};
  return n[o];
}

struct node {
  op o;
  int32_t k[3] = {-1, -1, -1};
  i64 c = 0;  // CONST: value, VAR: variable, LET: variable, FIELD: index of a field
};

// Fields of buffers, as columns after the variables.
struct field { int buf; slinky::buffer_field f; int dim; };

struct pool {
  std::vector<node> n;
  bool infinite = false;
  void clear() { n.clear(); infinite = false; }
  int add(op o, int a = -1, int b = -1, int d = -1) {
    node x; x.o = o; x.k[0] = a; x.k[1] = b; x.k[2] = d;
    if (o == PINF || o == NINF || o == INDET) infinite = true;
    n.push_back(x);
    return (int)n.size() - 1;
  }
  int var(int i) { int r = add(VAR); n[r].c = i; return r; }
  int cst(i64 c) { int r = add(CONST); n[r].c = c; return r; }
  int fld(int i) { int r = add(FIELD); n[r].c = i; return r; }
};

constexpr int NVAR = 12;  // variables 0..NVAR-1; let variables are 20.. in the slinky numbering
constexpr int BUF0 = 40;  // buffer symbols

inline const char* var_name(int i) {
  static const char* n[] = {"x", "y", "z", "w", "u", "v", "t", "p", "q", "r", "s", "o"};
  static char b[8][16]; static int r;
  if (i < NVAR) return n[i];
  char* p = b[r++ % 8];
  snprintf(p, 16, "l%d", i);
  return p;
}

inline std::string field_name(const field& f) {
  const char* n = f.f == slinky::buffer_field::min ? "min" : f.f == slinky::buffer_field::max ? "max" : f.f == slinky::buffer_field::stride ? "stride" : f.f == slinky::buffer_field::fold_factor ? "fold" : f.f == slinky::buffer_field::elem_size ? "elem_size" : f.f == slinky::buffer_field::rank ? "rank" : "?";
  return en::fmt("b%d.%s%d", f.buf, n, f.dim);
}
inline std::vector<field>& fields() { static std::vector<field> f; return f; }

inline std::string str(const pool& p, int i) {
  const node& n = p.n[i];
  switch (n.o) {
  case VAR: return var_name(n.c);
  case CONST: return n.c == I64MIN ? "INT64_MIN" : std::to_string(n.c);
  case FIELD: return field_name(fields()[n.c]);
  case PINF: case NINF: case INDET: case BAD: return op_name(n.o);
  case LET: return std::string("let(") + var_name(n.c) + " = " + str(p, n.k[0]) + ", " + str(p, n.k[1]) + ")";
  case NOT: return "!" + str(p, n.k[0]);
  case MIN: case MAX: case SELECT: case ABS: case AND_THEN: case OR_ELSE: {
    std::string r = std::string(op_name(n.o)) + "(";
    for (int a = 0; a < arity(n.o); ++a) r += (a ? ", " : "") + str(p, n.k[a]);
    return r + ")";
  }
  default: return "(" + str(p, n.k[0]) + " " + op_name(n.o) + " " + str(p, n.k[1]) + ")";
  }
}

// To slinky.
inline slinky::expr to_slinky(const pool& p, int i) {
  using namespace slinky;
  const node& n = p.n[i];
  auto K = [&](int a) { return to_slinky(p, n.k[a]); };
  switch (n.o) {
  case VAR: return variable::make(slinky::var(n.c));
  case CONST: return constant::make((index_t)n.c);
  case FIELD: { const field& f = fields()[n.c]; return variable::make(slinky::var(f.buf), f.f, f.dim); }
  case ADD: return slinky::add::make(K(0), K(1));
  case SUB: return slinky::sub::make(K(0), K(1));
  case MUL: return slinky::mul::make(K(0), K(1));
  case DIV: return slinky::div::make(K(0), K(1));
  case MOD: return slinky::mod::make(K(0), K(1));
  case MIN: return slinky::min::make(K(0), K(1));
  case MAX: return slinky::max::make(K(0), K(1));
  case EQ: return slinky::equal::make(K(0), K(1));
  case NE: return slinky::not_equal::make(K(0), K(1));
  case LT: return slinky::less::make(K(0), K(1));
  case LE: return slinky::less_equal::make(K(0), K(1));
  case AND: return slinky::logical_and::make(K(0), K(1));
  case OR: return slinky::logical_or::make(K(0), K(1));
  case NOT: return slinky::logical_not::make(K(0));
  case SELECT: return slinky::select::make(K(0), K(1), K(2));
  case ABS: return slinky::call::make(intrinsic::abs, {K(0)});
  case AND_THEN: return slinky::call::make(intrinsic::and_then, {K(0), K(1)});
  case OR_ELSE: return slinky::call::make(intrinsic::or_else, {K(0), K(1)});
  case LET: return slinky::let::make(slinky::var(n.c), K(0), K(1));
  case PINF: return slinky::call::make(intrinsic::positive_infinity, {});
  case NINF: return slinky::call::make(intrinsic::negative_infinity, {});
  case INDET: return slinky::call::make(intrinsic::indeterminate, {});
  case BAD: break;
  }
  abort();
}

// From slinky. Anything we have no meaning for becomes BAD.
inline int from_slinky(pool& p, const slinky::base_expr_node* e) {
  using namespace slinky;
  if (!e) return p.add(BAD);
  switch (e->type) {
  case expr_node_type::variable: {
    const variable* v = static_cast<const variable*>(e);
    if (v->field == buffer_field::none) return p.var(v->sym.id);
    for (size_t i = 0; i < fields().size(); ++i)
      if (fields()[i].buf == (int)v->sym.id && fields()[i].f == v->field && (fields()[i].dim == v->dim || v->field == buffer_field::rank || v->field == buffer_field::elem_size)) return p.fld(i);
    return p.add(BAD);
  }
  case expr_node_type::constant: return p.cst(static_cast<const constant*>(e)->value);
#define BIN(N, O) case expr_node_type::N: { auto b = static_cast<const binary_op*>(e); int x = from_slinky(p, b->a.get()), y = from_slinky(p, b->b.get()); return p.add(O, x, y); }
  BIN(add, ADD) BIN(sub, SUB) BIN(mul, MUL) BIN(div, DIV) BIN(mod, MOD) BIN(min, MIN) BIN(max, MAX) BIN(equal, EQ) BIN(not_equal, NE) BIN(less, LT) BIN(less_equal, LE) BIN(logical_and, AND) BIN(logical_or, OR)
#undef BIN
  case expr_node_type::logical_not: { int x = from_slinky(p, static_cast<const logical_not*>(e)->a.get()); return p.add(NOT, x); }
  case expr_node_type::select: {
    auto s = static_cast<const class slinky::select*>(e);
    int c = from_slinky(p, s->condition.get()), t = from_slinky(p, s->true_value.get()), f = from_slinky(p, s->false_value.get());
    return p.add(SELECT, c, t, f);
  }
  case expr_node_type::let: {
    auto l = static_cast<const slinky::let*>(e);
    std::vector<int> v;
    for (auto& i : l->lets) v.push_back(from_slinky(p, i.second.get()));
    int r = from_slinky(p, l->body.get());
    for (size_t i = v.size(); i-- > 0;) { r = p.add(LET, v[i], r); p.n[r].c = l->lets[i].first.id; }
    return r;
  }
  case expr_node_type::call: {
    auto c = static_cast<const slinky::call*>(e);
    op o = c->intrinsic == intrinsic::abs ? ABS : c->intrinsic == intrinsic::and_then ? AND_THEN : c->intrinsic == intrinsic::or_else ? OR_ELSE : c->intrinsic == intrinsic::positive_infinity ? PINF : c->intrinsic == intrinsic::negative_infinity ? NINF : c->intrinsic == intrinsic::indeterminate ? INDET : BAD;
    if ((int)c->args.size() != arity(o)) return p.add(BAD);
    int a[3] = {-1, -1, -1};
    for (size_t i = 0; i < c->args.size(); ++i) a[i] = from_slinky(p, c->args[i].get());
    return p.add(o, a[0], a[1], a[2]);
  }
  default: return p.add(BAD);
  }
}
inline int from_slinky(pool& p, const slinky::expr& e) { return from_slinky(p, e.get()); }
inline bool has(const pool& p, op o) { for (auto& i : p.n) if (i.o == o) return true; return false; }

// ---- Evaluation over lanes.
struct lanes {
  int n = 0;
  std::vector<std::vector<i64>> col;    // per variable (index = slinky id)
  std::vector<std::vector<i64>> fcol;   // per field
};

struct scratch {
  std::vector<std::vector<i64>> v;
  std::vector<std::vector<uint8_t>> f;
  size_t top = 0;
};

inline i64 ediv(i64 a, i64 b, bool& ovf) {
  if (b == 0) return 0;
  if (b == -1) { if (a == I64MIN) { ovf = true; return a; } return -a; }
  i64 q = a / b;
  if (a % b < 0) q += b > 0 ? -1 : 1;
  return q;
}
inline i64 emod(i64 a, i64 b, bool& ovf) {
  if (b == 0 || b == -1 || b == 1) return 0;
  i64 r = a % b;
  if (r < 0) r = (i64)((uint64_t)r + (b < 0 ? 0 - (uint64_t)b : (uint64_t)b));
  return r;
}

// The value of p[i] on lane l, or of all lanes: values in out, and bad[l] is set if something that is evaluated on lane l
// overflows (or has no meaning).
class evaluator {
  const pool& p;
  const lanes& L;
  std::vector<std::vector<i64>*> letv = std::vector<std::vector<i64>*>(80, nullptr);
  std::vector<std::vector<uint8_t>*> letb = std::vector<std::vector<uint8_t>*>(80, nullptr);

public:
  evaluator(const pool& p, const lanes& L) : p(p), L(L) {}
  void operator()(int i, std::vector<i64>& out, std::vector<uint8_t>& bad) {
    int n = L.n;
    const node& nd = p.n[i];
    out.resize(n);
    bad.assign(n, 0);
    switch (nd.o) {
    case VAR:
      if (nd.c < (int)letv.size() && letv[nd.c]) { out = *letv[nd.c]; bad = *letb[nd.c]; return; }
      if (nd.c >= (int)L.col.size() || (int)L.col[nd.c].size() != n) { std::fill(bad.begin(), bad.end(), 2); std::fill(out.begin(), out.end(), 0); return; }
      out = L.col[nd.c];
      return;
    case FIELD: out = L.fcol[nd.c]; return;
    case CONST: std::fill(out.begin(), out.end(), nd.c); return;
    case PINF: case NINF: case INDET: case BAD: std::fill(out.begin(), out.end(), 0); std::fill(bad.begin(), bad.end(), 2); return;
    case LET: {
      std::vector<i64> v; std::vector<uint8_t> b;
      (*this)(nd.k[0], v, b);
      auto ov = letv[nd.c]; auto ob = letb[nd.c];
      letv[nd.c] = &v; letb[nd.c] = &b;
      (*this)(nd.k[1], out, bad);
      letv[nd.c] = ov; letb[nd.c] = ob;
      for (int l = 0; l < n; ++l) bad[l] |= b[l];
      return;
    }
    default: break;
    }
    std::vector<i64> A, B, C;
    std::vector<uint8_t> a, b, c;
    (*this)(nd.k[0], A, a);
    if (arity(nd.o) > 1) (*this)(nd.k[1], B, b);
    if (arity(nd.o) > 2) (*this)(nd.k[2], C, c);
    switch (nd.o) {
    case ADD: for (int l = 0; l < n; ++l) bad[l] = a[l] | b[l] | __builtin_add_overflow(A[l], B[l], &out[l]); break;
    case SUB: for (int l = 0; l < n; ++l) bad[l] = a[l] | b[l] | __builtin_sub_overflow(A[l], B[l], &out[l]); break;
    case MUL: for (int l = 0; l < n; ++l) bad[l] = a[l] | b[l] | __builtin_mul_overflow(A[l], B[l], &out[l]); break;
    case DIV: for (int l = 0; l < n; ++l) { bool o = false; out[l] = ediv(A[l], B[l], o); bad[l] = a[l] | b[l] | o; } break;
    case MOD: for (int l = 0; l < n; ++l) { bool o = false; out[l] = emod(A[l], B[l], o); bad[l] = a[l] | b[l] | o; } break;
    case MIN: for (int l = 0; l < n; ++l) { out[l] = A[l] < B[l] ? A[l] : B[l]; bad[l] = a[l] | b[l]; } break;
    case MAX: for (int l = 0; l < n; ++l) { out[l] = A[l] > B[l] ? A[l] : B[l]; bad[l] = a[l] | b[l]; } break;
    case EQ: for (int l = 0; l < n; ++l) { out[l] = A[l] == B[l]; bad[l] = a[l] | b[l]; } break;
    case NE: for (int l = 0; l < n; ++l) { out[l] = A[l] != B[l]; bad[l] = a[l] | b[l]; } break;
    case LT: for (int l = 0; l < n; ++l) { out[l] = A[l] < B[l]; bad[l] = a[l] | b[l]; } break;
    case LE: for (int l = 0; l < n; ++l) { out[l] = A[l] <= B[l]; bad[l] = a[l] | b[l]; } break;
    case AND: for (int l = 0; l < n; ++l) { out[l] = A[l] && B[l]; bad[l] = a[l] | b[l]; } break;
    case OR: for (int l = 0; l < n; ++l) { out[l] = A[l] || B[l]; bad[l] = a[l] | b[l]; } break;
    case AND_THEN: for (int l = 0; l < n; ++l) { out[l] = A[l] && B[l]; bad[l] = a[l] | (A[l] ? b[l] : 0); } break;
    case OR_ELSE: for (int l = 0; l < n; ++l) { out[l] = A[l] || B[l]; bad[l] = a[l] | (A[l] ? 0 : b[l]); } break;
    case NOT: for (int l = 0; l < n; ++l) { out[l] = !A[l]; bad[l] = a[l]; } break;
    case ABS: for (int l = 0; l < n; ++l) { bad[l] = a[l] | (A[l] == I64MIN); out[l] = A[l] < 0 ? (i64)(0 - (uint64_t)A[l]) : A[l]; } break;
    case SELECT: for (int l = 0; l < n; ++l) { out[l] = A[l] ? B[l] : C[l]; bad[l] = a[l] | (A[l] ? b[l] : c[l]); } break;
    default: abort();
    }
  }
};

// ---- Evaluation on one lane with infinities. kind: 0 finite, 1 +inf, -1 -inf, 9 unknown.
struct xval { int kind; i64 v; };
inline xval xeval(const pool& p, int i, const lanes& L, int l, std::map<i64, xval>& let) {
  const node& n = p.n[i];
  const xval U{9, 0};
  switch (n.o) {
  case VAR: { auto it = let.find(n.c); if (it != let.end()) return it->second; if (n.c >= (int)L.col.size() || (int)L.col[n.c].size() != L.n) return U; return {0, L.col[n.c][l]}; }
  case FIELD: return {0, L.fcol[n.c][l]};
  case CONST: return {0, n.c};
  case PINF: return {1, 0};
  case NINF: return {-1, 0};
  case INDET: case BAD: return U;
  case LET: {
    xval v = xeval(p, n.k[0], L, l, let);
    auto old = let; let[n.c] = v;
    xval r = xeval(p, n.k[1], L, l, let);
    let = old;
    return r;
  }
  default: break;
  }
  xval a = xeval(p, n.k[0], L, l, let);
  if (n.o == SELECT) { if (a.kind == 9) return U; return xeval(p, n.k[(a.kind || a.v) ? 1 : 2], L, l, let); }
  if (n.o == NOT) { if (a.kind == 9) return U; return {0, a.kind == 0 && a.v == 0}; }
  if (n.o == ABS) { if (a.kind == 9) return U; if (a.kind) return {1, 0}; if (a.v == I64MIN) return U; return {0, a.v < 0 ? -a.v : a.v}; }
  xval b = xeval(p, n.k[1], L, l, let);
  auto sgn = [](const xval& x) { return x.kind ? x.kind : x.v > 0 ? 1 : x.v < 0 ? -1 : 0; };
  if (n.o == AND || n.o == AND_THEN) {
    if (a.kind == 0 && !a.v) return {0, 0};
    if (b.kind == 0 && !b.v) return {0, 0};
    if (a.kind == 9 || b.kind == 9) return U;
    return {0, 1};
  }
  if (n.o == OR || n.o == OR_ELSE) {
    if (a.kind != 9 && (a.kind || a.v)) return {0, 1};
    if (b.kind != 9 && (b.kind || b.v)) return {0, 1};
    if (a.kind == 9 || b.kind == 9) return U;
    return {0, 0};
  }
  if (a.kind == 9 || b.kind == 9) {
    if (n.o == MIN && (a.kind == -1 || b.kind == -1)) return {-1, 0};
    if (n.o == MAX && (a.kind == 1 || b.kind == 1)) return {1, 0};
    return U;
  }
  xval r{0, 0};
  switch (n.o) {
  case ADD: if (a.kind || b.kind) { if (a.kind && b.kind && a.kind != b.kind) return U; return {a.kind ? a.kind : b.kind, 0}; } if (__builtin_add_overflow(a.v, b.v, &r.v)) return U; return r;
  case SUB: if (a.kind || b.kind) { if (a.kind && b.kind && a.kind == b.kind) return U; return {a.kind ? a.kind : -b.kind, 0}; } if (__builtin_sub_overflow(a.v, b.v, &r.v)) return U; return r;
  case MUL: if (a.kind || b.kind) { int s = sgn(a) * sgn(b); if (!s) return {0, 0}; return {s, 0}; } if (__builtin_mul_overflow(a.v, b.v, &r.v)) return U; return r;
  case DIV: { if (a.kind && b.kind) return U; if (b.kind) return U; if (a.kind) { int s = sgn(a) * sgn(b); if (!s) return {0, 0}; return {s, 0}; } bool o = false; r.v = ediv(a.v, b.v, o); if (o) return U; return r; }
  case MOD: { if (a.kind || b.kind) return U; bool o = false; r.v = emod(a.v, b.v, o); return r; }
  default: break;
  }
  auto lt = [](const xval& a, const xval& b) { if (a.kind != b.kind) return a.kind < b.kind; return a.kind == 0 && a.v < b.v; };
  auto eq = [](const xval& a, const xval& b) { return a.kind == b.kind && (a.kind || a.v == b.v); };
  switch (n.o) {
  case MIN: return lt(a, b) ? a : b;
  case MAX: return lt(a, b) ? b : a;
  case EQ: return {0, eq(a, b)};
  case NE: return {0, !eq(a, b)};
  case LT: return {0, lt(a, b)};
  case LE: return {0, lt(a, b) || eq(a, b)};
  default: return U;
  }
}

// ---- Shapes: a textual expression with constants c0.. and optional parts may_be<d>(e).
struct shape {
  pool p;           // CONST nodes with `hole` have c = index of the hole
  int root = -1;
  int nconst = 0, nvar = 0;
  std::vector<char> hole;   // per node
};

class parser {
  const std::string& s;
  size_t i = 0;
  shape& out;
  uint32_t present;      // which may_be are present
  int nopt = 0;
  std::map<std::string, int> vars, consts;
  // absent parts return -2 - default
  void ws() { while (i < s.size() && isspace(s[i])) ++i; }
  bool eat(const char* t) {
    ws();
    size_t n = strlen(t);
    if (s.compare(i, n, t) == 0) { i += n; return true; }
    return false;
  }
  static constexpr int ABS0 = -100, ABS1 = -101;
  int bin(op o, int a, int b) {
    // An absent operand is the identity.
    if (a == ABS0 || a == ABS1) { if (o == SUB) { a = cst(0); } else return b; }
    if (b == ABS0 || b == ABS1) return a;
    int r = out.p.add(o, a, b);
    return r;
  }
  int cst(i64 c) { int r = out.p.cst(c); return r; }
  int full(int a) { return a == ABS0 ? cst(0) : a == ABS1 ? cst(1) : a; }
  int prim() {
    ws();
    if (eat("(")) { int r = logic(); need(")"); return r; }
    if (eat("!")) { int a = full(prim()); return out.p.add(NOT, a); }
    if (s[i] == '-' && !isdigit(s[i + 1])) { ++i; int a = full(prim()); int z = cst(0); return out.p.add(SUB, z, a); }
    if (isdigit(s[i]) || s[i] == '-') { size_t k; i64 v = std::stoll(s.substr(i), &k); i += k; return cst(v); }
    std::string id;
    while (i < s.size() && (isalnum(s[i]) || s[i] == '_')) id += s[i++];
    if (id == "may_be") {
      need("<"); int def = eat("true") ? 1 : eat("false") ? 0 : s[i++] - '0'; need(">"); need("(");
      bool on = present >> nopt++ & 1;
      shape keep; int r = logic(); need(")");
      return on ? r : def ? ABS1 : ABS0;
    }
    if (eat("(")) {
      std::vector<int> a;
      if (!eat(")")) { do a.push_back(logic()); while (eat(",")); need(")"); }
      for (int& k : a) k = full(k);
      if (id == "min") return out.p.add(MIN, a[0], a[1]);
      if (id == "max") return out.p.add(MAX, a[0], a[1]);
      if (id == "select") return out.p.add(SELECT, a[0], a[1], a[2]);
      if (id == "abs") return out.p.add(ABS, a[0]);
      if (id == "and_then") return out.p.add(AND_THEN, a[0], a[1]);
      if (id == "or_else") return out.p.add(OR_ELSE, a[0], a[1]);
      if (id == "staircase") { int r = out.p.add(ADD, a[0], a[1]); r = out.p.add(DIV, r, a[2]); return out.p.add(MUL, r, a[3]); }
      fprintf(stderr, "bad function %s in %s\n", id.c_str(), s.c_str()); abort();
    }
    if (id.size() == 2 && id[0] == 'c' && isdigit(id[1])) {
      int k = consts.emplace(id, (int)consts.size()).first->second;
      int r = cst(k);
      out.hole.resize(out.p.n.size());
      out.hole[r] = 1;
      return r;
    }
    int k = vars.emplace(id, (int)vars.size()).first->second;
    return out.p.var(k);
  }
  int mul() { int a = prim(); for (;;) { if (eat("*")) a = bin(MUL, a, prim()); else if (eat("/")) a = bin(DIV, a, prim()); else if (eat("%")) a = bin(MOD, a, prim()); else return a; } }
  int sum() { int a = mul(); for (;;) { ws(); if (eat("+")) a = bin(ADD, a, mul()); else if (s[i] == '-') { ++i; a = bin(SUB, a, mul()); } else return a; } }
  int cmp() {
    int a = sum();
    for (;;) {
      op o;
      if (eat("<=")) o = LE; else if (eat("==")) o = EQ; else if (eat("!=")) o = NE; else if (eat("<")) o = LT; else return a;
      a = full(a); int b = full(sum()); a = out.p.add(o, a, b);
    }
  }
  int conj() { int a = cmp(); while (eat("&&")) { int b = cmp(); a = a < 0 ? b : b < 0 ? a : out.p.add(AND, a, b); } return a; }
  int logic() { int a = conj(); while (eat("||")) { int b = conj(); a = a < 0 ? b : b < 0 ? a : out.p.add(OR, a, b); } return a; }
  void need(const char* t) { if (!eat(t)) { fprintf(stderr, "expected %s at %zu of %s\n", t, i, s.c_str()); abort(); } }

public:
  parser(const std::string& s, shape& out, uint32_t present) : s(s), out(out), present(present) {
    out.root = full(logic());
    ws();
    if (i != s.size()) { fprintf(stderr, "trailing text in %s\n", s.c_str()); abort(); }
    out.hole.resize(out.p.n.size());
    // Renumber variables and holes that are still reachable.
    std::map<int, int> vm, cm;
    renum(out.root, vm, cm);
    out.nvar = (int)vm.size();
    out.nconst = (int)cm.size();
  }
  void renum(int k, std::map<int, int>& vm, std::map<int, int>& cm) {
    node& n = out.p.n[k];
    if (n.o == VAR) { n.c = vm.emplace(n.c, (int)vm.size()).first->second; }
    if (n.o == CONST && out.hole[k] == 1) { n.c = cm.emplace(n.c, (int)cm.size()).first->second; }
    for (int a = 0; a < arity(n.o); ++a) renum(n.k[a], vm, cm);
  }
  static int count_optional(const std::string& s) { int n = 0; for (size_t p = 0; (p = s.find("may_be<", p)) != std::string::npos; ++p) ++n; return n; }
};

// Copy `s.root` into p, with holes and variables replaced by what `hole` and `var` build.
template <typename H, typename V>
int instantiate(pool& p, const shape& s, int k, const H& hole, const V& var) {
  const node& n = s.p.n[k];
  if (n.o == VAR) return var(p, (int)n.c);
  if (n.o == CONST) return p.cst(s.hole[k] ? hole((int)n.c) : n.c);
  int a[3] = {-1, -1, -1};
  for (int i = 0; i < arity(n.o); ++i) a[i] = instantiate(p, s, n.k[i], hole, var);
  return p.add(n.o, a[0], a[1], a[2]);
}

}  // namespace ex

#endif
