// C16: integer arithmetic against wide-integer and brute-force references.
#include "enum.h"

#include "slinky/base/arithmetic.h"
#include "slinky/base/modulus_remainder.h"

#include <algorithm>
#include <set>

using namespace slinky;
using en::fmt;
typedef __int128 wide;

namespace {

std::string str(wide x) {
  if (x == 0) return "0";
  bool n = x < 0;
  std::string s;
  unsigned __int128 u = n ? -(unsigned __int128)x : (unsigned __int128)x;
  while (u) s += char('0' + (int)(u % 10)), u /= 10;
  if (n) s += '-';
  std::reverse(s.begin(), s.end());
  return s;
}

wide wdiv(wide a, wide b) {
  if (b == 0) return 0;
  wide q = a / b, r = a - q * b;
  if (r < 0) q += b > 0 ? -1 : 1;
  return q;
}
wide wmod(wide a, wide b) { return b == 0 ? 0 : a - wdiv(a, b) * b; }
wide wfloor(wide a, wide b) {
  wide q = a / b;
  if (q * b != a && ((a < 0) != (b < 0))) --q;
  return q;
}
wide wgcd(wide a, wide b) {
  if (a < 0) a = -a;
  if (b < 0) b = -b;
  while (b) {
    wide t = a % b;
    a = b;
    b = t;
  }
  return a;
}
template <typename T>
bool fits(wide x) {
  return x >= std::numeric_limits<T>::min() && x <= std::numeric_limits<T>::max();
}
template <typename T>
wide sat(wide x) {
  if (x < std::numeric_limits<T>::min()) return std::numeric_limits<T>::min();
  if (x > std::numeric_limits<T>::max()) return std::numeric_limits<T>::max();
  return x;
}

template <typename T>
void expect(const char* op, const char* ty, T a, T b, wide got, wide want) {
  if (got != want)
    en::fail(fmt("%s<%s>(%s, %s)", op, ty, str(a).c_str(), str(b).c_str()),
        fmt("%s<%s>(%s, %s) is %s, expected %s", op, ty, str(a).c_str(), str(b).c_str(), str(got).c_str(), str(want).c_str()));
}

template <typename T>
void binary(const char* ty, T a, T b) {
  const T min = std::numeric_limits<T>::min();
  en::eval();
  uint64_t h = en::mix((uint64_t)a * 3 + sizeof(T), (uint64_t)b);
  if (b != 0 && a != 0) en::nontrivial(h);
  if (!(a == min && b == -1)) {
    // (The quotient min/-1 is not representable; the C++ division itself is undefined.)
    expect<T>("euclidean_div", ty, a, b, euclidean_div<T>(a, b), wdiv(a, b));
    expect<T>("euclidean_mod", ty, a, b, euclidean_mod<T>(a, b), wmod(a, b));
    expect<T>("floor_div", ty, a, b, floor_div<T>(a, b), wdiv(a, b));
    if (b == 0) {
      expect<T>("euclidean_div zero", ty, a, b, euclidean_div<T>(a, b, a), a);
      expect<T>("euclidean_mod zero", ty, a, b, euclidean_mod<T>(a, b, a), a);
    }
  }
  expect<T>("div_sat", ty, a, b, div_sat<T>(a, b), sat<T>(wdiv(a, b)));
  if (b > 0) {
    expect<T>("euclidean_div_positive_divisor", ty, a, b, euclidean_div_positive_divisor<T>(a, b), wdiv(a, b));
    expect<T>("euclidean_mod_positive_modulus", ty, a, b, euclidean_mod_positive_modulus<T>(a, b), wmod(a, b));
    if (fits<T>((wide)a + b - 1)) {
      wide c = wfloor((wide)a + b - 1, b);
      expect<T>("ceil_div", ty, a, b, ceil_div<T>(a, b), c);
      if (fits<T>(c * b)) expect<T>("align_up", ty, a, b, align_up<T>(a, b), c * b);
    }
    // To nearest: |q * b - a| * 2 <= b, ties upwards.
    if (fits<T>((wide)a + b / 2)) {
      T q = round_div<T>(a, b);
      wide d = ((wide)q * b - a) * 2;
      if (d > b || d <= -(wide)b) expect<T>("round_div", ty, a, b, q, wfloor(2 * (wide)a + b, 2 * (wide)b));
    }
    wide f = wfloor(a, b);
    if (fits<T>(f * b)) expect<T>("align_down", ty, a, b, align_down<T>(a, b), f * b);
  }
  const wide add = (wide)a + b, sub = (wide)a - b, mul = (wide)a * b;
  expect<T>("add_sat", ty, a, b, add_sat<T>(a, b), sat<T>(add));
  expect<T>("sub_sat", ty, a, b, sub_sat<T>(a, b), sat<T>(sub));
  expect<T>("mul_sat", ty, a, b, mul_sat<T>(a, b), sat<T>(mul));
  expect<T>("add_overflows", ty, a, b, add_overflows<T>(a, b), !fits<T>(add));
  expect<T>("sub_overflows", ty, a, b, sub_overflows<T>(a, b), !fits<T>(sub));
  expect<T>("mul_overflows", ty, a, b, mul_overflows<T>(a, b), !fits<T>(mul));
  T r = 1;
  bool o = add_with_overflow<T>(a, b, r);
  expect<T>("add_with_overflow", ty, a, b, o, !fits<T>(add));
  expect<T>("add_with_overflow result", ty, a, b, r, fits<T>(add) ? add : 0);
  o = sub_with_overflow<T>(a, b, r);
  expect<T>("sub_with_overflow", ty, a, b, o, !fits<T>(sub));
  expect<T>("sub_with_overflow result", ty, a, b, r, fits<T>(sub) ? sub : 0);
  o = mul_with_overflow<T>(a, b, r);
  expect<T>("mul_with_overflow", ty, a, b, o, !fits<T>(mul));
  expect<T>("mul_with_overflow result", ty, a, b, r, fits<T>(mul) ? mul : 0);
  const wide g = wgcd(a, b);
  if (fits<T>(g)) expect<T>("gcd", ty, a, b, gcd<T>(a, b), g);
  if (a >= 0 && b >= 0) {
    if (g && fits<T>((wide)a * b)) expect<T>("lcm", ty, a, b, lcm<T>(a, b), (wide)a * b / g);
  }
  expect<T>("sign", ty, a, b, sign<T>(a), a > 0 ? 1 : a < 0 ? -1 : 0);
  expect<T>("is_power_of_two", ty, a, b, is_power_of_two<T>(a), a > 0 && __builtin_popcountll((uint64_t)a) == 1);
}

template <typename T>
std::vector<T> boundary() {
  std::set<T> s;
  const wide lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  auto add = [&](wide x) {
    if (x >= lo && x <= hi) s.insert((T)x);
  };
  const int span = en::thorough() ? 40 : 12;
  for (int i = -span; i <= span; ++i) add(i);
  for (int k = 2; k < (int)sizeof(T) * 8; ++k)
    for (int d = -2; d <= 2; ++d) {
      add(((wide)1 << k) + d);
      add(-((wide)1 << k) + d);
    }
  for (int d = 0; d < 6; ++d) add(lo + d), add(hi - d), add(lo / 2 + d - 3), add(hi / 2 + d - 3), add(hi / 3 + d - 2), add(lo / 3 + d - 2);
  for (wide x = 10; x <= hi; x *= 10)
    for (int d = -1; d <= 1; ++d) add(x + d), add(-x + d);
  return std::vector<T>(s.begin(), s.end());
}

// --- congruences ---
typedef modulus_remainder<int64_t> mr;

// Every member of the set within [-w, w] around zero (the remainder itself for constants).
std::vector<int64_t> members(const mr& m, int64_t w) {
  std::vector<int64_t> r;
  if (m.modulus == 0) {
    r.push_back(m.remainder);
    return r;
  }
  for (int64_t x = -w; x <= w; ++x)
    if (wmod(x - m.remainder, m.modulus) == 0) r.push_back(x);
  return r;
}
bool contains(const mr& m, wide x) {
  if (m.modulus == 0) return x == m.remainder;
  return wmod(x - m.remainder, m.modulus) == 0;
}
std::string str(const mr& m) { return fmt("%lld*_+%lld", (long long)m.modulus, (long long)m.remainder); }

std::vector<mr> mrs() {
  const int M = en::thorough() ? 24 : 12;
  std::vector<mr> r;
  for (int64_t c = -M - 1; c <= M + 1; ++c) r.push_back(mr(0, c));
  for (int64_t m = 1; m <= M; ++m)
    for (int64_t c = 0; c < m; ++c) r.push_back(mr(m, c));
  return r;
}
// Huge congruences: the analysis must notice overflow.
std::vector<mr> big_mrs() {
  const int64_t min = std::numeric_limits<int64_t>::min(), max = std::numeric_limits<int64_t>::max();
  std::vector<mr> r;
  for (int64_t c : {max, max - 1, min, min + 1, min + 2, max / 2, max / 2 + 1, min / 2, min / 2 - 1, max / 3, (int64_t)1 << 32, -((int64_t)1 << 32),
           (int64_t)3037000500, (int64_t)0, (int64_t)1, (int64_t)-1, (int64_t)2, (int64_t)-2, (int64_t)6, (int64_t)-6, (int64_t)7})
    r.push_back(mr(0, c));
  for (int64_t m : {(int64_t)1, (int64_t)2, (int64_t)6, (int64_t)1 << 31, (int64_t)1 << 32, (int64_t)1 << 62, max, max - 1, max / 2 + 1, max / 3, (int64_t)3037000500})
    for (int64_t c : {(int64_t)0, (int64_t)1, m / 2, m - 1})
      if (c < m) r.push_back(mr(m, c));
  return r;
}

std::vector<int64_t> big_members(const mr& m) {
  std::set<int64_t> s;
  if (m.modulus == 0) {
    s.insert(m.remainder);
  } else {
    for (wide k = -3; k <= 3; ++k)
      if (fits<int64_t>(k * m.modulus + m.remainder)) s.insert((int64_t)(k * m.modulus + m.remainder));
  }
  return std::vector<int64_t>(s.begin(), s.end());
}

void one_mr_op(char op, const mr& a, const mr& b, const std::vector<int64_t>& as, const std::vector<int64_t>& bs) {
  mr r;
  std::string key = fmt("mr (%s) %c (%s)", str(a).c_str(), op, str(b).c_str());
  en::tag(key.c_str());
  switch (op) {
  case '+': r = a + b; break;
  case '-': r = a - b; break;
  case '*': r = a * b; break;
  case '/': r = a / b; break;
  case '%': r = a % b; break;
  case '|': r = a | b; break;
  case '&': r = a & b; break;
  }
  en::eval();
  if (r.modulus != 1) en::nontrivial(en::mix(en::mix(a.modulus, a.remainder), en::mix(b.modulus, b.remainder) * 7 + op));
  auto need = [&](wide x, wide p, wide q) {
    if (fits<int64_t>(x) && !contains(r, x)) {
      en::fail(key, fmt("%s gives %s, which does not contain %s (from %s, %s)", key.c_str(), str(r).c_str(), str(x).c_str(),
                        str(p).c_str(), str(q).c_str()));
      return false;
    }
    return true;
  };
  if (op == '&') {
    for (int64_t x : as)
      if (contains(b, x) && !need(x, x, x)) return;
    return;
  }
  if (op == '|') {
    for (int64_t x : as)
      if (!need(x, x, 0)) return;
    for (int64_t x : bs)
      if (!need(x, 0, x)) return;
    return;
  }
  for (int64_t x : as)
    for (int64_t y : bs) {
      wide z = op == '+' ? (wide)x + y : op == '-' ? (wide)x - y : op == '*' ? (wide)x * y : op == '/' ? wdiv(x, y) : wmod(x, y);
      if (!need(z, x, y)) return;
    }
}

std::vector<en::family> make() {
  std::vector<en::family> f;
  static std::vector<int64_t> b64 = boundary<int64_t>();
  static std::vector<int32_t> b32 = boundary<int32_t>();
  f.push_back({"int64 boundary pairs", b64.size(),
      [](uint64_t u) {
        for (int64_t b : b64) {
          en::tag(fmt("int64 %lld, %lld", (long long)b64[u], (long long)b).c_str());
          binary<int64_t>("int64", b64[u], b);
        }
        if (en::want_sample()) en::sample(fmt("all operators on (%lld, b) for %zu boundary values b", (long long)b64[u], b64.size()));
      },
      [](uint64_t u) { return fmt("first operand %lld", (long long)b64[u]); }});
  f.push_back({"int32 boundary pairs", b32.size(),
      [](uint64_t u) {
        for (int32_t b : b32) binary<int32_t>("int32", b32[u], b);
      },
      [](uint64_t u) { return fmt("first operand %d", b32[u]); }});
  // Small int64 grid, all pairs.
  static int G;
  G = en::thorough() ? 1200 : 250;
  f.push_back({"int64 grid", (uint64_t)(2 * G + 1),
      [](uint64_t u) {
        for (int b = -G; b <= G; ++b) binary<int64_t>("int64", (int64_t)u - G, b), binary<int>("int32", (int)u - G, b);
      },
      nullptr});
  static std::vector<mr> ms, bm;
  static std::vector<std::vector<int64_t>> mm, bmm;
  ms = mrs();
  mm.clear();
  for (auto& m : ms) mm.push_back(members(m, en::thorough() ? 60 : 30));
  bm = big_mrs();
  bmm.clear();
  for (auto& m : bm) bmm.push_back(big_members(m));
  f.push_back({"congruence", ms.size(),
      [](uint64_t u) {
        for (size_t j = 0; j < ms.size(); ++j)
          for (char op : {'+', '-', '*', '/', '%', '|', '&'}) one_mr_op(op, ms[u], ms[j], mm[u], mm[j]);
        if (en::want_sample()) en::sample(fmt("%s with every congruence of modulus <= %d under + - * / %% | &", str(ms[u]).c_str(), en::thorough() ? 24 : 12));
      },
      [](uint64_t u) { return str(ms[u]); }});
  f.push_back({"large congruence", bm.size(),
      [](uint64_t u) {
        for (size_t j = 0; j < bm.size(); ++j)
          for (char op : {'+', '-', '*', '|', '&', '/', '%'}) one_mr_op(op, bm[u], bm[j], bmm[u], bmm[j]);
      },
      [](uint64_t u) { return str(bm[u]); }});
  f.push_back({"large congruence of congruence", bm.size(),
      [](uint64_t u) {
        for (size_t j = 0; j < bm.size(); ++j) {
          const mr c[] = {bm[u] + bm[j], bm[u] - bm[j], bm[u] * bm[j], bm[u] | bm[j], bm[u] & bm[j], bm[u] / bm[j], bm[u] % bm[j]};
          for (const mr& a : c) {
            std::vector<int64_t> as = big_members(a);
            for (size_t k = 0; k < bm.size(); ++k)
              for (char op : {'+', '-', '*', '|', '&', '/', '%'}) {
                one_mr_op(op, a, bm[k], as, bmm[k]);
                one_mr_op(op, bm[k], a, bmm[k], as);
              }
          }
        }
      },
      [](uint64_t u) { return str(bm[u]); }});
  // Two operations in a row: what an operation returns must be a usable operand.
  f.push_back({"congruence of congruence", ms.size(),
      [](uint64_t u) {
        const int lim = en::thorough() ? 80 : 44;
        for (size_t j = 0; j < ms.size(); ++j) {
          const mr c[] = {ms[u] + ms[j], ms[u] - ms[j], ms[u] * ms[j], ms[u] / ms[j], ms[u] % ms[j], ms[u] | ms[j]};
          for (const mr& a : c) {
            if (a.modulus > lim || a.modulus < -lim) continue;
            std::vector<int64_t> as = members(a, 12);
            for (size_t k = u % 3; k < ms.size(); k += en::thorough() ? 1 : 3)
              for (char op : {'+', '-', '*', '/', '%', '|'}) {
                one_mr_op(op, a, ms[k], as, mm[k]);
                one_mr_op(op, ms[k], a, mm[k], as);
              }
          }
        }
      },
      [](uint64_t u) { return str(ms[u]); }});
  // Staircases.
  static int A, B;
  A = en::thorough() ? 6 : 3;
  B = en::thorough() ? 7 : 5;
  f.push_back({"staircase_sum_bounds", (uint64_t)(2 * B + 1) * (2 * B + 1),
      [](uint64_t u) {
        const int b1 = (int)(u % (2 * B + 1)) - B, b2 = (int)(u / (2 * B + 1)) - B;
        for (int c1 = -B; c1 <= B; ++c1)
          for (int c2 = -B; c2 <= B; ++c2)
            for (int a1 = -A; a1 <= A; ++a1)
              for (int a2 = -A; a2 <= A; ++a2) {
                interval<int> r = staircase_sum_bounds(a1, b1, c1, a2, b2, c2);
                en::eval();
                if (!r.min && !r.max) continue;
                en::nontrivial(en::mix(en::mix(a1 * 31 + b1, c1 * 37 + a2), b2 * 41 + c2));
                int lo = 1 << 30, hi = -(1 << 30);
                for (int x = -2 * B * B; x <= 2 * B * B; ++x) {
                  int y = (int)(wdiv(x + a1, b1) * c1 + wdiv(x + a2, b2) * c2);
                  lo = std::min(lo, y);
                  hi = std::max(hi, y);
                  if (staircase<int>(x, a1, b1, c1) != wdiv(x + a1, b1) * c1) en::fail("staircase", fmt("staircase(%d,%d,%d,%d)", x, a1, b1, c1));
                }
                if ((r.min && *r.min != lo) || (r.max && *r.max != hi))
                  en::fail(fmt("staircase_sum_bounds(%d,%d,%d,%d,%d,%d)", a1, b1, c1, a2, b2, c2),
                      fmt("staircase_sum_bounds(%d,%d,%d,%d,%d,%d) is [%d,%d], values are [%d,%d]", a1, b1, c1, a2, b2, c2,
                          r.min ? *r.min : -(1 << 30), r.max ? *r.max : 1 << 30, lo, hi));
              }
      },
      [](uint64_t u) { return fmt("divisors %d and %d", (int)(u % (2 * B + 1)) - B, (int)(u / (2 * B + 1)) - B); }});
  // Large staircase coefficients: overflow in the slope comparison.
  f.push_back({"staircase overflow", 1,
      [](uint64_t) {
        const int v[] = {1, -1, 2, -2, 3, -3, 65536, -65536, 32768, -32768, 1024, -1024, 1000, 46341, -46341, 1 << 30, -(1 << 30), 4194304, 8388608, -8388608};
        for (int b1 : v)
          for (int b2 : v)
            for (int c1 : v)
              for (int c2 : v) {
                if (abs(b1) > 1024 && abs(b2) > 1024) continue;
                interval<int> r = staircase_sum_bounds(0, b1, c1, 1, b2, c2);
                en::eval();
                if (!r.min && !r.max) continue;
                en::nontrivial(en::mix(en::mix(b1, c1), en::mix(b2, c2)));
                bool bad = false;
                wide at = 0;
                for (wide x : {(wide)0, (wide)1, (wide)-1, (wide)1023, (wide)-1023, (wide)5000000, (wide)-5000000}) {
                  wide y = wdiv(x, b1) * c1 + wdiv(x + 1, b2) * c2;
                  if ((r.min && y < *r.min) || (r.max && y > *r.max)) bad = true, at = x;
                }
                if (bad)
                  en::fail(fmt("staircase_sum_bounds(0,%d,%d,1,%d,%d)", b1, c1, b2, c2),
                      fmt("staircase_sum_bounds(0,%d,%d,1,%d,%d) does not bound the value at %s", b1, c1, b2, c2, str(at).c_str()));
              }
      },
      nullptr});
  f.push_back({"large staircase", 1,
      [](uint64_t) {
        const int bs[] = {1, -1, 2, 3, 7, 512, 1023, 1024, -1023, -1024};
        for (int b1 : bs)
          for (int b2 : bs)
            for (int k : {1, -1, 1000, 4000, 1 << 20, (1 << 21) - 1, -(1 << 21)})
              for (int a : {0, 1, -1, 1000000, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()}) {
                if (!fits<int>((wide)b1 * k) || !fits<int>(-(wide)b2 * k)) continue;
                const int c1 = b1 * k, c2 = -b2 * k;
                interval<int> r = staircase_sum_bounds(a, b1, c1, 1, b2, c2);
                en::eval();
                if (!r.min && !r.max) continue;
                en::nontrivial(en::mix(en::mix(b1, k), en::mix(b2, a)));
                wide lo = 0, hi = 0, period = wgcd(b1, b2);
                period = (wide)abs(b1) * abs(b2) / period;
                for (wide x = 0; x < period; ++x) {
                  wide y = wdiv(x + a, b1) * c1 + wdiv(x + 1, b2) * c2;
                  lo = x == 0 ? y : std::min(lo, y);
                  hi = x == 0 ? y : std::max(hi, y);
                }
                if ((r.min && *r.min != lo) || (r.max && *r.max != hi))
                  en::fail(fmt("staircase_sum_bounds(%d,%d,%d,1,%d,%d)", a, b1, c1, b2, c2),
                      fmt("staircase_sum_bounds(%d,%d,%d,1,%d,%d): values are [%s,%s]", a, b1, c1, b2, c2, str(lo).c_str(), str(hi).c_str()));
              }
      },
      nullptr});
  return f;
}

}  // namespace

int main(int argc, char** argv) {
  return en::main_driver(argc, argv,
      en::families("C16", "an operator applied to operands outside its trivial cases (zero operands, or a congruence result of all integers)", make));
}
