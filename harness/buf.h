// Small buffers described by value, and a reference for what their indices mean.
#ifndef VERIF_BUF_H
#define VERIF_BUF_H

#include "enum.h"

#include "slinky/runtime/buffer.h"

#include <unistd.h>

#include <algorithm>
#include <array>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace bf {

using slinky::dim;
using slinky::index_t;
using slinky::raw_buffer;

// How the stride of a dimension is chosen when a buffer is laid out.
enum stride_kind {
  C,     // Just outside all previous dimensions.
  P,     // With padding after the previous dimensions.
  N,     // Negative, just outside the previous dimensions.
  Z,     // Zero.
  E,     // Exactly the element size.
  F,     // The extent of the previous dimension times its stride (fusable, even if that is 0 or negative).
};

struct D {
  index_t min, max;
  stride_kind sk;
  index_t fold;  // -1: not folded
};

inline const char* kind_name(stride_kind k) {
  static const char* n[] = {"C", "P", "N", "Z", "E", "F"};
  return n[k];
}

inline std::string str(const D& d) {
  std::string s = en::fmt("[%lld,%lld]%s", (long long)d.min, (long long)d.max, kind_name(d.sk));
  if (d.fold != -1) s += en::fmt("f%lld", (long long)d.fold);
  return s;
}

constexpr int MAXR = 5;

struct B {
  raw_buffer b;
  dim dims[MAXR];

  B() {
    b.base = nullptr;
    b.elem_size = 1;
    b.rank = 0;
    b.dims = dims;
  }
  B(const B& o) { *this = o; }
  B& operator=(const B& o) {
    b = o.b;
    memcpy((void*)dims, (const void*)o.dims, sizeof(dims));
    b.dims = dims + (o.b.dims - o.dims);
    return *this;
  }
};

inline index_t alloc_extent(const D& d) {
  index_t e = d.max >= d.min ? d.max - d.min + 1 : 0;
  return d.fold > 0 ? d.fold : e;
}

// Lay out a buffer.
inline void layout(B& r, const D* ds, int rank, index_t es, void* base) {
  r.b.base = base;
  r.b.elem_size = es;
  r.b.rank = rank;
  r.b.dims = r.dims;
  index_t next = es;
  for (int d = 0; d < rank; ++d) {
    index_t e = std::max<index_t>(1, alloc_extent(ds[d]));
    index_t s = 0;
    switch (ds[d].sk) {
    case C: s = next; break;
    case P: s = next + 2 * es; break;
    case N: s = -next; break;
    case Z: s = 0; break;
    case E: s = es; break;
    case F: s = d ? r.dims[d - 1].stride() * std::max<index_t>(0, ds[d - 1].max - ds[d - 1].min + 1) : es; break;
    }
    r.dims[d] = dim(ds[d].min, ds[d].max, s, ds[d].fold);
    if (s) next = std::max(next, (s < 0 ? -s : s) * e);
  }
}

inline std::string str(const raw_buffer& b) {
  std::string s = en::fmt("{es %lld", (long long)b.elem_size);
  if (!b.base) s += " null";
  for (size_t d = 0; d < b.rank; ++d) {
    s += en::fmt(", [%lld,%lld]*%lld", (long long)b.dims[d].min(), (long long)b.dims[d].max(), (long long)b.dims[d].stride());
    if (b.dims[d].fold_factor() != dim::unfolded) s += en::fmt(" fold %lld", (long long)b.dims[d].fold_factor());
  }
  return s + "}";
}

// --- reference semantics, from the definition of a dimension ---
inline bool in_dim(const dim& d, index_t i) { return d.stride() == 0 || (d.min() <= i && i <= d.max()); }
inline index_t offset_in_dim(const dim& d, index_t i) {
  if (d.stride() == 0) return 0;
  if (d.fold_factor() != dim::unfolded) {
    index_t f = d.fold_factor(), r = i % f;
    if (r < 0) r += f;
    return r * d.stride();
  }
  return (i - d.min()) * d.stride();
}
inline bool contains(const raw_buffer& b, const index_t* i, size_t n) {
  for (size_t d = 0; d < b.rank && d < n; ++d)
    if (!in_dim(b.dims[d], i[d])) return false;
  return true;
}
inline char* address(const raw_buffer& b, const index_t* i, size_t n) {
  char* p = (char*)b.base;
  for (size_t d = 0; d < b.rank && d < n; ++d) p += offset_in_dim(b.dims[d], i[d]);
  return p;
}
// The address of an element, or null if the buffer is null or does not contain it.
inline char* lookup(const raw_buffer& b, const index_t* i, size_t n) {
  return b.base && contains(b, i, n) ? address(b, i, n) : nullptr;
}

// Calls f(const index_t*) for every index in the bounds of b, padded with zeros up to rank n.
template <typename Fn>
void each_index(const raw_buffer& b, size_t n, const Fn& f) {
  index_t i[MAXR * 2] = {};
  for (size_t d = 0; d < b.rank; ++d) {
    if (b.dims[d].max() < b.dims[d].min()) return;
    i[d] = b.dims[d].min();
  }
  for (size_t d = b.rank; d < n; ++d) i[d] = 0;
  while (true) {
    f((const index_t*)i);
    size_t d = 0;
    for (; d < b.rank; ++d) {
      if (++i[d] <= b.dims[d].max()) break;
      i[d] = b.dims[d].min();
    }
    if (d == b.rank) return;
  }
}

inline std::string str(const index_t* i, size_t n) {
  std::string s = "(";
  for (size_t d = 0; d < n; ++d) s += en::fmt("%s%lld", d ? "," : "", (long long)i[d]);
  return s + ")";
}

// Counts in mixed radix: digit k of n runs over list sizes.
struct counter {
  std::vector<uint64_t> radix;
  uint64_t total() const {
    uint64_t t = 1;
    for (uint64_t r : radix) t *= r;
    return t;
  }
  std::vector<int> digits(uint64_t x) const {
    std::vector<int> r;
    for (uint64_t k : radix) {
      r.push_back((int)(x % k));
      x /= k;
    }
    return r;
  }
};

}  // namespace bf

#endif
