// C14: buffer layouts, against brute force.
#include "buf.h"

#include <sanitizer/asan_interface.h>

using namespace bf;
using namespace slinky;
using en::fmt;

namespace {

constexpr index_t AUTO = dim::auto_stride;
constexpr index_t UNFOLDED = dim::unfolded;

typedef __int128 wide;

wide slots(const dim& d) {
  wide e = std::max<wide>(0, wide(d.max()) - d.min() + 1);
  return d.fold_factor() > 0 ? std::min<wide>(e, d.fold_factor()) : e;
}
index_t reserved(const dim& d) {
  index_t e = std::max<index_t>(0, d.max() - d.min() + 1);
  return d.fold_factor() > 0 ? d.fold_factor() : e;
}

// Keeps sums of a few terms in range.
wide clamp(wide x) { return std::max(-(wide(1) << 120), std::min(wide(1) << 120, x)); }

std::string show(const raw_buffer& b) {
  std::string s = str(b), big = fmt("%lld", (long long)AUTO);
  for (size_t p; (p = s.find(big)) != std::string::npos;) s.replace(p, big.size(), "auto");
  return s;
}

// The preset strides nest: each one covers everything inside of it, and none is smaller than an element.
bool nested(const raw_buffer& b) {
  std::vector<std::pair<index_t, index_t>> k;
  for (size_t d = 0; d < b.rank; ++d) {
    const dim& x = b.dims[d];
    if (x.stride() == 0 || x.stride() == AUTO || reserved(x) <= 1) continue;
    k.push_back({std::abs(x.stride()), std::abs(x.stride()) * reserved(x)});
  }
  std::sort(k.begin(), k.end());
  index_t inside = (index_t)b.elem_size;
  for (auto& i : k) {
    if (i.first < inside) return false;
    inside = i.second;
  }
  return true;
}

std::vector<index_t> offs;

// Every offset of an element that has its own place.
void each_place(const raw_buffer& b) {
  offs.assign(1, 0);
  for (size_t d = 0; d < b.rank; ++d) {
    const dim& x = b.dims[d];
    if (x.max() < x.min()) {
      offs.clear();
      return;
    }
    if (x.stride() == 0) continue;
    std::vector<index_t> n;
    n.reserve(offs.size() * slots(x));
    index_t lim = x.fold_factor() > 0 ? std::min(x.max(), x.min() + x.fold_factor() - 1) : x.max();
    for (index_t i = x.min(); i <= lim; ++i)
      for (index_t o : offs) n.push_back(o + offset_in_dim(x, i));
    offs.swap(n);
  }
  std::sort(offs.begin(), offs.end());
}

struct shape {
  B b;
};

void check_strides(const B& in, index_t align, bool alloc_too) {
  B r = in;
  std::string key = fmt("init_strides %s alignment %lld", show(in.b).c_str(), (long long)align);
  std::optional<size_t> size = r.b.init_strides(align);
  en::eval();
  if (!size) {
    en::fail(key, key + ": reports that a small layout cannot be represented");
    return;
  }
  int autos = 0;
  for (size_t d = 0; d < in.b.rank; ++d) {
    const dim &x = in.dims[d], &y = r.dims[d];
    if (x.min() != y.min() || x.max() != y.max() || x.fold_factor() != y.fold_factor() || (x.stride() != AUTO && x.stride() != y.stride()))
      en::fail(key, key + ": changed a preset property: " + show(r.b));
    if (x.stride() == AUTO) {
      ++autos;
      if (y.stride() == AUTO) en::fail(key, key + ": left a stride unknown: " + show(r.b));
      if (reserved(x) > 1 && y.stride() != (index_t)in.b.elem_size && y.stride() % align)
        en::fail(key, key + ": a stride is not aligned: " + show(r.b));
    }
  }
  each_place(r.b);
  if (!offs.empty()) {
    index_t es = (index_t)in.b.elem_size;
    for (size_t i = 1; i < offs.size(); ++i)
      if (offs[i] - offs[i - 1] < es) {
        en::fail(key, key + ": elements overlap: " + show(r.b));
        break;
      }
    index_t span = offs.back() - offs.front() + es;
    if ((index_t)*size < span) en::fail(key, key + fmt(": the elements span %lld bytes but the size is %lld: ", (long long)span, (long long)*size) + show(r.b));
    if (*size % align) en::fail(key, key + fmt(": the size %lld is not aligned", (long long)*size));
    size_t sb = r.b.size_bytes();
    if (sb < (size_t)span) en::fail(key, key + fmt(": size_bytes is %zu, elements span %lld: ", sb, (long long)span) + show(r.b));
    if (!validate_buffer(r.b)) en::fail(key, key + ": the layout is not valid: " + show(r.b));
  } else if (r.b.size_bytes() != 0) {
    // Folded dimensions reserve their fold factor even when they are empty.
    bool folded = false;
    for (size_t d = 0; d < in.b.rank; ++d) folded |= in.dims[d].fold_factor() > 0;
    if (!folded) en::fail(key, key + ": size_bytes is not 0 for an empty buffer");
  }
  size_t count = 1;
  for (size_t d = 0; d < in.b.rank; ++d) count *= std::max<index_t>(0, in.dims[d].max() - in.dims[d].min() + 1);
  if (r.b.elem_count() != count) en::fail(key, key + fmt(": elem_count is %zu, not %zu", r.b.elem_count(), count));
  uint64_t h = en::mix(align, in.b.elem_size);
  if (autos && count > 1) {
    for (size_t d = 0; d < in.b.rank; ++d) h = en::mix(h, (in.dims[d].stride() * 131 + in.dims[d].fold_factor()) * 131 + in.dims[d].max() * 17 + in.dims[d].min());
    en::nontrivial(h);
  }
  if (!alloc_too) return;

  // The bytes from the first to the last element must be in one allocation.
  auto inside = [&](const char* what, const raw_buffer& b, void* expect_align_base, index_t base_align) {
    each_place(b);
    std::string k2 = std::string(what) + " " + show(in.b) + fmt(" alignment %lld, %lld", (long long)base_align, (long long)align);
    if (b.base && (uintptr_t)b.base % base_align) en::fail(k2, k2 + ": the base is not aligned");
    if (offs.empty()) return;
    if (!b.base) {
      en::fail(k2, k2 + ": not allocated");
      return;
    }
    void* bad = __asan_region_is_poisoned((char*)b.base + offs.front(), offs.back() - offs.front() + b.elem_size);
    if (bad) en::fail(k2, k2 + fmt(": the byte at base%+lld is not in the allocation: ", (long long)((char*)bad - (char*)b.base)) + show(b));
  };
  for (index_t ba : {1, 16, 64}) {
    B a = in;
    void* m = a.b.allocate(ba, align);
    if (!m) en::fail(key, key + ": allocate failed");
    inside("allocate", a.b, m, ba);
    for (size_t d = 0; d < in.b.rank; ++d)
      if (!(a.dims[d] == r.dims[d])) en::fail(key, key + ": allocate lays out differently: " + show(a.b));
    free(m);
    // Buffers with the storage in the same block.
    raw_buffer_ptr p = raw_buffer::make(in.b.rank, in.b.elem_size, r.b.dims, ba);
    if (p->rank != in.b.rank || p->elem_size != in.b.elem_size) en::fail(key, key + ": make changes the shape");
    for (size_t d = 0; d < in.b.rank; ++d)
      if (!(p->dims[d] == r.dims[d])) en::fail(key, key + ": make changes the shape: " + show(*p));
    if (!offs.empty()) inside("make", *p, nullptr, ba);
    if (ba == 16) {
      // The owning buffer type: moves hand over the memory, and it is freed once.
      buffer<void, 5> x(in.b), y;
      x.allocate(ba);
      inside("buffer allocate", x, nullptr, ba);
      void* base = x.raw_buffer::base;
      buffer<void, 5> z(std::move(x));
      y = std::move(z);
      buffer<void, 5> shallow(y), again;
      again = y;
      y = std::move(y);
      if (y.raw_buffer::base != base || shallow.raw_buffer::base != base || again.raw_buffer::base != base) en::fail(key, key + ": a copy or move of a buffer has another base");
      inside("moved buffer", y, nullptr, ba);
      again = std::move(y);
      inside("moved buffer", again, nullptr, ba);
      again.free();
      again.free();
      if (base && !offs.empty() && !__asan_region_is_poisoned((char*)base + offs.front(), 1)) en::fail(key, key + ": free does not release the memory");
    }
  }
}

struct opt {
  index_t extent, min;
  int stride;  // index into the list of strides
  index_t fold;
};

// The strides offered, in elements.
index_t stride_of(int k, index_t es, index_t align) {
  switch (k) {
  case 0: return AUTO;
  case 1: return es;
  case 2: return 2 * es;
  case 3: return 6 * es;
  case 4: return 0;
  case 5: return -es;
  case 6: return -6 * es;
  case 7: return 24 * es;
  case 8: return 5 * es;
  case 9: return 30 * es;
  case 10: return -24 * es;
  case 11: return 3 * es;
  default: return 64;
  }
}

en::family small(int rank, std::vector<opt> opts, std::vector<index_t> ess, std::vector<index_t> aligns, bool alloc_too) {
  counter c;
  for (int d = 0; d < rank; ++d) c.radix.push_back(opts.size());
  const uint64_t n = c.total(), per = std::max<uint64_t>(1, n / 2000);
  return {fmt("rank %d%s, %zu dimensions", rank, alloc_too ? " with allocation" : "", opts.size()), (n + per - 1) / per,
      [=](uint64_t u) {
        for (uint64_t x = u * per; x < std::min(n, (u + 1) * per); ++x) {
          std::vector<int> g = c.digits(x);
          for (index_t es : ess)
            for (index_t al : aligns) {
              B b;
              b.b.rank = rank;
              b.b.elem_size = es;
              for (int d = 0; d < rank; ++d) {
                const opt& o = opts[g[d]];
                b.dims[d] = dim(o.min, o.min + o.extent - 1, stride_of(o.stride, es, al), o.fold);
              }
              if (!nested(b.b)) continue;
              en::tag(fmt("%s alignment %d", show(b.b).c_str(), (int)al).c_str());
              check_strides(b, al, alloc_too);
              if (en::want_sample()) {
                B r = b;
                r.b.init_strides(al);
                en::sample(show(b.b) + fmt(" alignment %d is laid out as ", (int)al) + show(r.b));
              }
            }
        }
      },
      nullptr};
}

std::vector<opt> grid(std::vector<index_t> extents, std::vector<int> strides, std::vector<index_t> folds, std::vector<index_t> mins) {
  std::vector<opt> r;
  for (index_t e : extents)
    for (int s : strides)
      for (index_t f : folds)
        for (index_t m : mins) r.push_back({e, m, s, f});
  return r;
}

// Sizes that do not fit: the exact size is computed with wide integers.
en::family huge(int rank) {
  static const index_t I = std::numeric_limits<index_t>::max();
  static const std::vector<index_t> ext = {0, 1, 2, 3, index_t(1) << 31, (index_t(1) << 32) + 1, index_t(1) << 61, I / 3, I - 1, I, -1};
  static const std::vector<index_t> str_ = {AUTO, 0, 1, 8, index_t(1) << 32, index_t(1) << 62, I - 1, -8, -(index_t(1) << 62), std::numeric_limits<index_t>::min()};
  counter c;
  for (int d = 0; d < rank; ++d) c.radix.push_back(ext.size()), c.radix.push_back(str_.size());
  const uint64_t n = c.total(), per = std::max<uint64_t>(1, n / 500);
  return {fmt("large sizes, rank %d", rank), (n + per - 1) / per,
      [=](uint64_t u) {
        for (uint64_t x = u * per; x < std::min(n, (u + 1) * per); ++x) {
          std::vector<int> g = c.digits(x);
          for (index_t es : {index_t(1), index_t(4), index_t(1) << 62, I, index_t(-1)})
            for (index_t al : {1, 64}) {
              B b;
              b.b.rank = rank;
              b.b.elem_size = (size_t)es;
              bool empty = false, fixed_ok = true;
              for (int d = 0; d < rank; ++d) {
                index_t e = ext[g[2 * d]];
                // More elements than an index can count.
                if (e < 0) b.dims[d] = dim(-(I / 4 * 3), I / 4 * 3, str_[g[2 * d + 1]]);
                else b.dims[d] = dim(0, e - 1, str_[g[2 * d + 1]]);
                empty |= e == 0;
              }
              B r = b;
              std::string key = fmt("init_strides %s alignment %d", show(b.b).c_str(), (int)al);
              en::tag(key.c_str());
              std::optional<size_t> size = r.b.init_strides(al);
              en::eval();
              en::nontrivial(en::mix(en::mix(x, rank), en::mix(es, al)));
              // The least any layout needs.
              auto span = [&](const raw_buffer& q, bool& overflow) {
                wide lo = 0, hi = (size_t)es;
                overflow = false;
                for (int d = 0; d < rank; ++d) {
                  if (q.dims[d].stride() == AUTO) {
                    if (slots(q.dims[d]) > 1) overflow = true;
                    continue;
                  }
                  wide m = clamp(wide(q.dims[d].stride()) * (slots(q.dims[d]) - 1));
                  (m < 0 ? lo : hi) += m;
                }
                return hi - lo;
              };
              // Nothing of that size fits, but a broadcast of it may be accepted.
              bool uncountable = false;
              for (int d = 0; d < rank; ++d)
                if (slots(b.dims[d]) > I) {
                  uncountable = true;
                  if (b.dims[d].stride() != 0 && !empty) {
                    if (size) en::fail(key, key + ": accepts more elements than an index can count");
                    r.b.base = (void*)64;
                    if (validate_buffer(b.b)) en::fail("validate " + key, "validate_buffer accepts more elements than an index can count " + show(r.b));
                  }
                }
              if (uncountable) continue;
              if (empty) {
                if (r.b.size_bytes() != 0) en::fail(key, key + ": size_bytes is not 0 for an empty buffer");
                continue;
              }
              bool unknown;
              if (size) {
                wide w = span(r.b, unknown);
                if (unknown) en::fail(key, key + ": left a stride unknown");
                else if (w > wide(*size)) en::fail(key, key + fmt(": size %lld is less than the elements need: ", (long long)*size) + show(r.b));
                wide real = w;
                size_t sb = r.b.size_bytes();
                if (sb != 0 && wide(sb) < real) en::fail(key, key + fmt(": size_bytes %zu is less than the elements need: ", sb) + show(r.b));
                if (w <= wide(1) << 62 && wide(sb) != real && sb == 0) en::fail(key, key + ": size_bytes is 0: " + show(r.b));
              } else {
                // Upper bound for a packed layout.
                wide w = (size_t)es;
                wide biggest = 0;
                for (int d = 0; d < rank; ++d) {
                  if (slots(b.dims[d]) <= 1 || b.dims[d].stride() == 0) continue;
                  if (b.dims[d].stride() != AUTO) {
                    wide s = b.dims[d].stride() < 0 ? -wide(b.dims[d].stride()) : wide(b.dims[d].stride());
                    biggest += clamp(s * slots(b.dims[d]));
                  }
                }
                w = std::max(w, biggest) + al;
                for (int d = 0; d < rank; ++d)
                  if (b.dims[d].stride() == AUTO && w < (wide(1) << 62)) w = w * std::max<wide>(1, slots(b.dims[d])) + al;
                if (w < wide(1) << 61) en::fail(key, key + ": reports that a layout that fits cannot be represented");
              }
              // Validation must not accept what cannot be addressed.
              for (uintptr_t base : {uintptr_t(64), uintptr_t(1) << 40, uintptr_t(0) - 4096}) {
                r.b.base = (void*)base;
                bool u2;
                wide lo = 0, hi = (size_t)es;
                bool has_auto = false, neg = false;
                for (int d = 0; d < rank; ++d) {
                  if (slots(r.dims[d]) > 1 && r.dims[d].stride() == AUTO) has_auto = true;
                  wide m = clamp(wide(r.dims[d].stride()) * (slots(r.dims[d]) - 1));
                  if (slots(r.dims[d]) <= 1) m = 0;
                  (m < 0 ? lo : hi) += m;
                }
                (void)u2, (void)neg;
                wide first = wide(base) + lo, last = wide(base) + hi;
                bool fits = !has_auto && first >= 0 && last <= (wide(1) << 64) - 1;
                bool ok = validate_buffer(r.b);
                en::eval();
                if (ok && !fits) en::fail("validate " + key, fmt("validate_buffer accepts base %zx, ", (size_t)base) + show(r.b));
                if (!ok && fits && hi - lo < wide(1) << 61) en::fail("validate " + key, fmt("validate_buffer rejects base %zx, ", (size_t)base) + show(r.b));
              }
            }
        }
      },
      nullptr};
}

std::vector<en::family> make() {
  const bool t = en::thorough();
  std::vector<en::family> f;
  f.push_back(small(0, {}, {1, 3, 4, 16, 100}, {1, 8, 64}, true));
  std::vector<index_t> folds = {-1, 1, 2, 4};
  f.push_back(small(1, grid({0, 1, 2, 3, 5}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, folds, {0, -2, 3}), {1, 3, 4, 8}, {1, 4, 16, 64}, true));
  f.push_back(small(2, grid({0, 1, 2, 3, 5}, {0, 1, 2, 3, 4, 5, 6, 7, 8}, folds, {0, -2}), {1, 4, 3}, {1, 4, 16}, true));
  std::vector<opt> o3 = t ? grid({0, 1, 2, 3, 5}, {0, 1, 2, 3, 4, 5, 6, 7, 8}, {-1, 2, 4}, {0}) : grid({0, 1, 2, 3}, {0, 1, 3, 4, 6, 7}, {-1, 2}, {-1});
  f.push_back(small(3, o3, t ? std::vector<index_t>{1, 4, 3} : std::vector<index_t>{4, 1}, t ? std::vector<index_t>{1, 4, 16} : std::vector<index_t>{1, 16}, false));
  std::vector<opt> o3a = t ? grid({0, 1, 2, 3}, {0, 1, 3, 4, 6, 7}, {-1, 2}, {-1}) : grid({0, 2, 3}, {0, 1, 4, 6, 7}, {-1, 2}, {1});
  f.push_back(small(3, o3a, {4}, {1, 16}, true));
  f.push_back(small(4, t ? grid({1, 2, 3}, {0, 1, 3, 7}, {-1, 2}, {0}) : grid({2, 3}, {0, 1, 3, 7}, {-1}, {0}), {1, 4}, {1, 4, 16}, false));
  if (t) f.push_back(small(5, grid({2, 3}, {0, 1, 3, 9}, {-1}, {0}), {1, 4}, {1, 16}, false));
  f.push_back(huge(1));
  f.push_back(huge(2));
  if (t) f.push_back(huge(3));
  return f;
}

}  // namespace

int main(int argc, char** argv) {
  return en::main_driver(argc, argv, en::families("C14", "the buffer has more than one element and some stride is unknown, or the sizes are large", make));
}
