// C15: views of buffers, against a map from the indices of the view to the indices of the original.
#include "buf.h"

using namespace bf;
using namespace slinky;
using en::fmt;

namespace {

char* const base_addr[] = {(char*)0x100000000, (char*)0x200000000, (char*)0x300000000, (char*)0x400000000};

const std::vector<D> dims1 = {{0, 2, C, -1}, {1, 3, C, -1}, {-2, 1, C, -1}, {0, 0, Z, 0}, {0, 2, Z, -1}, {1, 4, C, 2}, {0, 2, N, -1}, {1, 1, C, -1}, {2, 4, C, 3},
    {0, -1, C, -1}, {0, 0, C, -1}, {0, 1, P, -1}, {1, 2, C, 2}, {0, 3, F, -1}};

// What a sequence of single-buffer operations means: each remaining dimension of the view selects one of the original with an
// offset; the others are fixed.
struct ref {
  const B* orig;
  bool null;
  bool emptied;            // a crop left nothing, so the view may be null
  index_t at[MAXR];        // index in the original for removed dimensions
  int src[MAXR];           // original dimension of each view dimension, -1 for a broadcast added by the operation
  index_t off[MAXR];       // original index = view index + off
  index_t lo[MAXR], hi[MAXR];
  size_t rank;
};

ref start(const B& b) {
  ref r{};
  r.orig = &b;
  r.null = !b.b.base;
  r.rank = b.b.rank;
  for (size_t d = 0; d < r.rank; ++d) r.src[d] = (int)d, r.off[d] = 0, r.lo[d] = b.dims[d].min(), r.hi[d] = b.dims[d].max();
  return r;
}

void remove(ref& r, size_t d) {
  for (size_t i = d; i + 1 < r.rank; ++i) r.src[i] = r.src[i + 1], r.off[i] = r.off[i + 1], r.lo[i] = r.lo[i + 1], r.hi[i] = r.hi[i + 1];
  --r.rank;
}

// Compares a view with the reference.
void compare(const std::string& key, const ref& r, const raw_buffer& v) {
  en::eval();
  if (v.rank != r.rank) {
    en::fail(key, key + fmt(": the rank is %zu, not %zu", v.rank, r.rank));
    return;
  }
  bool empty = false;
  for (size_t d = 0; d < r.rank; ++d) {
    if (v.dims[d].min() != r.lo[d] || v.dims[d].max() != r.hi[d]) {
      en::fail(key, key + fmt(": dimension %zu is [%lld,%lld], not [%lld,%lld]", d, (long long)v.dims[d].min(), (long long)v.dims[d].max(), (long long)r.lo[d], (long long)r.hi[d]));
      return;
    }
    empty |= r.hi[d] < r.lo[d];
  }
  if (v.elem_size != r.orig->b.elem_size) en::fail(key, key + ": the element size changed");
  if (r.null || empty) {
    if (v.base && r.null) en::fail(key, key + ": the view is not null");
    return;
  }
  if (!v.base) {
    if (!r.emptied) en::fail(key, key + ": the view is null");
    return;
  }
  uint64_t n = 0;
  bool bad = false;
  each_index(v, v.rank, [&](const index_t* i) {
    index_t o[MAXR];
    memcpy(o, r.at, sizeof(o));
    for (size_t d = 0; d < r.rank; ++d)
      if (r.src[d] >= 0) o[r.src[d]] = i[d] + r.off[d];
    char* want = address(r.orig->b, o, r.orig->b.rank);
    char* got = address(v, i, v.rank);
    char* api = (char*)v.address_at(span<const index_t>(i, v.rank));
    if ((got != want || api != want) && !bad) {
      bad = true;
      en::fail(key, key + fmt(": %s is at %lld, not %lld: ", str(i, v.rank).c_str(), (long long)(got - (char*)r.orig->b.base), (long long)(want - (char*)r.orig->b.base)) + str(v));
    }
    if (!v.contains(span<const index_t>(i, v.rank)) && !bad) {
      bad = true;
      en::fail(key, key + ": contains() is false for " + str(i, v.rank));
    }
    ++n;
  });
  (void)n;
}

// The variadic accessors agree with the definition, in and out of bounds.
void accessors(const B& b) {
  const raw_buffer& v = b.b;
  std::string key = "access " + str(v);
  index_t i[MAXR];
  for (i[0] = -3; i[0] <= 5; ++i[0])
    for (i[1] = -3; i[1] <= 5; ++i[1])
      for (i[2] = (v.rank > 2 ? -3 : 0); i[2] <= (v.rank > 2 ? 5 : 0); ++i[2]) {
        if (v.rank < 2 && i[1] > -2) continue;
        bool in = contains(v, i, 3);
        en::eval();
        bool c3 = v.contains(i[0], i[1], i[2]);
        if (in != c3 || in != v.contains(span<const index_t>(i, 3))) en::fail(key, key + ": contains " + str(i, 3));
        if (contains(v, i, 1) != v.contains(i[0]) || contains(v, i, 2) != v.contains(i[0], i[1])) en::fail(key, key + ": contains with fewer indices " + str(i, 2));
        if (v.rank > 0 && in_dim(v.dims[0], i[0])) {
          if (v.base && (char*)v.address_at(i[0], slinky::slice) - (char*)v.base != offset_in_dim(v.dims[0], i[0])) en::fail(key, key + ": address_at slice");
        }
        if (v.rank > 1 && in_dim(v.dims[1], i[1])) {
          if (v.base && (char*)v.address_at(slinky::slice, i[1]) - (char*)v.base != offset_in_dim(v.dims[1], i[1])) en::fail(key, key + ": address_at slice");
        }
        if (in && v.base) {
          char* w = address(v, i, 3);
          if (v.address_at(i[0], i[1], i[2]) != w || (char*)v.address_at(span<const index_t>(i, 3)) != w || v.flat_offset_bytes(i[0], i[1], i[2]) != w - (char*)v.base)
            en::fail(key, key + ": address_at " + str(i, 3));
        }
      }
}

const index_t points[] = {-3, -1, 0, 1, 2, 3, 6};

// One operation on a view and its reference. Returns false if it does not apply.
int num_ops(size_t) { return 4 * 17 + 4 * 7 + 4 + 4 * 7 + 16 + 9 + 4; }

bool apply(int k, B& v, ref& r, std::string& name) {
  const index_t lo[] = {-5, -1, 0, 1, 2, 3}, hi[] = {5, 0, 1, 2, 3};
  if (k < 4 * 17) {
    // crop, including a dimension that does not exist
    size_t d = k / 17;
    k %= 17;
    index_t a, b;
    if (k < 15) a = lo[k % 5], b = hi[(k / 5) * 2 % 5];
    else a = k == 15 ? 3 : std::numeric_limits<index_t>::min(), b = k == 15 ? 2 : std::numeric_limits<index_t>::max();
    if (d > v.b.rank) return false;
    name = fmt("crop(%zu,%lld,%lld)", d, (long long)a, (long long)b);
    v.b.crop(d, a, b);
    if (d < r.rank) {
      r.lo[d] = std::max(r.lo[d], a);
      r.hi[d] = std::min(r.hi[d], b);
      if (r.hi[d] < r.lo[d]) r.emptied = true;
    }
    return true;
  }
  k -= 4 * 17;
  if (k < 4 * 7) {
    size_t d = k / 7;
    index_t at = points[k % 7];
    if (d > v.b.rank) return false;
    name = fmt("slice(%zu,%lld)", d, (long long)at);
    bool in = d >= r.rank || v.dims[0].stride() == v.dims[0].stride();
    if (d < r.rank) {
      in = v.b.dims[d].stride() == 0 || (r.lo[d] <= at && at <= r.hi[d]);
      if (r.src[d] >= 0) r.at[r.src[d]] = at + r.off[d];
    }
    v.b.slice(d, at);
    if (d < r.rank) {
      if (!in) r.null = true;
      remove(r, d);
    }
    return true;
  }
  k -= 4 * 7;
  if (k < 4) {
    size_t d = k;
    if (d > v.b.rank) return false;
    if (d < r.rank) {
      // At the min. A folded dimension that does not start on a fold does not begin at its base.
      const dim& x = v.b.dims[d];
      if (x.max() < x.min()) return false;
      if (x.stride() != 0 && x.fold_factor() > 0 && (r.lo[d] % x.fold_factor() + x.fold_factor()) % x.fold_factor() != 0) return false;
      if (r.src[d] >= 0) r.at[r.src[d]] = r.lo[d] + r.off[d];
    }
    name = fmt("slice(%zu)", d);
    v.b.slice(d);
    if (d < r.rank) remove(r, d);
    return true;
  }
  k -= 4;
  if (k < 4 * 7) {
    size_t d = k / 7;
    index_t at = points[k % 7];
    if (d >= v.b.rank || !v.b.base || r.null) return false;
    if (!(v.b.dims[d].stride() == 0 || (r.lo[d] <= at && at <= r.hi[d]))) return false;
    name = fmt("slice(%zu,in_bounds %lld)", d, (long long)at);
    if (r.src[d] >= 0) r.at[r.src[d]] = at + r.off[d];
    v.b.slice(d, in_bounds{at});
    remove(r, d);
    return true;
  }
  k -= 4 * 7;
  if (k < 16) {
    // slice a list of dimensions (in ascending order)
    std::vector<size_t> ds;
    for (size_t d = 0; d < 4; ++d) {
      if (!((k >> d) & 1)) continue;
      if (d > v.b.rank) return false;
      if (d < v.b.rank) {
        const dim& x = v.b.dims[d];
        if (x.max() < x.min()) return false;
        if (x.stride() != 0 && x.fold_factor() > 0 && (r.lo[d] % x.fold_factor() + x.fold_factor()) % x.fold_factor() != 0) return false;
      }
      ds.push_back(d);
    }
    // The last one may be a dimension that does not exist, as long as there is one before it.
    if (ds.empty() || ds.back() > v.b.rank || (ds.back() == v.b.rank && ds.size() > 1)) return false;
    name = "slice({";
    for (size_t d : ds) name += fmt("%zu,", d);
    name += "})";
    v.b.slice(span<const size_t>(ds.data(), ds.size()));
    for (size_t j = ds.size(); j-- > 0;)
      if (ds[j] < r.rank) {
        if (r.src[ds[j]] >= 0) r.at[r.src[ds[j]]] = r.lo[ds[j]] + r.off[ds[j]];
        remove(r, ds[j]);
      }
    return true;
  }
  k -= 16;
  if (k < 9) {
    // translate; the indices of folded dimensions cannot move.
    if (v.b.rank == 0) return false;
    index_t t[3] = {k % 3 == 0 ? 2 : (k % 3 == 1 ? -3 : 0), k / 3 == 0 ? 1 : (k / 3 == 1 ? -4 : 0), 5};
    size_t n = std::min<size_t>(3, v.b.rank);
    if (n == 1 && k / 3) return false;
    if (k % 2 && n > 1) --n;
    for (size_t d = 0; d < n; ++d)
      if (t[d] && v.b.dims[d].fold_factor() > 0 && v.b.dims[d].stride() != 0) return false;
    name = fmt("translate(%zu: %lld,%lld,%lld)", n, (long long)t[0], (long long)t[1], (long long)t[2]);
    if (k & 1) v.b.translate(span<const index_t>(t, n));
    else if (n == 1) v.b.translate(t[0]);
    else if (n == 2) v.b.translate(t[0], t[1]);
    else v.b.translate(t[0], t[1], t[2]);
    for (size_t d = 0; d < n; ++d) r.off[d] -= t[d], r.lo[d] += t[d], r.hi[d] += t[d];
    return true;
  }
  return false;
}

en::family sequences(int rank, int depth, int nd) {
  counter c;
  for (int d = 0; d < rank; ++d) c.radix.push_back(nd);
  const uint64_t shapes = c.total();
  const int ops = num_ops(rank);
  return {fmt("sequences of %d operations on rank %d", depth, rank), shapes * ops,
      [=](uint64_t u) {
        std::vector<int> g = c.digits(u % shapes);
        D ds[MAXR];
        for (int d = 0; d < rank; ++d) ds[d] = dims1[g[d]];
        B orig;
        layout(orig, ds, rank, 4, base_addr[0]);
        if (u / shapes == 0) accessors(orig);
        const std::string first = str(orig.b);
        uint64_t bufs = 0;
        std::function<void(const B&, const ref&, const std::string&, int, uint64_t)> go = [&](const B& v, const ref& r, const std::string& path, int left, uint64_t h) {
          for (int k = left == depth ? (int)(u / shapes) : 0; k < (left == depth ? (int)(u / shapes) + 1 : ops); ++k) {
            B v2 = v;
            ref r2 = r;
            std::string name;
            if (!apply(k, v2, r2, name)) continue;
            std::string key = path + "." + name;
            uint64_t h2 = en::mix(h, k);
            en::tag(key.c_str());
            compare(key, r2, v2.b);
            if (!r2.null) en::nontrivial(h2);
            ++bufs;
            if (en::failed()) return;
            if (left > 1) go(v2, r2, key, left - 1, h2);
          }
        };
        go(orig, start(orig), first, depth, en::mix(u % shapes, rank));
        if (u % shapes == 5 && en::want_sample()) en::sample(first + fmt(": all sequences of %d operations beginning with operation %d, %llu views", depth, (int)(u / shapes), (unsigned long long)bufs));
      },
      nullptr};
}

// Slicing a dimension and putting it back, with the buffer type that owns its dimensions.
en::family unslices() {
  counter c;
  for (int d = 0; d < 3; ++d) c.radix.push_back(dims1.size());
  return {"slice and unslice", c.total(),
      [=](uint64_t u) {
        std::vector<int> g = c.digits(u);
        for (int rank = 1; rank <= 3; ++rank) {
          if (rank < 3 && g[2]) continue;
          if (rank < 2 && g[1]) continue;
          D ds[MAXR];
          for (int d = 0; d < rank; ++d) ds[d] = dims1[g[d]];
          B o;
          layout(o, ds, rank, 4, base_addr[0]);
          for (int d = 0; d < rank; ++d)
            for (int e = 0; e < rank; ++e) {
              buffer<void, 4> b(o.b);
              slinky::dim dd = b.dim(d);
              b.slice(d);
              std::string key = fmt("slice(%d) and unslice of ", d) + str(o.b);
              if (e != d) {
                // Slice another one and put it back first.
                if (e >= rank - 1) continue;
                slinky::dim de = b.dim(e);
                b.slice(e);
                b.unslice(e, de);
                key = fmt("slice(%d).slice(%d) and unslices of ", d, e) + str(o.b);
              }
              b.unslice(d, dd);
              en::eval();
              en::nontrivial(en::mix(u, d * 8 + e));
              bool same = b.rank == (size_t)rank && b.raw_buffer::base == o.b.base;
              for (int x = 0; same && x < rank; ++x) same = b.dim(x) == o.dims[x];
              if (!same) en::fail(key, key + " gives " + str(b));
            }
        }
      },
      nullptr};
}

// --- several buffers ---
const std::vector<D> main_dims = {
    {0, 2, C, -1}, {1, 3, C, -1}, {0, 0, Z, 0}, {0, 2, Z, -1}, {1, 4, C, 2}, {1, 1, C, -1}, {0, -1, C, -1}, {1, 2, C, 2}, {0, 2, N, -1}, {0, 0, C, -1}, {0, 1, P, -1},
    {0, 2, F, -1}, {2, 2, C, 3}, {2, 3, P, 3}, {1, 2, C, -1}};
const std::vector<D> other_dims = {
    {0, 2, C, -1}, {1, 2, C, -1}, {0, 0, Z, 0}, {0, 2, Z, -1}, {1, 4, C, 2}, {1, 1, C, -1}, {-2, 5, C, -1}, {0, 0, C, -1}, {0, -1, C, -1}, {0, 2, N, -1}, {0, 2, P, -1},
    {0, 2, F, -1}, {1, 1, Z, -1}, {2, 2, C, 3}, {1, 3, C, -1}, {0, 4, C, 3}};

typedef std::array<char*, 3> tup;

bool has_zero(const raw_buffer& b) {
  for (size_t d = 0; d < b.rank; ++d)
    if (b.dims[d].stride() == 0) return true;
  return false;
}

// Like lookup, but a dimension of stride 0 other than a broadcast has bounds: fusing it with another one keeps the bounds.
char* bounded_lookup(const raw_buffer& b, const index_t* i, size_t n) {
  for (size_t d = 0; d < b.rank && d < n; ++d) {
    const dim& x = b.dims[d];
    if (!x.is_broadcast() && (i[d] < x.min() || i[d] > x.max())) return nullptr;
  }
  return b.base ? address(b, i, n) : nullptr;
}

// The addresses in all buffers of every index of the first one.
std::vector<tup> addresses(const std::vector<const raw_buffer*>& bufs, bool once) {
  size_t rank = 0;
  for (auto b : bufs) rank = std::max(rank, b->rank);
  std::vector<tup> r;
  each_index(*bufs[0], rank, [&](const index_t* i) {
    tup t{};
    for (size_t n = 0; n < bufs.size(); ++n) t[n] = bounded_lookup(*bufs[n], i, rank);
    r.push_back(t);
  });
  std::sort(r.begin(), r.end());
  if (once) r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}

enum joint_op { SORT, FUSE, OPT, SORT_SETS, FUSE_SETS, OPT_SETS, NUM_JOINT };
const char* joint_name[] = {"sort_dims", "fuse_contiguous_dims", "optimize_dims", "sort_dims", "fuse_contiguous_dims", "optimize_dims"};
const int set_choices[][3] = {{0, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0, 1, 1}, {0, 1, 2}, {1, 0, 1}};

template <typename... Bufs>
void joint(int op, int sets, raw_buffer& a, Bufs&... bs) {
  span<const int> s(set_choices[sets], std::max({a.rank, bs.rank...}) > 3 ? 3 : std::max({a.rank, bs.rank...}));
  switch (op) {
  case SORT: sort_dims(a, bs...); break;
  case FUSE: fuse_contiguous_dims(a, bs...); break;
  case OPT: optimize_dims(a, bs...); break;
  case SORT_SETS: sort_dims(s, a, bs...); break;
  case FUSE_SETS: fuse_contiguous_dims(s, a, bs...); break;
  case OPT_SETS: optimize_dims(s, a, bs...); break;
  }
}

void check_joint(std::vector<const B*> in) {
  // The first of several buffers does not repeat elements: fusing a repeated element with a broadcast gives a broadcast.
  if (in.size() > 1)
    for (size_t d = 0; d < in[0]->b.rank; ++d)
      if (in[0]->dims[d].stride() == 0 && in[0]->dims[d].min() != in[0]->dims[d].max()) return;
  std::vector<const raw_buffer*> before;
  bool zeros = false;
  size_t max_rank = 0;
  for (const B* b : in) before.push_back(&b->b), zeros |= has_zero(b->b), max_rank = std::max(max_rank, b->b.rank);
  // An index of a buffer of lower rank is an index of a buffer with broadcasts, so count each tuple once then.
  std::vector<tup> want = addresses(before, zeros);
  for (int op = 0; op < NUM_JOINT; ++op)
    for (int sets = 0; sets < (op >= SORT_SETS ? 6 : 1); ++sets) {
      if (op >= SORT_SETS && max_rank < 2) continue;
      if (op >= SORT_SETS && max_rank == 2 && sets > 1) continue;
      B v[3];
      std::vector<const raw_buffer*> after;
      std::string key = joint_name[op];
      if (op >= SORT_SETS) key += fmt("{%d,%d,%d}", set_choices[sets][0], set_choices[sets][1], set_choices[sets][2]);
      for (size_t n = 0; n < in.size(); ++n) {
        v[n] = *in[n];
        key += " " + str(in[n]->b);
        after.push_back(&v[n].b);
      }
      en::tag(key.c_str());
      if (in.size() == 1) joint(op, sets, v[0].b);
      else if (in.size() == 2) joint(op, sets, v[0].b, v[1].b);
      else joint(op, sets, v[0].b, v[1].b, v[2].b);
      en::eval();
      bool changed = false;
      for (size_t n = 0; n < in.size(); ++n) {
        changed |= v[n].b.rank != in[n]->b.rank || memcmp((void*)v[n].b.dims, (void*)in[n]->b.dims, sizeof(dim) * v[n].b.rank);
        if (v[n].b.elem_size != in[n]->b.elem_size) en::fail(key, key + ": the element size changed");
      }
      if (changed) {
        uint64_t h = op * 8 + sets;
        for (char c : key) h = h * 1099511628211ull + c;
        en::nontrivial(h);
      }
      std::vector<tup> got = addresses(after, zeros);
      if (got != want) {
        std::string d = key + fmt(": %zu elements instead of %zu:", got.size(), want.size());
        for (auto b : after) d += " " + str(*b);
        en::fail(key, d);
      }
      if ((op == SORT) && v[0].b.rank) {
        size_t r = v[0].b.rank;
        for (auto b : after) r = std::min(r, b->rank);
        for (size_t x = 0; x + 1 < r; ++x)
          if (v[0].b.dims[x].stride() > v[0].b.dims[x + 1].stride()) en::fail(key, key + ": the strides are not sorted: " + str(v[0].b));
      }
      if (op == SORT_SETS || op == SORT) {
        // Sorting moves whole dimensions.
        for (size_t n = 0; n < in.size(); ++n) {
          std::multiset<std::string> a, b;
          for (size_t x = 0; x < in[n]->b.rank; ++x) {
            const dim &p = in[n]->b.dims[x], &q = v[n].b.dims[x];
            a.insert(fmt("%lld,%lld,%lld,%lld", (long long)p.min(), (long long)p.max(), (long long)p.stride(), (long long)p.fold_factor()));
            b.insert(fmt("%lld,%lld,%lld,%lld", (long long)q.min(), (long long)q.max(), (long long)q.stride(), (long long)q.fold_factor()));
          }
          if (a != b || v[n].b.rank != in[n]->b.rank) en::fail(key, key + ": a dimension changed " + str(v[n].b));
        }
      }
    }
}

en::family joint_one(int rank) {
  counter c;
  for (int d = 0; d < rank; ++d) c.radix.push_back(main_dims.size());
  return {fmt("sort, fuse and optimise, rank %d", rank), c.total(),
      [=](uint64_t u) {
        std::vector<int> g = c.digits(u);
        D ds[MAXR];
        for (int rot = 0; rot < rank; ++rot) {
          for (int d = 0; d < rank; ++d) ds[d] = main_dims[g[d]];
          B b;
          layout(b, ds, rank, 4, base_addr[0]);
          std::rotate(b.dims, b.dims + rot, b.dims + rank);
          check_joint({&b});
        }
      },
      nullptr};
}

en::family joint_two(int r1, int r2, std::vector<int> n1, std::vector<int> n2) {
  counter c, o;
  for (int d = 0; d < r1; ++d) c.radix.push_back(n1[d]);
  for (int d = 0; d < r2; ++d) o.radix.push_back(n2[d]);
  return {fmt("sort, fuse and optimise, rank %d with %d", r1, r2), c.total(),
      [=](uint64_t u) {
        std::vector<int> g = c.digits(u);
        D ds[MAXR];
        B a, b;
        for (int d = 0; d < r1; ++d) ds[d] = main_dims[g[d]];
        layout(a, ds, r1, 4, base_addr[0]);
        if (u % 3 == 1) std::reverse(a.dims, a.dims + r1);
        for (uint64_t x = 0; x < o.total(); ++x) {
          std::vector<int> h = o.digits(x);
          for (int d = 0; d < r2; ++d) ds[d] = other_dims[h[d]];
          layout(b, ds, r2, 2, base_addr[1]);
          if (u % 3 == 1) std::reverse(b.dims, b.dims + r2);
          check_joint({&a, &b});
          if (en::want_sample()) en::sample("sort_dims, fuse_contiguous_dims and optimize_dims of " + str(a.b) + " with " + str(b.b) + fmt(" and %d others", (int)o.total() - 1));
        }
      },
      nullptr};
}

en::family joint_three(int r, int n1, int n2) {
  counter c, o;
  for (int d = 0; d < r; ++d) c.radix.push_back(n1);
  for (int d = 0; d < 2 * r; ++d) o.radix.push_back(n2);
  return {fmt("sort, fuse and optimise three, rank %d", r), c.total(),
      [=](uint64_t u) {
        std::vector<int> g = c.digits(u);
        D ds[MAXR];
        B a, b, e;
        for (uint64_t x = 0; x < o.total(); ++x) {
          std::vector<int> h = o.digits(x);
          // Either all ranks are the same, or one of the buffers is of lower rank: less 1 of any of them, or less 2 of the second or third.
          for (int low = -1; low < 5; ++low) {
            const int which = low % 3 + (low > 2), less = 1 + (low > 2);
            if (which == 1 && (h[r - 1] || (less > 1 && h[r - 2]))) continue;
            if (which == 2 && (h[2 * r - 1] || (less > 1 && h[2 * r - 2]))) continue;
            if (low == 0 && x % 5) continue;
            for (int d = 0; d < r; ++d) ds[d] = main_dims[g[d]];
            layout(a, ds, r - less * (which == 0), 4, base_addr[0]);
            for (int d = 0; d < r; ++d) ds[d] = other_dims[h[d]];
            layout(b, ds, r - less * (which == 1), 4, base_addr[1]);
            for (int d = 0; d < r; ++d) ds[d] = other_dims[h[r + d]];
            layout(e, ds, r - less * (which == 2), 8, base_addr[2]);
            check_joint({&a, &b, &e});
          }
        }
      },
      nullptr};
}

// Fusing two given dimensions.
en::family fuse_pairs(int rank) {
  counter c;
  for (int d = 0; d < rank; ++d) c.radix.push_back(main_dims.size());
  return {fmt("fuse, rank %d", rank), c.total(),
      [=](uint64_t u) {
        std::vector<int> g = c.digits(u);
        D ds[MAXR];
        for (int d = 0; d < rank; ++d) ds[d] = main_dims[g[d]];
        B b;
        layout(b, ds, rank, 4, base_addr[0]);
        for (int in = 0; in < rank; ++in)
          for (int out = 0; out < rank; ++out) {
            if (in == out || !can_fuse(b.b.dim(in), b.b.dim(out))) continue;
            for (int type = 0; type < 3; ++type) {
              B v = b;
              std::string key = fmt("fuse<%s>(%d,%d) ", type == 0 ? "keep" : (type == 1 ? "remove" : "undef"), in, out) + str(b.b);
              en::tag(key.c_str());
              if (type == 0) fuse<fuse_type::keep>(in, out, v.b);
              else if (type == 1) fuse<fuse_type::remove>(in, out, v.b);
              else fuse<fuse_type::undef>(in, out, v.b);
              en::eval();
              en::nontrivial(en::mix(u, (in * 8 + out) * 4 + type));
              const dim &id = b.dims[in], &od = b.dims[out];
              if (v.b.rank != (size_t)rank - (type == 1)) en::fail(key, key + ": wrong rank");
              if (type == 0 && !(v.dims[out].min() == 0 && v.dims[out].max() == 0)) en::fail(key, key + ": the outer dimension is not a point");
              if (id.stride() == 0 && od.stride() == 0) continue;  // All the same element.
              const index_t e = id.max() - id.min() + 1;
              int at = type == 1 && out < in ? in - 1 : in;
              if (od.max() >= od.min() && (v.b.dims[at].min() != od.min() * e || v.b.dims[at].max() != (od.max() + 1) * e - 1))
                en::fail(key, key + ": wrong bounds " + str(v.b));
              bool bad = false;
              each_index(b.b, rank, [&](const index_t* i) {
                index_t j[MAXR] = {};
                memcpy(j, i, sizeof(index_t) * rank);
                j[in] = i[out] * e + (i[in] - id.min());
                if (type == 1) {
                  for (int x = out; x + 1 < rank; ++x) j[x] = j[x + 1];
                } else {
                  j[out] = 0;
                }
                index_t skip = 0;
                char* got = (char*)v.b.base;
                for (size_t d = 0; d < v.b.rank; ++d)
                  if (!(type == 2 && (int)d == out)) got += offset_in_dim(v.b.dims[d], j[d]);
                // The kept dimension is a point at 0, which is its base.
                (void)skip;
                if (got != address(b.b, i, rank) && !bad) {
                  bad = true;
                  en::fail(key, key + ": " + str(i, rank) + fmt(" is at %lld, not %lld: ", (long long)(got - (char*)v.b.base), (long long)(address(b.b, i, rank) - (char*)b.b.base)) + str(v.b));
                }
              });
            }
          }
      },
      nullptr};
}

std::vector<en::family> make() {
  const bool t = en::thorough();
  std::vector<en::family> f;
  const int n = (int)dims1.size(), M = (int)main_dims.size(), O = (int)other_dims.size();
  f.push_back(sequences(1, 3, n));
  f.push_back(sequences(2, t ? 3 : 2, n));
  f.push_back(sequences(3, t ? 3 : 2, t ? 8 : n));
  if (!t) f.push_back(sequences(2, 3, 6));
  f.push_back(sequences(4, t ? 2 : 1, 8));
  f.push_back(unslices());
  for (int r = 1; r <= (t ? 4 : 3); ++r) f.push_back(joint_one(r));
  for (int r = 2; r <= 3; ++r) f.push_back(fuse_pairs(r));
  for (int r1 = 0; r1 <= 2; ++r1)
    for (int r2 = 0; r2 <= 2; ++r2) f.push_back(joint_two(r1, r2, {M, M}, {O, O}));
  f.push_back(joint_two(3, 2, {M, M, t ? M : 7}, {O, O}));
  f.push_back(joint_two(2, 3, {M, M}, {O, t ? O : 9, t ? O : 7}));
  f.push_back(joint_two(3, 3, {t ? 12 : 8, t ? 12 : 8, t ? 8 : 5}, {t ? 12 : 9, t ? 10 : 8, t ? 8 : 5}));
  f.push_back(joint_three(2, t ? M : 9, t ? 9 : 6));
  return f;
}

}  // namespace

int main(int argc, char** argv) {
  return en::main_driver(argc, argv, en::families("C15", "the view is not null, or the operation changed the dimensions", make));
}
