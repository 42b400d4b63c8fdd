// C12: copy, pad and fill, against the definition.
#include "buf.h"

using namespace bf;
using namespace slinky;
using en::fmt;

namespace {

constexpr size_t ARENA = 1 << 15;
constexpr size_t GUARD = 96;
alignas(64) uint8_t src_mem[ARENA], dst_mem[ARENA], pad_mem[ARENA], before[ARENA], want[ARENA], src_before[ARENA], pad_before[ARENA];

// The flat range of byte offsets a buffer addresses.
void extent_of(const raw_buffer& b, index_t& lo, index_t& hi) {
  lo = 0;
  hi = (index_t)b.elem_size;
  for (size_t d = 0; d < b.rank; ++d) {
    const dim& x = b.dims[d];
    index_t e = x.fold_factor() > 0 ? x.fold_factor() : std::max<index_t>(1, x.max() - x.min() + 1);
    index_t o = (e - 1) * x.stride();
    if (o < 0) lo += o;
    else hi += o;
  }
}

// Places b in the arena; returns the number of bytes used (including guards) or 0 if it does not fit.
size_t place(raw_buffer& b, uint8_t* arena) {
  index_t lo, hi;
  extent_of(b, lo, hi);
  if ((size_t)(hi - lo) + 2 * GUARD > ARENA) return 0;
  b.base = arena + GUARD - lo;
  return (size_t)(hi - lo) + 2 * GUARD;
}

void fill_pattern(uint8_t* m, size_t n, uint32_t seed) {
  uint32_t x = seed * 2654435761u + 12345;
  for (size_t i = 0; i < n; ++i) {
    x = x * 1664525 + 1013904223;
    m[i] = (uint8_t)(x >> 24);
  }
}

// A value with the same byte repeated is handled separately (memset): make some elements so.
void repeat_bytes(uint8_t* m, size_t n) { memset(m, 0x5a, n); }
// All bytes of an element are the same, except one.
void repeat_all_but_one(uint8_t* m, size_t n, size_t es, size_t which) {
  memset(m, 0x5a, n);
  for (size_t i = which % es; i < n; i += es) m[i] = 0x5b;
}

void layout_ordered(B& b, const D* ds, int rank, index_t es, bool reversed) {
  if (!reversed) {
    layout(b, ds, rank, es, (void*)8);
    return;
  }
  D r[MAXR];
  for (int d = 0; d < rank; ++d) r[d] = ds[rank - 1 - d];
  layout(b, r, rank, es, (void*)8);
  std::reverse(b.dims, b.dims + rank);
}

const std::vector<D> dst_dims = {{0, 2, C, -1}, {1, 2, P, -1}, {0, 0, C, -1}, {0, 2, N, -1}, {2, 3, C, 3}, {0, -1, C, -1}, {-2, 0, C, -1}, {0, 1, C, 2}, {0, 0, Z, 0}};
const std::vector<D> src_dims = {{0, 2, C, -1}, {1, 2, C, -1}, {0, 0, Z, 0}, {0, 2, Z, -1}, {-2, 5, C, -1}, {0, 4, C, 3}, {0, 0, C, -1}, {3, 4, C, -1}, {0, -1, C, -1},
    {0, 2, P, -1}, {0, 2, N, -1}, {1, 1, Z, -1}, {-3, 4, C, 4}, {0, 2, F, -1}, {2, 2, C, 2}, {1, 3, Z, 2}};
// Padding must contain everything.
const D pad_dims[][3] = {
    {{-6, 9, C, -1}, {-6, 9, C, -1}, {-6, 9, C, -1}},
    {{0, 0, Z, 0}, {-6, 9, C, -1}, {0, 0, Z, 0}},
    {{-6, 9, P, -1}, {0, 0, Z, 0}, {-6, 9, N, -1}},
    {{-6, 9, C, 4}, {-2, 3, Z, -1}, {-6, 9, C, 3}},
};

std::string describe(const char* what, const raw_buffer& s, const raw_buffer& d, const raw_buffer* p) {
  return fmt("%s %s to %s%s", what, str(s).c_str(), str(d).c_str(), p ? (" pad " + str(*p)).c_str() : "");
}

void report(const char* what, const raw_buffer& s, const raw_buffer& d, const raw_buffer* p, size_t nd) {
  std::string k = describe(what, s, d, p);
  std::string m = k + ":";
  size_t rank = std::max(s.rank, d.rank);
  std::set<const uint8_t*> elems;
  int shown = 0;
  each_index(d, rank, [&](const index_t* i) {
    const uint8_t* a = (uint8_t*)address(d, i, rank);
    for (size_t k2 = 0; k2 < d.elem_size; ++k2) elems.insert(a + k2);
    if (memcmp(a, want + (a - dst_mem), d.elem_size) && shown++ < 3) {
      m += " wrong element at " + str(i, d.rank) + (contains(s, i, rank) ? "(in the source)" : "(outside the source)");
    }
  });
  if (!shown)
    for (size_t x = 0; x < nd; ++x)
      if (dst_mem[x] != want[x] && !elems.count(dst_mem + x)) {
        m += fmt(" wrote outside the destination at base%+lld", (long long)(dst_mem + x - (uint8_t*)d.base));
        break;
      }
  en::fail(k, m);
}

// what: 0 copy, 1 pad
void one(int what, B& s, B& d, B* p, uint32_t seed) {
  const size_t es = d.b.elem_size;
  size_t ns = place(s.b, src_mem), nd = place(d.b, dst_mem), np = p ? place(p->b, pad_mem) : 0;
  if (!ns || !nd || (p && !np)) return;
  const size_t rank = std::max(s.b.rank, d.b.rank);
  // The documented preconditions: without padding everything is in bounds of the source.
  for (size_t x = 0; x < s.b.rank; ++x) {
    // A broadcast contains every index; whether padding applies outside the bounds of one that has bounds is not defined.
    const dim& sx = s.b.dims[x];
    if (p && sx.stride() == 0 && !sx.is_broadcast() && (d.b.dim(x).min() < sx.min() || d.b.dim(x).max() > sx.max())) return;
  }
  bool any = false, all_in = true, none = true;
  each_index(d.b, rank, [&](const index_t* i) {
    any = true;
    if (contains(s.b, i, rank)) none = false;
    else all_in = false;
  });
  if (!p && !all_in) return;
  if (s.b.base && s.b.elem_count() == 0 && (seed & 1)) s.b.base = nullptr;
  fill_pattern(src_mem, ns, seed);
  fill_pattern(dst_mem, nd, seed + 1);
  if (p) fill_pattern(pad_mem, np, seed + 2);
  if (seed % 3 == 0) repeat_bytes(src_mem, ns);
  if (p && seed % 5 == 0) repeat_bytes(pad_mem, np);
  if (p && seed % 5 == 1) repeat_all_but_one(pad_mem, np, es, seed / 5);
  memcpy(before, dst_mem, nd);
  memcpy(want, dst_mem, nd);
  memcpy(src_before, src_mem, ns);
  if (p) memcpy(pad_before, pad_mem, np);
  each_index(d.b, rank, [&](const index_t* i) {
    uint8_t* to = want + (address(d.b, i, rank) - (char*)dst_mem);
    if (contains(s.b, i, rank)) {
      if (what == 0) memcpy(to, address(s.b, i, rank), es);
    } else {
      memcpy(to, address(p->b, i, rank), es);
    }
  });
  B s2 = s, d2 = d;
  en::eval();
  if (what == 0) {
    if (p) copy(s.b, d.b, p->b);
    else copy(s.b, d.b);
  } else {
    // Only the bounds matter.
    pad(s.b.dims, d.b, p->b);
  }
  if (any) {
    uint64_t h = en::mix(what, p ? p->b.rank * 100 + p->b.dims[0].stride() : 0);
    for (const raw_buffer* b : {&s.b, &d.b})
      for (size_t x = 0; x < b->rank; ++x) h = en::mix(h, ((b->dims[x].min() * 31 + b->dims[x].max()) * 1009 + b->dims[x].stride()) * 31 + b->dims[x].fold_factor());
    if (!all_in || !p) en::nontrivial(en::mix(h, es));
  }
  const char* name = what == 0 ? "copy" : "pad";
  if (memcmp(dst_mem, want, nd)) report(name, s.b, d.b, p ? &p->b : nullptr, nd);
  if (memcmp(src_mem, src_before, ns) || (p && memcmp(pad_mem, pad_before, np)))
    en::fail("source changed " + describe(name, s.b, d.b, p ? &p->b : nullptr), "the source or the padding was modified");
  if (memcmp((void*)s.dims, (void*)s2.dims, sizeof(s.dims)) || memcmp((void*)d.dims, (void*)d2.dims, sizeof(d.dims)) || d.b.base != d2.b.base ||
      d.b.rank != d2.b.rank)
    en::fail("shape changed " + describe(name, s.b, d.b, nullptr), "the shape of the source or destination was modified");
}

en::family pairs(int rd, int rs, std::vector<int> nd, std::vector<int> ns) {
  counter cd, cs;
  for (int d = 0; d < rd; ++d) cd.radix.push_back(nd[d]);
  for (int d = 0; d < rs; ++d) cs.radix.push_back(ns[d]);
  return {fmt("destination rank %d from rank %d", rd, rs), cd.total(),
      [=](uint64_t u) {
        B s, d, p;
        D ds[MAXR], ss[MAXR];
        std::vector<int> g = cd.digits(u);
        for (int i = 0; i < rd; ++i) ds[i] = dst_dims[g[i]];
        const index_t ess[] = {1, 4, 3, 12, 16, 2, 8};
        uint32_t seed = (uint32_t)u;
        for (uint64_t x = 0; x < cs.total(); ++x) {
          std::vector<int> h = cs.digits(x);
          for (int i = 0; i < rs; ++i) ss[i] = src_dims[h[i]];
          for (int rev = 0; rev < 4; ++rev) {
            if ((rev & 1) && rd < 2) continue;
            if ((rev & 2) && rs < 2) continue;
            for (int e = 0; e < (en::thorough() ? 7 : 3); ++e) {
              const index_t es = ess[(e + x) % 7];
              layout_ordered(d, ds, rd, es, rev & 1);
              layout_ordered(s, ss, rs, es, rev & 2);
              en::tag(describe("copy", s.b, d.b, nullptr).c_str());
              ++seed;
              one(0, s, d, nullptr, seed);
              for (int k = -1; k < 4; ++k) {
                if (k >= 0 && e > 0 && (k + e) % 2) continue;
                // A scalar, and buffers that contain everything.
                if (k < 0) layout(p, nullptr, 0, es, (void*)8);
                else layout(p, pad_dims[k], std::max(1, rd), es, (void*)8);
                layout_ordered(s, ss, rs, es, rev & 2);
                en::tag(describe("copy", s.b, d.b, &p.b).c_str());
                one(0, s, d, &p, ++seed);
                if (rs == rd) {
                  en::tag(describe("pad", s.b, d.b, &p.b).c_str());
                  one(1, s, d, &p, ++seed);
                }
              }
            }
          }
        }
        if (en::want_sample()) en::sample("copy and pad to " + str(d.b) + " from " + str(s.b) + " and others, padding " + str(p.b));
      },
      [=](uint64_t u) {
        std::string s;
        std::vector<int> g = cd.digits(u);
        for (int i = 0; i < rd; ++i) s += str(dst_dims[g[i]]) + " ";
        return s;
      }};
}

// A padded copy of a buffer to itself: the source is a crop of the destination.
en::family in_place(int rank) {
  counter c;
  for (int d = 0; d < rank; ++d) c.radix.push_back(dst_dims.size());
  return {fmt("in place, rank %d", rank), c.total(),
      [=](uint64_t u) {
        D ds[MAXR];
        std::vector<int> g = c.digits(u);
        for (int i = 0; i < rank; ++i) ds[i] = dst_dims[g[i]];
        counter cc;
        const index_t lo[] = {-9, 0, 1, 2}, hi[] = {9, 1, 2, 0};
        for (int d = 0; d < rank; ++d) cc.radix.push_back(4), cc.radix.push_back(4);
        for (uint64_t x = 0; x < cc.total(); ++x)
          for (index_t es : {1, 4, 12}) {
            B d, s, p;
            layout(d, ds, rank, es, (void*)8);
            layout(p, nullptr, 0, es, (void*)8);
            size_t nd = place(d.b, dst_mem);
            place(p.b, pad_mem);
            s = d;
            std::vector<int> h = cc.digits(x);
            for (int i = 0; i < rank; ++i)
              if (d.dims[i].stride() != 0) s.b.crop(i, lo[h[2 * i]], hi[h[2 * i + 1]]);
            fill_pattern(dst_mem, nd, (uint32_t)(u + x));
            fill_pattern(pad_mem, 256, (uint32_t)(u + x + 7));
            memcpy(want, dst_mem, nd);
            bool all = true;
            each_index(d.b, rank, [&](const index_t* i) {
              if (!contains(s.b, i, rank)) {
                memcpy(want + (address(d.b, i, rank) - (char*)dst_mem), p.b.base, es);
                all = false;
              }
            });
            en::eval();
            if (!all) en::nontrivial(en::mix(u, x * 16 + es + rank * 131));
            en::tag(describe("in place", s.b, d.b, &p.b).c_str());
            copy(s.b, d.b, p.b);
            if (memcmp(dst_mem, want, nd)) report("in place", s.b, d.b, &p.b, nd);
          }
      },
      nullptr};
}

// Fills and copies of long rows, where values are replicated.
en::family fills() {
  return {"fill", 70,
      [](uint64_t u) {
        const index_t es = (index_t)u + 1;
        for (index_t n = 0; n <= 70; ++n)
          for (int rep = 0; rep < 2; ++rep)
            for (int rows = 0; rows <= 2; ++rows) {
              D ds[2] = {{0, n - 1, C, -1}, {0, rows - 1, P, -1}};
              B d, s;
              layout(d, ds, rows ? 2 : 1, es, (void*)8);
              // A scalar, or one value per row.
              D sd[2] = {{0, 0, Z, 0}, {0, 2, C, -1}};
              layout(s, sd, rows ? 2 : 0, es, (void*)8);
              en::tag(describe("fill", s.b, d.b, nullptr).c_str());
              one(0, s, d, nullptr, rep ? 3 : (uint32_t)(u * 3 + 1));
            }
      },
      [](uint64_t u) { return fmt("element size %d", (int)u + 1); }};
}

// make_copy and make_scalar allocate their own memory.
en::family make_copies() {
  counter c;
  for (int d = 0; d < 2; ++d) c.radix.push_back(src_dims.size());
  return {"make_copy", c.total(),
      [=](uint64_t u) {
        std::vector<int> g = c.digits(u);
        for (int rank = 0; rank <= 2; ++rank)
          for (index_t es : {1, 4, 12})
            for (index_t al : {1, 16, 64}) {
              D ds[2] = {src_dims[g[0]], src_dims[g[1]]};
              bool ok = true;
              // A copy has the same strides: negative ones do not describe an allocation that starts at the base.
              for (int i = 0; i < rank; ++i)
                if (ds[i].sk == N || ds[i].fold > 0) ok = false;
              if (!ok) continue;
              B s;
              layout(s, ds, rank, es, (void*)8);
              bool bad = false;
              for (int i = 0; i < rank; ++i)
                if (s.dims[i].stride() == 0 && s.dims[i].max() != s.dims[i].min()) bad = true;  // Elements overlap.
                else if (i && s.dims[i].stride() != 0 && ds[i].sk == F && s.dims[i].stride() < s.dims[i - 1].stride()) bad = true;
              if (bad) continue;
              size_t ns = place(s.b, src_mem);
              fill_pattern(src_mem, ns, (uint32_t)u);
              en::tag(("make_copy " + str(s.b)).c_str());
              raw_buffer_ptr r = raw_buffer::make_copy(s.b, al);
              en::eval();
              en::nontrivial(en::mix(u, rank * 100 + es + al * 1000));
              std::string k = fmt("make_copy %s alignment %d", str(s.b).c_str(), (int)al);
              if (r->rank != s.b.rank || r->elem_size != s.b.elem_size) en::fail(k, "the copy has another shape");
              if (r->base && (uintptr_t)r->base % al) en::fail(k, "not aligned");
              each_index(s.b, rank, [&](const index_t* i) {
                if (!r->base || memcmp(address(*r, i, rank), address(s.b, i, rank), es)) en::fail(k, "wrong element at " + str(i, rank));
              });
              if (rank == 0) {
                raw_buffer_ptr q = raw_buffer::make_scalar(es, src_mem, al);
                if (q->rank != 0 || q->elem_size != (size_t)es || memcmp(q->base, src_mem, es) || (uintptr_t)q->base % al)
                  en::fail(fmt("make_scalar %d %d", (int)es, (int)al), "wrong scalar");
              }
            }
      },
      nullptr};
}

std::vector<en::family> make() {
  std::vector<en::family> f;
  const bool t = en::thorough();
  const int d = (int)dst_dims.size(), s = (int)src_dims.size();
  for (int rd = 0; rd <= 2; ++rd)
    for (int rs = 0; rs <= 2; ++rs) f.push_back(pairs(rd, rs, {d, d}, {s, s}));
  f.push_back(pairs(3, 1, {d, d, d}, {s}));
  f.push_back(pairs(1, 3, {d}, {s, t ? s : 9, t ? s : 9}));
  f.push_back(pairs(3, 2, {5, 5, t ? 5 : 4}, {t ? s : 8, t ? s : 7}));
  f.push_back(pairs(2, 3, {5, 5}, {t ? s : 7, 7, t ? 7 : 5}));
  f.push_back(pairs(3, 3, {5, 5, t ? 5 : 3}, {7, t ? 7 : 6, t ? 7 : 4}));
  f.push_back(in_place(1));
  f.push_back(in_place(2));
  f.push_back(fills());
  f.push_back(make_copies());
  return f;
}

}  // namespace

int main(int argc, char** argv) {
  return en::main_driver(argc, argv,
      en::families("C12", "the destination is not empty, and with padding some of it is outside the source", make));
}
