// C13: iteration over buffers, against the definition of a dimension.
#include "buf.h"

using namespace bf;
using namespace slinky;
using en::fmt;

namespace {

typedef std::array<char*, 6> tup;

struct checker {
  std::vector<tup> want, got;
  size_t nbufs;

  void reset(size_t n) {
    nbufs = n;
    want.clear();
    got.clear();
  }
  void add(std::vector<tup>& to, std::initializer_list<char*> p) {
    tup t{};
    std::copy(p.begin(), p.end(), t.begin());
    to.push_back(t);
  }
};

checker K;

std::string describe(const std::vector<const raw_buffer*>& bufs) {
  std::string s;
  for (auto b : bufs) s += str(*b) + " ";
  return s;
}

void compare(const char* what, const std::vector<const raw_buffer*>& bufs) {
  en::eval();
  std::sort(K.got.begin(), K.got.end());
  if (K.got != K.want) {
    std::string k = std::string(what) + " " + describe(bufs);
    std::string d = fmt("%s: visited %zu, expected %zu.", k.c_str(), K.got.size(), K.want.size());
    for (size_t i = 0; i < std::max(K.got.size(), K.want.size()); ++i) {
      if (i < K.got.size() && i < K.want.size() && K.got[i] == K.want[i]) continue;
      d += fmt(" At %zu:", i);
      for (auto* l : {&K.got, &K.want}) {
        d += l == &K.got ? " got" : " expected";
        for (size_t n = 0; n < bufs.size() && i < l->size(); ++n)
          d += (*l)[i][n] ? fmt(" %lld", (long long)((*l)[i][n] - (char*)(bufs[n]->base ? bufs[n]->base : nullptr))) : std::string(" null");
      }
      break;
    }
    en::fail(k, d);
  }
}

size_t es_of(const raw_buffer* b) { return b->elem_size; }

// Checks both iteration functions on these buffers.
void check(const std::vector<const raw_buffer*>& bufs) {
  const raw_buffer& b = *bufs[0];
  size_t rank = 0;
  for (auto i : bufs) rank = std::max(rank, i->rank);
  K.reset(bufs.size());
  bool some_null = false, some = false;
  each_index(b, rank, [&](const index_t* i) {
    tup t{};
    for (size_t n = 0; n < bufs.size(); ++n) {
      t[n] = n == 0 ? address(b, i, rank) : lookup(*bufs[n], i, rank);
      if (!t[n]) some_null = true;
    }
    some = true;
    K.want.push_back(t);
  });
  std::sort(K.want.begin(), K.want.end());
  if (some) {
    uint64_t h = bufs.size();
    for (auto i : bufs) {
      h = en::mix(h, i->rank * 16 + i->elem_size);
      for (size_t d = 0; d < i->rank; ++d)
        h = en::mix(h, ((i->dims[d].min() * 31 + i->dims[d].max()) * 1009 + i->dims[d].stride()) * 31 + i->dims[d].fold_factor());
    }
    en::nontrivial(h);
  }
  auto slices = [&](index_t extent, std::initializer_list<char*> p) {
    if (extent <= 0) en::fail("slice extent " + describe(bufs), "a slice has extent " + std::to_string(extent));
    for (index_t x = 0; x < extent; ++x) {
      tup t{};
      size_t n = 0;
      for (char* q : p) {
        t[n] = q ? q + x * (index_t)es_of(bufs[n]) : nullptr;
        ++n;
      }
      K.got.push_back(t);
    }
    if (K.got.size() > 100000) {
      en::fail("too many " + describe(bufs), "visits too many elements");
      _exit(7);
    }
  };
  switch (bufs.size()) {
  case 1:
    for_each_element([&](void* p) { K.add(K.got, {(char*)p}); }, b);
    compare("for_each_element", bufs);
    K.got.clear();
    for_each_contiguous_slice(b, [&](index_t e, void* p) { slices(e, {(char*)p}); });
    break;
  case 2:
    for_each_element([&](void* p, void* q) { K.add(K.got, {(char*)p, (char*)q}); }, b, *bufs[1]);
    compare("for_each_element", bufs);
    K.got.clear();
    for_each_contiguous_slice(b, [&](index_t e, void* p, void* q) { slices(e, {(char*)p, (char*)q}); }, *bufs[1]);
    break;
  case 3:
    for_each_element([&](void* p, void* q, void* r) { K.add(K.got, {(char*)p, (char*)q, (char*)r}); }, b, *bufs[1], *bufs[2]);
    compare("for_each_element", bufs);
    K.got.clear();
    for_each_contiguous_slice(
        b, [&](index_t e, void* p, void* q, void* r) { slices(e, {(char*)p, (char*)q, (char*)r}); }, *bufs[1], *bufs[2]);
    break;
  case 4:
    for_each_element([&](void* p, void* q, void* r, void* s) { K.add(K.got, {(char*)p, (char*)q, (char*)r, (char*)s}); }, b,
        *bufs[1], *bufs[2], *bufs[3]);
    compare("for_each_element", bufs);
    K.got.clear();
    for_each_contiguous_slice(
        b, [&](index_t e, void* p, void* q, void* r, void* s) { slices(e, {(char*)p, (char*)q, (char*)r, (char*)s}); }, *bufs[1],
        *bufs[2], *bufs[3]);
    break;
  default:
    for_each_element(
        [&](void* p, void* q, void* r, void* s, void* t) { K.add(K.got, {(char*)p, (char*)q, (char*)r, (char*)s, (char*)t}); }, b,
        *bufs[1], *bufs[2], *bufs[3], *bufs[4]);
    compare("for_each_element", bufs);
    K.got.clear();
    for_each_contiguous_slice(
        b, [&](index_t e, void* p, void* q, void* r, void* s, void* t) { slices(e, {(char*)p, (char*)q, (char*)r, (char*)s, (char*)t}); },
        *bufs[1], *bufs[2], *bufs[3], *bufs[4]);
  }
  compare("for_each_contiguous_slice", bufs);
}

const std::vector<D> main_dims = {
    {0, 2, C, -1}, {1, 3, C, -1}, {0, 2, Z, -1}, {1, 4, C, 2}, {1, 1, C, -1}, {0, -1, C, -1}, {1, 2, C, 2}, {0, 2, N, -1}, {0, 2, P, -1},
    {0, 0, Z, 0}, {0, 0, C, -1}, {1, 4, C, 3}, {0, 1, C, 2}, {0, 2, F, -1}, {-3, 4, C, 4}, {2, 3, P, 2}};
const std::vector<D> other_dims = {
    {0, 2, C, -1}, {1, 2, C, -1}, {0, 2, Z, -1}, {0, 4, C, 2}, {-2, 5, C, -1}, {0, 0, Z, 0}, {3, 4, C, -1}, {0, 4, C, 3}, {0, -1, C, -1},
    {-1, 1, C, -1}, {0, 2, P, -1}, {0, 2, N, -1}, {0, 0, C, -1}, {1, 1, Z, -1}, {1, 3, C, 3}, {-3, 4, C, 4}, {1, 4, F, -1}, {2, 2, C, 2},
    {1, 3, Z, 2}, {0, 2, F, -1}};

char* const base_addr[] = {(char*)0x100000000, (char*)0x200000000, (char*)0x300000000, (char*)0x400000000, (char*)0x500000000};

// All pairs of a main buffer of rank r1 and another of rank r2, from the first na, nb kinds of dimension in each position.
en::family pairs(int r1, int r2, std::vector<int> na, std::vector<int> nb) {
  // One unit for each main buffer.
  counter cm, co;
  for (int d = 0; d < r1; ++d) cm.radix.push_back(na[d]);
  for (int d = 0; d < r2; ++d) co.radix.push_back(nb[d]);
  auto make_main = [=](uint64_t u, B& m, index_t es) {
    std::vector<int> g = cm.digits(u);
    D ds[MAXR];
    for (int d = 0; d < r1; ++d) ds[d] = main_dims[g[d]];
    layout(m, ds, r1, es, base_addr[0]);
  };
  return {fmt("rank %d with rank %d", r1, r2), cm.total(),
      [=](uint64_t u) {
        const index_t es[] = {4, 2, 4, 3};
        B m, o;
        for (uint64_t x = 0; x < co.total(); ++x) {
          make_main(u, m, es[x & 1]);
          std::vector<int> g = co.digits(x);
          D ds[MAXR];
          for (int d = 0; d < r2; ++d) ds[d] = other_dims[g[d]];
          layout(o, ds, r2, es[(x ^ u) & 3], base_addr[1]);
          if (x % 16 == 0) en::tag((str(m.b) + " " + str(o.b)).c_str());
          check({&m.b, &o.b});
        }
        o.b.base = nullptr;
        check({&m.b, &o.b});
        check({&m.b});
        check({&m.b, &m.b});
        if (en::want_sample()) en::sample("for_each_element and for_each_contiguous_slice over " + str(m.b) + " with " + str(o.b) + " and " + std::to_string(co.total() - 1) + " others");
      },
      [=](uint64_t u) {
        B m;
        make_main(u, m, 4);
        return str(m.b);
      }};
}

// A main buffer with 2, 3 or 4 others.
en::family several(int nothers, int rank, std::vector<int> na, int nb) {
  counter cm, co;
  for (int d = 0; d < rank; ++d) cm.radix.push_back(na[d]);
  for (int d = 0; d < 2 * rank; ++d) co.radix.push_back(nb);
  return {fmt("rank %d with %d others", rank, nothers), cm.total(),
      [=](uint64_t u) {
        B m, o[4];
        std::vector<int> g = cm.digits(u);
        D ds[MAXR];
        for (int d = 0; d < rank; ++d) ds[d] = main_dims[g[d]];
        layout(m, ds, rank, 4, base_addr[0]);
        for (uint64_t x = 0; x < co.total(); ++x) {
          std::vector<int> h = co.digits(x);
          for (int k = 0; k < nothers; ++k) {
            // The third and fourth vary in a way determined by the first two.
            int rk = k < 2 ? rank : (k == 2 ? rank - 1 : rank);
            for (int d = 0; d < rk; ++d) ds[d] = other_dims[k < 2 ? h[k * rank + d] : (h[d] + (k - 1) * h[rank + d] + k) % (nb + 4)];
            layout(o[k], ds, rk, k & 1 ? 2 : 4, base_addr[k + 1]);
          }
          if (nothers > 2 && x % 5 == 0) o[1].b.base = nullptr;
          std::vector<const raw_buffer*> bufs = {&m.b};
          for (int k = 0; k < nothers; ++k) bufs.push_back(&o[k].b);
          check(bufs);
        }
        if (en::want_sample()) en::sample("for_each over " + str(m.b) + fmt(" with all choices of %d others of rank %d", nothers, rank));
      },
      nullptr};
}

std::vector<en::family> make() {
  std::vector<en::family> f;
  const int M = (int)main_dims.size(), O = (int)other_dims.size();
  const bool t = en::thorough();
  f.push_back(pairs(0, 0, {}, {}));
  for (int r = 1; r <= 3; ++r) {
    f.push_back(pairs(0, r, {}, {O, O, O}));
    f.push_back(pairs(r, 0, {M, M, M}, {}));
  }
  f.push_back(pairs(1, 1, {M}, {O}));
  f.push_back(pairs(1, 2, {M}, {O, O}));
  f.push_back(pairs(2, 1, {M, M}, {O}));
  f.push_back(pairs(2, 2, {M, M}, {O, O}));
  f.push_back(pairs(1, 3, {M}, {O, O, O}));
  f.push_back(pairs(3, 1, {M, M, M}, {O}));
  f.push_back(pairs(2, 3, {M, M}, {O, O, O}));
  f.push_back(pairs(3, 2, {M, M, M}, {O, O}));
  if (t) f.push_back(pairs(3, 3, {M, M, M}, {O, O, O}));
  else f.push_back(pairs(3, 3, {12, 12, 9}, {14, 12, 9}));
  if (t) f.push_back(pairs(4, 4, {8, 7, 6, 5}, {10, 9, 8, 7}));
  else f.push_back(pairs(4, 4, {5, 5, 5, 4}, {7, 6, 5, 4}));
  f.push_back(several(2, 2, {M, t ? M : 12}, t ? 13 : 10));
  f.push_back(several(3, 2, {t ? M : 9, t ? 10 : 6}, t ? 9 : 5));
  f.push_back(several(4, 2, {t ? M : 9, t ? 10 : 6}, t ? 9 : 5));
  f.push_back(several(2, 3, {t ? 8 : 5, t ? 7 : 4, t ? 6 : 3}, t ? 5 : 4));
  return f;
}

}  // namespace

int main(int argc, char** argv) {
  return en::main_driver(argc, argv, en::families("C13", "the first buffer is not empty", make));
}
