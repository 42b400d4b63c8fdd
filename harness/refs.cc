// C03: every sequence of operations on a few handles of a few objects, compared with the sets of handles that refer to
// each object.
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "enum.h"
#include "slinky/base/ref_count.h"

using namespace slinky;

namespace {

int destroyed[8];
struct base : public ref_counted<base> {
  int id;
  explicit base(int id) : id(id) {}
  ~base() override { ++destroyed[id]; }
  static void destroy(base* o) { delete o; }
};
struct derived : public base {
  slinky::ref_count<base> next;
  using base::base;
};
using H = ref_count<base>;
using CH = ref_count<const base>;

constexpr int slots = 3, first_objects = 3, objects = 5;
// Operations on slots i and j; 0..first_objects-1 for raw pointers.
enum { COPY, MOVE, RAW, NUL, TAKE, SWAP, CONSTRUCT, MOVE_CONSTRUCT, VIA_CONST, NEXT, SET_NEXT, MOVE_NEXT, CLONE, KINDS };
const char* names[] = {"%d = %d", "%d = move(%d)", "%d = object %d", "%d = null (%d)", "%d = assume(take(%d))", "swap(%d, %d)", "%d = handle(%d)",
    "%d = handle(move(%d))", "%d = const handle of %d", "%d = %d->next", "%d->next = %d", "%d = move(%d->next)", "%d = a new copy of the object of %d"};
constexpr int nops = KINDS * slots * slots;

void run(const std::vector<int>& seq) {
  for (int& i : destroyed) i = 0;
  std::string desc;
  bool bad = false;
  int total = first_objects;
  auto fail = [&](const char* what) {
    if (!bad) en::fail(desc, what);
    bad = true;
  };
  {
    // The model: what each slot refers to, and the next of each object. -1: nothing.
    int m[slots], next[objects];
    bool alive[objects];
    H h[slots];
    base* raw[objects];
    int created = first_objects;
    for (int i = 0; i < objects; ++i) raw[i] = i < created ? new derived(i) : nullptr, next[i] = -1, alive[i] = i < created;
    for (int i = 0; i < slots; ++i) h[i] = raw[i], m[i] = i;
    auto refs = [&](int o) {
      int n = 0;
      for (int i : m) n += i == o;
      for (int i = 0; i < objects; ++i) n += alive[i] && next[i] == o;
      return n;
    };
    auto collect = [&]() {
      for (bool again = true; again;) {
        again = false;
        for (int o = 0; o < objects; ++o)
          if (alive[o] && refs(o) == 0) alive[o] = false, next[o] = -1, again = true;
      }
    };
    for (int op : seq) {
      int k = op % KINDS, i = op / KINDS % slots, j = op / KINDS / slots;
      desc += en::fmt(names[k], i, j) + "; ";
      en::tag(desc.c_str());
      derived* di = static_cast<derived*>(static_cast<base*>(h[i]));
      derived* dj = static_cast<derived*>(static_cast<base*>(h[j]));
      switch (k) {
      case COPY: h[i] = h[j]; m[i] = m[j]; break;
      case MOVE: {
        if (i == j) {
          // The value is not specified, but it must not be lost.
          H t = h[i];
          h[i] = std::move(h[j]);
          h[i] = t;
        } else {
          h[i] = std::move(h[j]), m[i] = m[j], m[j] = -1;
          // What a moved from handle refers to is not specified.
          h[j] = nullptr;
        }
        break;
      }
      case RAW:
        if (!alive[j]) continue;
        h[i] = raw[j], m[i] = j;
        break;
      case NUL: h[i] = nullptr, m[i] = -1; break;
      case TAKE: {
        H t = H::assume(h[j].take());
        h[i] = std::move(t);
        m[i] = m[j];
        if (i != j) m[j] = -1;
        break;
      }
      case SWAP: std::swap(h[i], h[j]); std::swap(m[i], m[j]); break;
      case CONSTRUCT: {
        H t(h[j]);
        h[i] = t, m[i] = m[j];
        break;
      }
      case MOVE_CONSTRUCT: {
        H t(std::move(h[j]));
        h[j] = nullptr;
        h[i] = t;
        int v = m[j];
        m[j] = -1, m[i] = v;
        break;
      }
      case VIA_CONST: {
        CH t = h[j];
        const base* p = t;
        h[i] = const_cast<base*>(p), m[i] = m[j];
        break;
      }
      case NEXT:
        if (!dj) continue;
        h[i] = dj->next, m[i] = next[m[j]];
        break;
      case SET_NEXT:
        // No cycles: an object only owns later ones.
        if (!di || m[j] <= m[i] || m[j] >= first_objects) continue;
        di->next = h[j], next[m[i]] = m[j];
        break;
      case MOVE_NEXT: {
        if (!dj) continue;
        int o = m[j];
        h[i] = std::move(dj->next), m[i] = next[o], next[o] = -1;
        // This may have been the last handle of dj.
        collect();
        if (alive[o]) static_cast<derived*>(raw[o])->next = nullptr;
        break;
      }
      case CLONE: {
        if (!dj || created == objects) continue;
        derived* c = new derived(*dj);
        c->id = created;
        raw[created] = c, next[created] = next[m[j]], alive[created] = true;
        h[i] = c, m[i] = created++;
        total = created;
        break;
      }
      }
      collect();
      for (int s = 0; s < slots; ++s)
        if ((base*)h[s] != (m[s] < 0 ? nullptr : raw[m[s]])) fail("a handle refers to the wrong object");
      for (int o = 0; o < objects; ++o) {
        if (destroyed[o] > 1) fail("an object is destroyed twice");
        if (alive[o] && destroyed[o]) fail("an object is destroyed too early");
        if (o < created && !alive[o] && !destroyed[o]) fail("an object is not destroyed when its last handle goes away");
        if (alive[o] && !destroyed[o] && raw[o]->ref_count() != refs(o)) fail("the count differs from the number of handles");
        if (bad) return;
      }
    }
  }
  for (int o = 0; o < total; ++o)
    if (destroyed[o] != 1) fail("an object is not destroyed exactly once");
  en::eval();
  uint64_t id = 1;
  for (int op : seq) id = id * (nops + 1) + op;
  en::nontrivial(id);
  if (en::want_sample()) en::sample(desc);
}

std::vector<en::family> make() {
  std::vector<en::family> f;
  int depth = en::thorough() ? 4 : 3;
  for (int n = 1; n <= depth; ++n) {
    // A unit is all sequences with the same start.
    uint64_t units = 1;
    int rest = std::min(n, 2);
    for (int i = 0; i < n - rest; ++i) units *= nops;
    f.push_back({en::fmt("sequences of %d", n), units,
        [=](uint64_t u) {
          std::vector<int> seq(n);
          for (int i = 0; i < n - rest; ++i) seq[i] = (int)(u % nops), u /= nops;
          uint64_t m = 1;
          for (int i = 0; i < rest; ++i) m *= nops;
          for (uint64_t v = 0; v < m; ++v) {
            uint64_t w = v;
            for (int i = n - rest; i < n; ++i) seq[i] = (int)(w % nops), w /= nops;
            run(seq);
          }
        },
        [=](uint64_t u) { return en::fmt("sequences of %d, start %llu", n, (unsigned long long)u); }});
  }
  return f;
}

}  // namespace

int main(int argc, char** argv) {
  static auto s = en::families("C03", "all sequences of operations on three handles of three objects that can own each other", make);
  return en::main_driver(argc, argv, s);
}
