// A stateless model checker for C++ programs compiled with -fsanitize=thread -femulated-tls, without libtsan.
//
//  - The compiler turns every atomic access into a call to __tsan_atomic*, every plain access to shared memory into
//    __tsan_read*/__tsan_write*. We implement these. Atomic accesses are scheduling points; plain accesses feed a
//    vector clock race detector and an allocation (use after free, out of bounds) check.
//  - pthread mutexes, condition variables, create, join, sched_yield and static guards are implemented here on top of
//    fibers, so exactly one model thread runs at a time, on one OS thread.
//  - An execution is determined by the deviations from the default schedule (keep running the current thread). The
//    explorer runs a depth first search over deviations; switching away from a runnable thread costs one preemption,
//    bounded. Other choices (which thread runs after a block or yield, which waiter is notified, whether a spinning
//    thread keeps spinning until it gives up) cost nothing and are all explored.
//  - States reached twice (equal happens-before hash, equal current thread) with no more preemptions left are pruned.
//
// This file must be compiled WITHOUT -fsanitize=thread.

#include "engine.h"

#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
}

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

namespace {

constexpr int MAXT = 6;
constexpr size_t STACK_SIZE = 512 * 1024;
constexpr size_t ARENA_SIZE = 2 * 1024 * 1024;  // per model thread
constexpr int MAX_DEV = 200;
constexpr u64 MAX_STEPS = 3000000;
constexpr int MAX_SPIN_YIELDS = 2200;

inline u64 mix(u64 a, u64 b) {
  u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull + (a << 6) + (a >> 2));
  x ^= x >> 32;
  x *= 0xD6E8FEB86659FD93ull;
  x ^= x >> 29;
  return x;
}

// ---------------------------------------------------------------------------------------------------------------------
// Fibers

struct ctx {
  void* sp;
};

extern "C" void mc_switch(ctx* from, ctx* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq (%rsi), %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

enum op_kind : u8 {
  OP_START,
  OP_ATOMIC,
  OP_LOCK,
  OP_UNLOCK,
  OP_CONDWAIT,
  OP_BLOCKED_COND,
  OP_NOTIFY,
  OP_CREATE,
  OP_JOIN,
  OP_YIELD,
  OP_GUARD,
  OP_POINT,
  OP_EXIT,
};
const char* op_names[] = {"start", "atomic", "lock", "unlock", "cond_wait", "blocked", "notify", "create", "join", "yield",
    "guard", "point", "exit"};

struct dtor_entry {
  void (*fn)(void*);
  void* obj;
};

struct tls_entry {
  void* key;
  void* mem;
};

struct thread_state {
  ctx c;
  int id;
  bool used, finished, detached;
  bool yielded;   // has yielded, and nobody made progress since
  bool exhaust;   // spinning until it gives up
  bool spunout;
  bool notified;  // blocked in cond wait: has been notified
  int spin_yields;
  u32 exhaust_mask;  // others that could run when spinning began
  op_kind pend;
  uintptr_t pend_obj;
  u64 h;  // happens-before hash
  u32 vc[MAXT];
  u32 fence_acq[MAXT];  // clocks seen by relaxed loads, acquired by a later acquire fence
  u32 fence_rel[MAXT];
  bool has_fence_rel;
  void* (*start)(void*);
  void* arg;
  void* retval;
  char* stack;
  char* arena;
  u8* arena_state;  // one byte per 8 bytes of arena
  size_t arena_used, arena_touched;
  tls_entry tls[64];
  int ntls;
  dtor_entry dtors[64];
  int ndtors;
  void* retaddr[1];
};

thread_state T[MAXT];
int nthreads;
int cur = -1;
ctx sched_ctx;
bool running = false;  // inside an execution
int quiet_depth = 0;   // inside engine or harness bookkeeping
tls_entry main_tls[64];
int n_main_tls;

// ---------------------------------------------------------------------------------------------------------------------
// Schedule

struct deviation {
  u32 point;
  u8 choice;  // encoded choice
  u8 cost;    // cumulative preemptions including this one
  u32 check;  // low bits of the state hash expected at that point
};

struct point_rec {
  u32 index;
  u32 options;  // bit t: switch to t (or keep t when t == cur). bit 16+t: choice t with exhaust (at yields)
  u8 chosen;
  u8 cost_before;
  bool runnable;  // current thread could continue, so switching costs one
  u32 check;
};

deviation prefix[MAX_DEV];
int nprefix, next_dev;
u32 npoints;
u64 steps;
int preemptions;
int bound;
bool replaying;
bool use_cache = true;
bool verbose;
bool pruned;
int spurious = 1;  // allow spurious wakeups as deviations

constexpr int MAX_POINTS = 60000;
point_rec* points;
int nrec;        // recorded branchable points
int tent_begin;  // first tentative record (exhaust mode), or -1

u64 outcome_hash;

// Shared with parent.
struct result_block {
  volatile u64 execs, transitions, pruned, states, npoints_max, outcomes;
  volatile int violated;
  volatile int error;
  volatile u64 next_item;
  volatile int capped;
  u64 outcome_set[4096];
  char msg[4096];
  int ndev;
  deviation dev[MAX_DEV];
};
result_block* R;

// State cache: open addressing, key -> preemptions
u64* cache_keys;
u8* cache_vals;
u64 cache_cap, cache_n;

void cache_init(u64 cap) {
  cache_cap = cap;
  cache_keys = (u64*)mmap(0, cap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cache_vals = (u8*)mmap(0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cache_n = 0;
}
// Returns true if the state was already explored with at most `p` preemptions used.
bool cache_visit(u64 key, int p) {
  if (!key) key = 1;
  u64 i = key & (cache_cap - 1);
  while (cache_keys[i]) {
    if (cache_keys[i] == key) {
      if (cache_vals[i] <= p) return true;
      cache_vals[i] = p;
      return false;
    }
    i = (i + 1) & (cache_cap - 1);
  }
  if (cache_n * 4 >= cache_cap * 3) return false;  // full: no more pruning for new states
  cache_keys[i] = key;
  cache_vals[i] = p;
  ++cache_n;
  return false;
}

// ---------------------------------------------------------------------------------------------------------------------
// Violations


[[noreturn]] void violation(const char* fmt, ...) {
  quiet_depth++;
  va_list ap;
  va_start(ap, fmt);
  char msg[2048];
  vsnprintf(msg, sizeof(msg), fmt, ap);
  va_end(ap);
  if (!__sync_lock_test_and_set(&R->violated, 1)) {
    snprintf(R->msg, sizeof(R->msg), "%s", msg);
    // The schedule that led here.
    R->ndev = nprefix;
    for (int i = 0; i < nprefix; ++i) R->dev[i] = prefix[i];
  }
  if (verbose) fprintf(stderr, "VIOLATION %s (threads:", msg);
  if (verbose) {
    for (int i = 0; i < nthreads; ++i)
      fprintf(stderr, " %d:%s%s", i, T[i].finished ? "finished" : op_names[T[i].pend], T[i].yielded ? "(yielded)" : "");
    fprintf(stderr, ")\n");
  }
  _exit(7);
}

[[noreturn]] void engine_error(const char* fmt, ...) {
  quiet_depth++;
  va_list ap;
  va_start(ap, fmt);
  char msg[1024];
  vsnprintf(msg, sizeof(msg), fmt, ap);
  va_end(ap);
  R->error = 1;
  snprintf(R->msg, sizeof(R->msg), "%s", msg);
  fprintf(stderr, "engine error: %s\n", msg);
  _exit(3);
}

void crash_handler(int sig, siginfo_t* si, void*) {
  if (running) violation("crash: signal %d (%s) in thread %d", sig, strsignal(sig), cur);
  engine_error("signal %d outside of an execution", sig);
}

// ---------------------------------------------------------------------------------------------------------------------
// Sync objects: keyed by address.

struct sync_obj {
  uintptr_t addr;
  u32 gen;
  u64 w, r;  // happens-before hashes
  int owner;  // mutex owner
  u32 vc[MAXT];
};
constexpr u32 NSYNC = 1 << 14;
sync_obj* syncs;
u32 generation = 1;
u32 sync_count;

sync_obj* get_sync(uintptr_t a) {
  u32 i = (u32)(mix(a, 17)) & (NSYNC - 1);
  while (syncs[i].gen == generation) {
    if (syncs[i].addr == a) return &syncs[i];
    i = (i + 1) & (NSYNC - 1);
  }
  if (++sync_count > NSYNC / 2) engine_error("too many sync objects");
  sync_obj* s = &syncs[i];
  s->addr = a;
  s->gen = generation;
  s->w = mix(a, 99);
  s->r = 0;
  s->owner = -1;
  memset(s->vc, 0, sizeof(s->vc));
  return s;
}

void vc_join(u32* a, const u32* b) {
  for (int i = 0; i < MAXT; ++i)
    if (b[i] > a[i]) a[i] = b[i];
}

void hash_write(sync_obj* o, u64 what) {
  thread_state& t = T[cur];
  t.h = mix(mix(t.h, what), mix(o->w, o->r));
  t.h = mix(t.h, o->addr);
  o->w = t.h;
  o->r = 0;
}
void hash_read(sync_obj* o, u64 what) {
  thread_state& t = T[cur];
  t.h = mix(mix(t.h, what), o->w);
  t.h = mix(t.h, o->addr);
  o->r += mix(t.h, 5);
}

u64 state_hash() {
  u64 s = 0x1234567;
  for (int i = 0; i < nthreads; ++i) {
    s = mix(s, T[i].h);
    s = mix(s, T[i].finished | (T[i].yielded << 1) | (T[i].exhaust << 2) | (T[i].notified << 3) | (T[i].pend << 4));
  }
  return s;
}

// ---------------------------------------------------------------------------------------------------------------------
// Shadow memory for race detection: per byte, per thread: last write and read clocks.

struct shadow_cell {
  uintptr_t granule;
  u32 gen;
  u8 uniform;  // not used
  u32 w[8][MAXT];
  u32 r[8][MAXT];
};
constexpr u32 NSHADOW = 1 << 16;
shadow_cell* shadow;
u32 shadow_count;

shadow_cell* get_shadow(uintptr_t g) {
  u32 i = (u32)(mix(g, 3)) & (NSHADOW - 1);
  while (shadow[i].gen == generation) {
    if (shadow[i].granule == g) return &shadow[i];
    i = (i + 1) & (NSHADOW - 1);
  }
  if (++shadow_count > NSHADOW * 3 / 4) engine_error("shadow memory full");
  shadow_cell* s = &shadow[i];
  s->granule = g;
  s->gen = generation;
  memset(s->w, 0, sizeof(s->w));
  memset(s->r, 0, sizeof(s->r));
  return s;
}

char* arena_base;  // MAXT arenas, contiguous
char* stack_base;

// Returns arena thread or -1
inline int arena_of(uintptr_t a) {
  if (a < (uintptr_t)arena_base || a >= (uintptr_t)arena_base + ARENA_SIZE * MAXT) return -1;
  return (int)((a - (uintptr_t)arena_base) / ARENA_SIZE);
}
inline int stack_of(uintptr_t a) {
  if (a < (uintptr_t)stack_base || a >= (uintptr_t)stack_base + STACK_SIZE * MAXT) return -1;
  return (int)((a - (uintptr_t)stack_base) / STACK_SIZE);
}

void check_live(uintptr_t a, size_t n, const char* what) {
  int t = arena_of(a);
  if (t < 0) return;
  size_t off = a - (uintptr_t)T[t].arena;
  for (size_t i = off / 8; i <= (off + n - 1) / 8; ++i) {
    u8 s = T[t].arena_state[i];
    if (s != 1) violation("%s of %s heap memory by thread %d", what, s == 2 ? "freed" : "unallocated", cur);
  }
}

// kind: 0 read, 1 write, 2 atomic read, 3 atomic write
void access(uintptr_t a, size_t n, int kind) {
  if (!running || quiet_depth || cur < 0) return;
  if (a < 4096) return;  // will crash anyway
  check_live(a, n, kind & 1 ? "write" : "read");
  // A thread's accesses to its own stack, when no other thread has touched it, do not matter. We still need to record
  // them, since another thread might access later. To keep this cheap, skip if only one thread exists.
  if (nthreads == 1) return;
  thread_state& me = T[cur];
  const u32 clk = me.vc[cur];
  while (n > 0) {
    uintptr_t g = a >> 3;
    u32 b0 = a & 7;
    u32 b1 = b0 + n > 8 ? 8 : (u32)(b0 + n);
    shadow_cell* s = get_shadow(g);
    for (u32 b = b0; b < b1; ++b) {
      for (int t = 0; t < nthreads; ++t) {
        if (t == cur) continue;
        // The low bit of the stored clock says the access was atomic.
        u32 w = s->w[b][t];
        if (w && (w >> 1) > me.vc[t] && !((w & 1) && kind >= 2))
          violation("data race: %s by thread %d conflicts with earlier write by thread %d", kind & 1 ? "write" : "read",
              cur, t);
        if (kind & 1) {
          u32 r = s->r[b][t];
          if (r && (r >> 1) > me.vc[t] && !((r & 1) && kind >= 2))
            violation("data race: write by thread %d conflicts with earlier read by thread %d", cur, t);
        }
      }
      u32 v = clk << 1 | (kind >= 2 ? 1 : 0);
      if (kind & 1)
        s->w[b][cur] = v;
      else
        s->r[b][cur] = v;
    }
    n -= b1 - b0;
    a += b1 - b0;
  }
}

// ---------------------------------------------------------------------------------------------------------------------
// Scheduler

bool is_enabled(int t) {
  thread_state& s = T[t];
  if (!s.used || s.finished) return false;
  switch (s.pend) {
  case OP_LOCK: return get_sync(s.pend_obj)->owner < 0;
  case OP_GUARD: return get_sync(s.pend_obj)->owner < 0;
  case OP_BLOCKED_COND: return false;
  case OP_JOIN: return T[s.pend_obj].finished;
  default: return true;
  }
}

void progress() {
  for (int i = 0; i < nthreads; ++i) {
    if (i != cur) {
      T[i].yielded = false;
      T[i].spunout = false;
    }
  }
  T[cur].spin_yields = 0;
}

void leave_exhaust() {
  if (T[cur].exhaust) {
    T[cur].exhaust = false;
    tent_begin = -1;
  }
}

void switch_to(int t) {
  if (t != cur) {
    int from = cur;
    cur = t;
    mc_switch(&T[from].c, &T[t].c);
  }
  // We are back. Points recorded by others in between are real.
  if (T[cur].exhaust) tent_begin = nrec;
}

// Picks among `options` (bits) at this point. def is the default.
int choose(u32 options, int def, bool runnable) {
  u32 idx = npoints++;
  if ((options & (options - 1)) == 0) {
    return def;
  }
  u32 check = (u32)mix(T[cur].h, options);
  int chosen = def;
  bool is_dev = false;
  if (next_dev < nprefix && prefix[next_dev].point == idx) {
    if (prefix[next_dev].check != check || !(options >> prefix[next_dev].choice & 1))
      engine_error("replay diverged at point %u", idx);
    chosen = prefix[next_dev].choice;
    ++next_dev;
    is_dev = true;
  }
  if (!replaying && next_dev == nprefix && !is_dev) {
    // Fresh territory.
    if (use_cache && !T[cur].exhaust && cache_visit(mix(mix(state_hash(), cur), mix(options, def)), preemptions)) {
      pruned = true;
    } else if (!pruned) {
      if (nrec >= MAX_POINTS) engine_error("too many points");
      point_rec& p = points[nrec++];
      p.index = idx;
      p.options = options;
      p.chosen = chosen;
      p.cost_before = preemptions;
      p.runnable = runnable;
      p.check = check;
    }
  }
  return chosen;
}

void abandon() {
  // Give up on this execution: go back to the scheduler, leaving all fibers as they are.
  ctx dummy;
  mc_switch(&dummy, &sched_ctx);
}

void trace_op() {
  if (verbose && !T[cur].exhaust && !quiet_depth)
    fprintf(stderr, "  [%d] %s %lx\n", cur, op_names[T[cur].pend],
        (long)(arena_of(T[cur].pend_obj) >= 0 ? T[cur].pend_obj - (uintptr_t)arena_base : T[cur].pend_obj));
}

// The current thread is about to execute op `k` on `obj`; decide who runs next. Returns when this thread has been chosen
// to execute its op.
void sched_point(op_kind k, uintptr_t obj) {
  thread_state& me = T[cur];
  me.pend = k;
  me.pend_obj = obj;
  if (++steps > MAX_STEPS) violation("no progress: step horizon exceeded (livelock)");

  u32 en = 0;
  for (int i = 0; i < nthreads; ++i)
    if (is_enabled(i) && (i == cur || !T[i].yielded)) en |= 1u << i;
  const bool self = en >> cur & 1;

  if (self) {
    int c = choose(en, cur, true);
    if (pruned) abandon();
    if (c != cur) {
      ++preemptions;
      switch_to(c);
    }
    trace_op();
    return;
  }
  // (While a thread spins until it gives up, its points are recorded tentatively: each further yield drops them.)

  // Current thread cannot run.
  if (me.exhaust) leave_exhaust();
  if (pruned) abandon();
  if (!en) {
    // Only yielded threads may be left.
    for (int i = 0; i < nthreads; ++i)
      if (is_enabled(i)) en |= 1u << i;
    if (!en) {
      char buf[512];
      int n = 0;
      for (int i = 0; i < nthreads; ++i) {
        if (T[i].finished) continue;
        n += snprintf(buf + n, sizeof(buf) - n, " thread %d blocked in %s;", i,
            T[i].pend == OP_BLOCKED_COND ? "condition wait" : op_names[T[i].pend]);
      }
      violation("deadlock:%s", buf);
    }
    // All of the enabled ones are spinning: one of them keeps on spinning until it gives up.
    int def = __builtin_ctz(en);
    int c = choose(en, def, false);
    if (pruned) abandon();
    T[c].yielded = false;
    T[c].exhaust = true;
    T[c].exhaust_mask = 0;
    tent_begin = nrec;
    switch_to(c);
  } else {
    // Next in round robin order is the default.
    int def = cur;
    do def = (def + 1) % nthreads;
    while (!(en >> def & 1));
    int c = choose(en, def, false);
    if (pruned) abandon();
    switch_to(c);
  }
  trace_op();
}

void do_yield() {
  thread_state& me = T[cur];
  me.pend = OP_YIELD;
  me.pend_obj = 0;
  me.h = mix(me.h, OP_YIELD);
  if (++steps > MAX_STEPS) violation("no progress: step horizon exceeded (livelock)");
  if (me.exhaust) {
    // Another round of spinning without effect: the tentative points of the last round are dropped.
    if (tent_begin >= 0) nrec = tent_begin;
    tent_begin = nrec;
    u32 now_enabled = 0;
    for (int i = 0; i < nthreads; ++i)
      if (i != cur && !T[i].yielded && is_enabled(i)) now_enabled |= 1u << i;
    if (now_enabled & ~me.exhaust_mask) {
      // Somebody else can run now, who could not when we began spinning: an ordinary yield.
      me.exhaust = false;
      tent_begin = -1;
    } else if (++me.spin_yields > MAX_SPIN_YIELDS) {
      // This thread does not give up.
      me.exhaust = false;
      me.spunout = true;
      bool other = false;
      for (int i = 0; i < nthreads; ++i)
        if (i != cur && is_enabled(i) && !T[i].spunout) other = true;
      if (!other) violation("livelock: all runnable threads spin forever");
      me.spin_yields = 0;
      me.yielded = true;
      // fall through to pick another
    } else {
      return;
    }
  }
  u32 en = 0, ye = 0;
  for (int i = 0; i < nthreads; ++i) {
    if (i == cur || !is_enabled(i)) continue;
    if (T[i].yielded)
      ye |= 1u << i;
    else
      en |= 1u << i;
  }
  int my = cur;
  int c;
  if (en) {
    int def = cur;
    do def = (def + 1) % nthreads;
    while (!(en >> def & 1));
    // Also offer to keep spinning until this thread gives up (bit 16 + cur).
    me.yielded = true;
    u32 options = en;
    if (!me.spunout) options |= 1u << (16 + cur);
    c = choose(options, def, false);
    if (pruned) abandon();
    if (c >= 16) {
      me.yielded = false;
      me.exhaust = true;
      me.exhaust_mask = en;
      tent_begin = nrec;
      return;
    }
    switch_to(c);
  } else {
    // Everybody runnable is spinning.
    u32 options = ye | (me.spunout ? 0 : (1u << my));
    if (!options) options = 1u << my;
    int def = options >> my & 1 ? my : __builtin_ctz(options);
    c = choose(options, def, false);
    if (pruned) abandon();
    me.yielded = true;
    T[c].yielded = false;
    T[c].exhaust = true;
    T[c].exhaust_mask = 0;
    tent_begin = nrec;
    switch_to(c);
  }
}

void fiber_main();

void make_fiber(int id, void* (*start)(void*), void* arg) {
  thread_state& t = T[id];
  t.id = id;
  t.used = true;
  t.finished = t.detached = t.yielded = t.exhaust = t.spunout = t.notified = false;
  t.spin_yields = 0;
  t.pend = OP_START;
  t.pend_obj = 0;
  t.start = start;
  t.arg = arg;
  t.retval = nullptr;
  t.ntls = t.ndtors = 0;
  t.has_fence_rel = false;
  memset(t.vc, 0, sizeof(t.vc));
  memset(t.fence_acq, 0, sizeof(t.fence_acq));
  memset(t.fence_rel, 0, sizeof(t.fence_rel));
  t.arena_used = 64;
  char* top = t.stack + STACK_SIZE - 64;
  top = (char*)((uintptr_t)top & ~63ull);
  void** sp = (void**)top;
  *--sp = nullptr;  // fake return address of fiber_main (alignment)
  *--sp = (void*)fiber_main;
  for (int i = 0; i < 6; ++i) *--sp = nullptr;
  t.c.sp = sp;
}

void fiber_main() {
  thread_state& t = T[cur];
  t.retval = t.start(t.arg);
  for (int i = t.ndtors - 1; i >= 0; --i) t.dtors[i].fn(t.dtors[i].obj);
  int me = cur;
  T[me].pend = OP_EXIT;
  leave_exhaust();
  progress();
  T[me].finished = true;
  T[me].h = mix(T[me].h, 0xE417);
  // Pick the next thread.
  bool all = true;
  for (int i = 0; i < nthreads; ++i) all = all && T[i].finished;
  if (all) {
    ctx dummy;
    mc_switch(&dummy, &sched_ctx);
  }
  if (me == 0) violation("harness: main thread finished before the others");
  sched_point(OP_EXIT, 0);
  violation("finished thread was scheduled");
}

void* thread0_start(void* arg) {
  ((void (*)())arg)();
  return nullptr;
}

// Runs one execution with the deviations in `prefix`.
void run_execution(const mc::scenario& s) {
  ++generation;
  if (generation == 0xffffffff) engine_error("generation overflow");
  sync_count = shadow_count = 0;
  nrec = 0;
  npoints = 0;
  next_dev = 0;
  steps = 0;
  preemptions = 0;
  pruned = false;
  tent_begin = -1;
  outcome_hash = 0;
  for (int i = 0; i < MAXT; ++i) {
    size_t n = T[i].arena_touched;
    memset(T[i].arena_state, 0, n / 8 + 1);
    T[i].arena_touched = 0;
    T[i].arena_used = 64;
    T[i].used = false;
    T[i].finished = false;
  }
  nthreads = 1;
  make_fiber(0, thread0_start, (void*)s.body);
  T[0].h = 1;
  T[0].vc[0] = 1;
  cur = 0;
  running = true;
  mc_switch(&sched_ctx, &T[0].c);
  running = false;
  cur = -1;
  quiet_depth = 0;
  if (!pruned && next_dev != nprefix) engine_error("replay diverged: only %d of %d deviations applied", next_dev, nprefix);
}

}  // namespace

// ---------------------------------------------------------------------------------------------------------------------
// Allocation

namespace {

void* arena_alloc(size_t n, size_t align) {
  thread_state& t = T[cur];
  if (align < 16) align = 16;
  size_t p = (t.arena_used + 16 + align - 1) & ~(align - 1);
  // Header: size, 16 bytes before.
  if (p + n + 32 > ARENA_SIZE) engine_error("arena full");
  *(size_t*)(t.arena + p - 16) = n;
  t.arena_used = p + n + 16;  // at least 16 bytes red zone
  t.arena_used = (t.arena_used + 7) & ~7ull;
  if (t.arena_used + 16 > t.arena_touched) t.arena_touched = t.arena_used + 16;
  memset(t.arena_state + p / 8, 1, (n + 7) / 8);
  // Fill with garbage that does not depend on the schedule.
  memset(t.arena + p, 0xCD, n);
  return t.arena + p;
}

void arena_free(void* ptr) {
  uintptr_t a = (uintptr_t)ptr;
  int o = arena_of(a);
  size_t n = *(size_t*)(a - 16);
  if (n == 0) return;
  size_t off = a - (uintptr_t)T[o].arena;
  if (T[o].arena_state[off / 8] == 2) violation("double free by thread %d", cur);
  if (T[o].arena_state[off / 8] != 1) violation("invalid free by thread %d", cur);
  // Freeing conflicts with every unordered access.
  if (running && cur >= 0 && !quiet_depth) access(a, n, 1);
  memset(T[o].arena_state + off / 8, 2, (n + 7) / 8);
  memset(ptr, 0xDD, n);
}

inline bool in_model() { return running && cur >= 0 && !quiet_depth; }

void* alloc(size_t n, size_t align) {
  if (in_model()) return arena_alloc(n, align);
  if (running && cur >= 0) return arena_alloc(n, align);  // harness bookkeeping inside an execution
  if (align > 16) {
    void* p = nullptr;
    char* raw = (char*)__real_malloc(n + align + 16);
    p = (void*)(((uintptr_t)raw + 16 + align - 1) & ~(align - 1));
    ((void**)p)[-1] = raw;
    return p;
  }
  return __real_malloc(n);
}
void dealloc(void* p, bool overaligned) {
  if (!p) return;
  if (arena_of((uintptr_t)p) >= 0) {
    arena_free(p);
    return;
  }
  if (overaligned) {
    __real_free(((void**)p)[-1]);
    return;
  }
  __real_free(p);
}

}  // namespace

extern "C" {
void* __wrap_malloc(size_t n) { return alloc(n, 16); }
void __wrap_free(void* p) { dealloc(p, false); }
void* __wrap_calloc(size_t a, size_t b) {
  if (running && cur >= 0) {
    void* p = alloc(a * b, 16);
    memset(p, 0, a * b);
    return p;
  }
  return __real_calloc(a, b);
}
void* __wrap_realloc(void* p, size_t n) {
  if (running && cur >= 0) engine_error("realloc in the model");
  return __real_realloc(p, n);
}
}

#include <new>
void* operator new(size_t n) { return alloc(n, 16); }
void* operator new[](size_t n) { return alloc(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { dealloc(p, false); }
void operator delete[](void* p) noexcept { dealloc(p, false); }
void operator delete(void* p, size_t) noexcept { dealloc(p, false); }
void operator delete[](void* p, size_t) noexcept { dealloc(p, false); }
void operator delete(void* p, std::align_val_t a) noexcept { dealloc(p, (size_t)a > 16); }
void operator delete[](void* p, std::align_val_t a) noexcept { dealloc(p, (size_t)a > 16); }
void operator delete(void* p, size_t, std::align_val_t a) noexcept { dealloc(p, (size_t)a > 16); }
void operator delete[](void* p, size_t, std::align_val_t a) noexcept { dealloc(p, (size_t)a > 16); }

// ---------------------------------------------------------------------------------------------------------------------
// Emulated TLS

extern "C" void* __emutls_get_address(void* control) {
  struct control_t {
    size_t size, align;
    void* object;
    void* value;
  };
  control_t* c = (control_t*)control;
  tls_entry* tab = running && cur >= 0 ? T[cur].tls : main_tls;
  int& n = running && cur >= 0 ? T[cur].ntls : n_main_tls;
  for (int i = 0; i < n; ++i)
    if (tab[i].key == control) return tab[i].mem;
  if (n >= 64) engine_error("too many thread locals");
  void* mem = alloc(c->size, c->align);
  if (c->value)
    memcpy(mem, c->value, c->size);
  else
    memset(mem, 0, c->size);
  tab[n].key = control;
  tab[n].mem = mem;
  ++n;
  return mem;
}

extern "C" int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*) noexcept {
  if (running && cur >= 0) {
    thread_state& t = T[cur];
    if (t.ndtors >= 64) engine_error("too many thread local destructors");
    t.dtors[t.ndtors].fn = fn;
    t.dtors[t.ndtors].obj = obj;
    ++t.ndtors;
  }
  return 0;
}

// ---------------------------------------------------------------------------------------------------------------------
// pthreads

namespace {
// Which mutex a waiting thread has to lock again.
uintptr_t wait_mutex[MAXT];
}  // namespace

extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!in_model()) return 0;
  check_live((uintptr_t)m, sizeof(void*), "lock");
  if (get_sync((uintptr_t)m)->owner == cur) violation("self deadlock: mutex locked twice by thread %d", cur);
  sched_point(OP_LOCK, (uintptr_t)m);
  sync_obj* o = get_sync((uintptr_t)m);
  if (o->owner >= 0) engine_error("mutex is owned");
  o->owner = cur;
  vc_join(T[cur].vc, o->vc);
  hash_write(o, OP_LOCK);
  return 0;
}

int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!in_model()) return 0;
  sched_point(OP_POINT, (uintptr_t)m);
  sync_obj* o = get_sync((uintptr_t)m);
  hash_write(o, 77);
  if (o->owner >= 0) return EBUSY;
  o->owner = cur;
  vc_join(T[cur].vc, o->vc);
  return 0;
}

int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!in_model()) return 0;
  check_live((uintptr_t)m, sizeof(void*), "unlock");
  sched_point(OP_UNLOCK, (uintptr_t)m);
  sync_obj* o = get_sync((uintptr_t)m);
  if (o->owner != cur) violation("mutex unlocked by thread %d, which does not own it", cur);
  o->owner = -1;
  vc_join(o->vc, T[cur].vc);
  T[cur].vc[cur]++;
  hash_write(o, OP_UNLOCK);
  return 0;
}

int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) { return 0; }
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }

int pthread_cond_destroy(pthread_cond_t* c) {
  if (!in_model()) return 0;
  for (int i = 0; i < nthreads; ++i)
    if (!T[i].finished && T[i].pend == OP_BLOCKED_COND && T[i].pend_obj == (uintptr_t)c)
      violation("condition variable destroyed while thread %d waits on it", i);
  return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!in_model()) return 0;
  check_live((uintptr_t)c, sizeof(void*), "wait");
  sched_point(OP_CONDWAIT, (uintptr_t)c);
  sync_obj* o = get_sync((uintptr_t)m);
  if (o->owner != cur) violation("condition wait without owning the mutex, thread %d", cur);
  hash_write(get_sync((uintptr_t)c), OP_CONDWAIT);
  o = get_sync((uintptr_t)m);
  o->owner = -1;
  vc_join(o->vc, T[cur].vc);
  T[cur].vc[cur]++;
  hash_write(o, OP_UNLOCK);
  leave_exhaust();
  T[cur].spin_yields = 0;
  T[cur].notified = false;
  wait_mutex[cur] = (uintptr_t)m;
  bool spur = false;
  if (spurious) {
    // Choice: a spurious wake up (costs one deviation).
    u32 opt = (1u << cur) | (1u << (16 + cur));
    int c2 = choose(opt, cur, true);
    if (pruned) abandon();
    if (c2 >= 16) {
      ++preemptions;
      spur = true;
    }
  }
  if (!spur) {
    int me = cur;
    sched_point(OP_BLOCKED_COND, (uintptr_t)c);
    // We get here when we were notified (pend was changed to OP_LOCK) and chosen.
    if (cur != me) engine_error("switch");
  } else {
    sched_point(OP_LOCK, (uintptr_t)m);
  }
  o = get_sync((uintptr_t)m);
  if (o->owner >= 0) engine_error("mutex is owned after wait");
  o->owner = cur;
  vc_join(T[cur].vc, o->vc);
  hash_write(o, OP_LOCK);
  return 0;
}

}  // extern "C"

namespace {
void wake(int t) {
  T[t].pend = OP_LOCK;
  T[t].pend_obj = wait_mutex[t];
  T[t].notified = true;
}
}  // namespace

extern "C" {

int pthread_cond_signal(pthread_cond_t* c) {
  if (!in_model()) return 0;
  check_live((uintptr_t)c, sizeof(void*), "notify");
  sched_point(OP_NOTIFY, (uintptr_t)c);
  hash_write(get_sync((uintptr_t)c), OP_NOTIFY);
  leave_exhaust();
  progress();
  u32 opts = 0;
  for (int i = 0; i < nthreads; ++i)
    if (T[i].used && !T[i].finished && T[i].pend == OP_BLOCKED_COND && T[i].pend_obj == (uintptr_t)c) opts |= 1u << i;
  if (opts) {
    int w = choose(opts, __builtin_ctz(opts), false);
    if (pruned) abandon();
    T[cur].h = mix(T[cur].h, w);
    wake(w);
    T[w].h = mix(T[w].h, T[cur].h);
  }
  return 0;
}

int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!in_model()) return 0;
  check_live((uintptr_t)c, sizeof(void*), "notify");
  sched_point(OP_NOTIFY, (uintptr_t)c);
  hash_write(get_sync((uintptr_t)c), OP_NOTIFY + 50);
  leave_exhaust();
  progress();
  for (int i = 0; i < nthreads; ++i)
    if (T[i].used && !T[i].finished && T[i].pend == OP_BLOCKED_COND && T[i].pend_obj == (uintptr_t)c) {
      wake(i);
      T[i].h = mix(T[i].h, T[cur].h);
    }
  return 0;
}

int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*) {
  engine_error("timed waits are not modelled");
}
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*) {
  engine_error("timed waits are not modelled");
}

int pthread_create(pthread_t* th, const pthread_attr_t*, void* (*start)(void*), void* arg) {
  if (!in_model()) engine_error("thread created outside of an execution");
  sched_point(OP_CREATE, nthreads);
  if (nthreads >= MAXT) engine_error("too many threads");
  int id = nthreads;
  make_fiber(id, start, arg);
  memcpy(T[id].vc, T[cur].vc, sizeof(T[id].vc));
  T[id].vc[id] = 1;
  T[cur].vc[cur]++;
  T[id].h = mix(T[cur].h, 1000 + id);
  T[cur].h = mix(T[cur].h, 2000 + id);
  nthreads = id + 1;
  progress();
  *th = (pthread_t)(id + 1);
  return 0;
}

int pthread_join(pthread_t th, void** ret) {
  int id = (int)th - 1;
  sched_point(OP_JOIN, id);
  vc_join(T[cur].vc, T[id].vc);
  T[cur].h = mix(T[cur].h, T[id].h);
  if (ret) *ret = T[id].retval;
  return 0;
}
int pthread_detach(pthread_t) { engine_error("detach is not modelled"); }

int sched_yield() {
  if (in_model()) do_yield();
  return 0;
}
int usleep(useconds_t) { return sched_yield(); }
int nanosleep(const struct timespec*, struct timespec*) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return sched_yield(); }

int clock_gettime(clockid_t id, struct timespec* ts) {
  if (running && cur >= 0) {
    ts->tv_sec = 1;
    ts->tv_nsec = 0;
    return 0;
  }
  return syscall(SYS_clock_gettime, id, ts);
}

// Static guards
int __cxa_guard_acquire(u64* g) {
  if (*(u8*)g) {
    if (in_model()) {
      sync_obj* o = get_sync((uintptr_t)g);
      vc_join(T[cur].vc, o->vc);
    }
    return 0;
  }
  if (!in_model()) return 1;
  sched_point(OP_GUARD, (uintptr_t)g);
  sync_obj* o = get_sync((uintptr_t)g);
  vc_join(T[cur].vc, o->vc);
  hash_write(o, OP_GUARD);
  if (*(u8*)g) return 0;
  o->owner = cur;
  return 1;
}
void __cxa_guard_release(u64* g) {
  if (in_model()) {
    sync_obj* o = get_sync((uintptr_t)g);
    o->owner = -1;
    vc_join(o->vc, T[cur].vc);
    T[cur].vc[cur]++;
    hash_write(o, OP_GUARD + 60);
    progress();
  }
  *(u8*)g = 1;
}
void __cxa_guard_abort(u64*) {}

// ---------------------------------------------------------------------------------------------------------------------
// tsan hooks

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                             \
  void __tsan_read##n(void* p) { access((uintptr_t)p, n, 0); }                            \
  void __tsan_write##n(void* p) { access((uintptr_t)p, n, 1); }                           \
  void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, 0); }                  \
  void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, 1); }                 \
  void __tsan_read_write##n(void* p) { access((uintptr_t)p, n, 1); }                      \
  void __tsan_unaligned_read_write##n(void* p) { access((uintptr_t)p, n, 1); }            \
  void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, 0); }                   \
  void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) access((uintptr_t)p, 8, 1);
}
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, 0); }
void __tsan_read_range(void* p, size_t n) {
  if (n) access((uintptr_t)p, n, 0);
}
void __tsan_write_range(void* p, size_t n) {
  if (n) access((uintptr_t)p, n, 1);
}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  if (n) {
    access((uintptr_t)s, n, 0);
    access((uintptr_t)d, n, 1);
  }
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  if (n) {
    access((uintptr_t)s, n, 0);
    access((uintptr_t)d, n, 1);
  }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n) {
  if (n) access((uintptr_t)d, n, 1);
  return memset(d, v, n);
}

}  // extern "C"

namespace {

// memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

void at_load(uintptr_t a, size_t n, int mo) {
  sched_point(OP_ATOMIC, a);
  access(a, n, 2);
  sync_obj* o = get_sync(a);
  if (is_acq(mo))
    vc_join(T[cur].vc, o->vc);
  else
    vc_join(T[cur].fence_acq, o->vc);
  hash_read(o, 1);
}
void at_store(uintptr_t a, size_t n, int mo) {
  sched_point(OP_ATOMIC, a);
  access(a, n, 3);
  sync_obj* o = get_sync(a);
  if (is_rel(mo)) {
    memcpy(o->vc, T[cur].vc, sizeof(o->vc));
    T[cur].vc[cur]++;
  } else if (T[cur].has_fence_rel) {
    memcpy(o->vc, T[cur].fence_rel, sizeof(o->vc));
  } else {
    memset(o->vc, 0, sizeof(o->vc));
  }
  hash_write(o, 2);
  leave_exhaust();
  progress();
}
void at_rmw(uintptr_t a, size_t n, int mo) {
  sched_point(OP_ATOMIC, a);
  access(a, n, 3);
  sync_obj* o = get_sync(a);
  if (is_acq(mo))
    vc_join(T[cur].vc, o->vc);
  else
    vc_join(T[cur].fence_acq, o->vc);
  if (is_rel(mo)) {
    vc_join(o->vc, T[cur].vc);
    T[cur].vc[cur]++;
  } else if (T[cur].has_fence_rel) {
    vc_join(o->vc, T[cur].fence_rel);
  }
  hash_write(o, 3);
  leave_exhaust();
  progress();
}

}  // namespace

extern "C" {

#define AT(bits, type)                                                                                               \
  type __tsan_atomic##bits##_load(const volatile type* p, int mo) {                                                   \
    if (in_model()) at_load((uintptr_t)p, sizeof(type), mo);                                                          \
    return *p;                                                                                                        \
  }                                                                                                                   \
  void __tsan_atomic##bits##_store(volatile type* p, type v, int mo) {                                                \
    if (in_model()) at_store((uintptr_t)p, sizeof(type), mo);                                                         \
    *p = v;                                                                                                           \
  }                                                                                                                   \
  type __tsan_atomic##bits##_exchange(volatile type* p, type v, int mo) {                                             \
    if (in_model()) at_rmw((uintptr_t)p, sizeof(type), mo);                                                           \
    type o = *p;                                                                                                      \
    *p = v;                                                                                                           \
    return o;                                                                                                         \
  }                                                                                                                   \
  AT_OP(bits, type, add, o + v)                                                                                       \
  AT_OP(bits, type, sub, o - v)                                                                                       \
  AT_OP(bits, type, and, o & v)                                                                                       \
  AT_OP(bits, type, or, o | v)                                                                                        \
  AT_OP(bits, type, xor, o ^ v)                                                                                       \
  AT_OP(bits, type, nand, ~(o & v))                                                                                   \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* e, type v, int mo, int fmo) {             \
    if (in_model()) {                                                                                                 \
      sched_point(OP_ATOMIC, (uintptr_t)p);                                                                           \
      return cas_impl((uintptr_t)p, sizeof(type), *p == *e, mo, fmo) ? (*p = v, 1) : (*e = *p, 0);                    \
    }                                                                                                                 \
    if (*p == *e) {                                                                                                   \
      *p = v;                                                                                                         \
      return 1;                                                                                                       \
    }                                                                                                                 \
    *e = *p;                                                                                                          \
    return 0;                                                                                                         \
  }                                                                                                                   \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* e, type v, int mo, int fmo) {               \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo);                                           \
  }                                                                                                                   \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type* p, type e, type v, int mo, int fmo) {                \
    __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo);                                                 \
    return e;                                                                                                         \
  }
#define AT_OP(bits, type, name, expr)                                                                                \
  type __tsan_atomic##bits##_fetch_##name(volatile type* p, type v, int mo) {                                         \
    if (in_model()) at_rmw((uintptr_t)p, sizeof(type), mo);                                                           \
    type o = *p;                                                                                                      \
    *p = (type)(expr);                                                                                                \
    return o;                                                                                                         \
  }

static bool cas_impl(uintptr_t a, size_t n, bool success, int mo, int fmo) {
  access(a, n, success ? 3 : 2);
  sync_obj* o = get_sync(a);
  int m = success ? mo : fmo;
  if (is_acq(m))
    vc_join(T[cur].vc, o->vc);
  else
    vc_join(T[cur].fence_acq, o->vc);
  if (success) {
    if (is_rel(m)) {
      vc_join(o->vc, T[cur].vc);
      T[cur].vc[cur]++;
    } else if (T[cur].has_fence_rel) {
      vc_join(o->vc, T[cur].fence_rel);
    }
    hash_write(o, 3);
    leave_exhaust();
    progress();
  } else {
    hash_read(o, 1);
  }
  return success;
}

AT(8, u8)
AT(16, uint16_t)
AT(32, u32)
AT(64, u64)

void __tsan_atomic_thread_fence(int mo) {
  if (!in_model()) return;
  if (is_acq(mo)) vc_join(T[cur].vc, T[cur].fence_acq);
  if (is_rel(mo)) {
    memcpy(T[cur].fence_rel, T[cur].vc, sizeof(T[cur].vc));
    T[cur].has_fence_rel = true;
    T[cur].vc[cur]++;
  }
}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"

// ---------------------------------------------------------------------------------------------------------------------
// Public API and explorer

namespace mc {

void fail(const char* what) { violation("%s", what); }
void check(bool ok, const char* what) {
  if (!ok) violation("%s", what);
}
void outcome(uint64_t v) { outcome_hash = mix(outcome_hash, v); }
int thread_id() { return cur; }
void point() {
  if (in_model()) sched_point(OP_POINT, 0);
}
void event(const void* obj) {
  if (!in_model()) return;
  sched_point(OP_POINT, (uintptr_t)obj);
  hash_write(get_sync((uintptr_t)obj), 200);
}
quiet::quiet() {
  old_ = quiet_depth;
  quiet_depth++;
}
quiet::~quiet() { quiet_depth = old_; }

}  // namespace mc

namespace {

struct work_item {
  int n;
  deviation* d;
};

struct item_stack {
  work_item* a;
  size_t n, cap;
  void push(const deviation* p, int np, const deviation& extra) {
    if (n == cap) {
      cap = cap ? cap * 2 : 1024;
      a = (work_item*)__real_realloc(a, cap * sizeof(work_item));
    }
    work_item w;
    w.n = np + 1;
    w.d = (deviation*)__real_malloc(sizeof(deviation) * w.n);
    memcpy(w.d, p, sizeof(deviation) * np);
    w.d[np] = extra;
    a[n++] = w;
  }
};

void add_outcome(u64 h) {
  h = mix(h, 1);
  if (!h) h = 1;
  u32 i = h & 4095;
  for (int k = 0; k < 4096; ++k) {
    u64 o = __sync_val_compare_and_swap(&R->outcome_set[i], 0, h);
    if (o == 0) {
      __sync_fetch_and_add(&R->outcomes, 1);
      return;
    }
    if (o == h) return;
    i = (i + 1) & 4095;
  }
}

// Runs the execution for the current prefix and pushes all alternatives.
void expand(const mc::scenario& s, item_stack& st) {
  run_execution(s);
  __sync_fetch_and_add(&R->execs, 1);
  __sync_fetch_and_add(&R->transitions, steps);
  if (pruned)
    __sync_fetch_and_add(&R->pruned, 1);
  else
    add_outcome(outcome_hash);
  if (npoints > R->npoints_max) R->npoints_max = npoints;
  // Later points first, so that the LIFO explores earlier deviations... order does not matter for coverage.
  for (int i = nrec - 1; i >= 0; --i) {
    point_rec& p = points[i];
    for (int b = 0; b < 32; ++b) {
      if (!(p.options >> b & 1) || b == p.chosen) continue;
      int cost = p.cost_before + (p.runnable ? 1 : 0);
      if (cost > bound) continue;
      deviation d;
      d.point = p.index;
      d.choice = b;
      d.cost = cost;
      d.check = p.check;
      if (nprefix + 1 >= MAX_DEV) engine_error("too many deviations");
      st.push(prefix, nprefix, d);
    }
  }
}

void load(const work_item& w) {
  nprefix = w.n;
  memcpy(prefix, w.d, sizeof(deviation) * w.n);
}

double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

void init_memory() {
  points = (point_rec*)mmap(
      0, sizeof(point_rec) * MAX_POINTS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  syncs = (sync_obj*)mmap(
      0, sizeof(sync_obj) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  shadow = (shadow_cell*)mmap(
      0, sizeof(shadow_cell) * NSHADOW, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  // Fixed addresses, so that replay in another process sees the same hashes.
  arena_base = (char*)mmap((void*)0x200000000000ull, ARENA_SIZE * MAXT, PROT_READ | PROT_WRITE,
      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  stack_base = (char*)mmap((void*)0x210000000000ull, STACK_SIZE * MAXT, PROT_READ | PROT_WRITE,
      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  for (int i = 0; i < MAXT; ++i) {
    T[i].stack = stack_base + STACK_SIZE * i;
    mprotect(T[i].stack, 4096, PROT_NONE);
    T[i].arena = arena_base + ARENA_SIZE * i;
    T[i].arena_state = (u8*)mmap(0, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  }
  R = (result_block*)mmap(0, sizeof(result_block), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

  stack_t ss;
  ss.ss_sp = mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_size = 65536;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = crash_handler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT};
  for (int i : sigs) sigaction(i, &sa, nullptr);
}

struct summary {
  u64 execs, transitions, pruned, states, outcomes, maxpoints;
  int completed_bound;
  bool capped;
  double wall;
};

// Explores a scenario with the current bound. Returns 0: no violation, 1: violation (in R), 3: error
int explore(const mc::scenario& s, int workers, double deadline) {
  memset(R, 0, sizeof(*R));
  fflush(stdout);
  fflush(stderr);
  // The first stage runs in a child as well, for isolation: it creates the initial work items.
  constexpr u64 MAX_ITEMS = 4096;
  struct shared_items {
    volatile u64 n;
    struct {
      int n;
      deviation d[24];
    } it[MAX_ITEMS];
  };
  shared_items* items = (shared_items*)mmap(
      0, sizeof(shared_items), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pid_t pid = fork();
  if (pid == 0) {
    cache_init(1 << 22);
    bool save = use_cache;
    use_cache = false;
    item_stack st = {};
    // Breadth first until there are enough items.
    nprefix = 0;
    size_t head = 0;
    expand(s, st);
    while (head < st.n && st.n - head < 400) {
      if (st.a[head].n >= 6) break;
      load(st.a[head]);
      ++head;
      expand(s, st);
    }
    use_cache = save;
    u64 k = 0;
    for (size_t i = head; i < st.n && k < MAX_ITEMS; ++i, ++k) {
      if (st.a[i].n > 24) engine_error("item too long");
      items->it[k].n = st.a[i].n;
      memcpy(items->it[k].d, st.a[i].d, sizeof(deviation) * st.a[i].n);
    }
    if (st.n - head > MAX_ITEMS) engine_error("too many items: %zu", st.n - head);
    items->n = k;
    _exit(0);
  }
  int status;
  waitpid(pid, &status, 0);
  if (R->violated) {
    munmap(items, sizeof(shared_items));
    return 1;
  }
  if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) return 3;

  pid_t pids[64];
  for (int w = 0; w < workers; ++w) {
    pids[w] = fork();
    if (pids[w] == 0) {
      cache_init(1ull << 25);
      item_stack st = {};
      u64 counter = 0;
      while (!R->violated && !R->capped) {
        u64 i = __sync_fetch_and_add(&R->next_item, 1);
        if (i >= items->n) break;
        // Spread neighbouring items over workers.
        u64 k = i;
        nprefix = items->it[k].n;
        memcpy(prefix, items->it[k].d, sizeof(deviation) * nprefix);
        expand(s, st);
        while (st.n && !R->violated) {
          work_item it = st.a[--st.n];
          load(it);
          __real_free(it.d);
          expand(s, st);
          if ((++counter & 63) == 0 && now() > deadline) {
            R->capped = 1;
            break;
          }
        }
        if (R->capped) break;
      }
      __sync_fetch_and_add(&R->states, cache_n);
      _exit(0);
    }
  }
  int rc = 0;
  for (int w = 0; w < workers; ++w) {
    waitpid(pids[w], &status, 0);
    if (!WIFEXITED(status) || (WEXITSTATUS(status) != 0 && WEXITSTATUS(status) != 7)) rc = 3;
  }
  munmap(items, sizeof(shared_items));
  if (R->violated) return 1;
  return rc;
}

// Runs one schedule in a child, returns 1 if it violates.
int replay(const mc::scenario& s, const deviation* d, int n, bool verb) {
  memset(R, 0, sizeof(*R));
  pid_t pid = fork();
  if (pid == 0) {
    nprefix = n;
    memcpy(prefix, d, sizeof(deviation) * n);
    replaying = true;
    verbose = verb;
    bound = 1000;
    run_execution(s);
    _exit(0);
  }
  int status;
  waitpid(pid, &status, 0);
  if (R->violated) return 1;
  if (R->error) return 3;
  return WIFEXITED(status) && WEXITSTATUS(status) == 0 ? 0 : 3;
}

}  // namespace

namespace mc {

// Usage: prog run --tier quick|thorough --out STATS.json --replay-dir DIR --budget SECONDS [--only NAME] [--bound N]
//        prog replay FILE [-v]
int main_driver(int argc, char** argv, const scenario* scenarios, int n) {
  const char* tier = "quick";
  const char* out = nullptr;
  const char* rdir = ".";
  const char* only = nullptr;
  double budget = 60;
  int force_bound = -1;
  int workers = 8;
  if (const char* j = getenv("VERIF_JOBS")) workers = atoi(j);
  init_memory();
  if (argc >= 3 && !strcmp(argv[1], "replay")) {
    FILE* f = fopen(argv[2], "r");
    char name[256], prop[64];
    int nd, spur;
    if (!f || fscanf(f, "property %63s scenario %255s spurious %d deviations %d", prop, name, &spur, &nd) != 4) {
      fprintf(stderr, "cannot read %s\n", argv[2]);
      return 3;
    }
    spurious = spur;
    deviation d[MAX_DEV];
    for (int i = 0; i < nd; ++i) {
      unsigned a, b, c, e;
      if (fscanf(f, "%u %u %u %u", &a, &b, &c, &e) != 4) return 3;
      d[i].point = a;
      d[i].choice = b;
      d[i].cost = c;
      d[i].check = e;
    }
    for (int i = 0; i < n; ++i)
      if (!strcmp(name, scenarios[i].name)) {
        int rc = replay(scenarios[i], d, nd, argc >= 4);
        printf("%s: %s\n", name, rc == 1 ? R->msg : rc == 0 ? "no violation" : "error");
        return rc;
      }
    return 3;
  }
  const char* prop = "?";
  for (int i = 2; i + 1 < argc; i += 2) {
    if (!strcmp(argv[i], "--tier")) tier = argv[i + 1];
    else if (!strcmp(argv[i], "--out")) out = argv[i + 1];
    else if (!strcmp(argv[i], "--replay-dir")) rdir = argv[i + 1];
    else if (!strcmp(argv[i], "--only")) only = argv[i + 1];
    else if (!strcmp(argv[i], "--budget")) budget = atof(argv[i + 1]);
    else if (!strcmp(argv[i], "--bound")) force_bound = atoi(argv[i + 1]);
    else if (!strcmp(argv[i], "--property")) prop = argv[i + 1];
    else if (!strcmp(argv[i], "--spurious")) spurious = atoi(argv[i + 1]);
    else if (!strcmp(argv[i], "--nocache")) use_cache = !atoi(argv[i + 1]);
  }
  const bool thorough = !strcmp(tier, "thorough");
  double t0 = now();
  FILE* f = out ? fopen(out, "w") : nullptr;
  if (f) fprintf(f, "{\"scenarios\":[");
  int violations = 0, errors = 0;
  bool first = true;
  int count = 0, left = 0;
  for (int i = 0; i < n; ++i)
    if (!only || strstr(scenarios[i].name, only)) ++left;
  for (int i = 0; i < n; ++i) {
    const mc::scenario& s = scenarios[i];
    if (only && !strstr(s.name, only)) continue;
    int maxb = force_bound >= 0 ? force_bound : thorough ? s.bound_thorough : s.bound_quick;
    int completed = -1;
    u64 execs = 0, trans = 0, states = 0, outs = 0, prun = 0, maxp = 0;
    bool capped = false;
    double s0 = now();
    double share = (t0 + budget - s0) / left;
    --left;
    int rc = 0;
    // Iterate the bound: 0, 1, 2... only the last one is needed for coverage, the earlier ones find simple bugs first.
    for (int b = maxb > 1 ? 1 : maxb; b <= maxb; ++b) {
      bound = b;
      rc = explore(s, workers, s0 + share);
      execs += R->execs;
      trans += R->transitions;
      states = R->states;
      outs = R->outcomes > outs ? R->outcomes : outs;
      prun += R->pruned;
      maxp = R->npoints_max;
      if (rc) break;
      if (R->capped) {
        capped = true;
        break;
      }
      completed = b;
    }
    fprintf(stderr, "%-36s bound %d%s execs %lu transitions %lu states %lu outcomes %lu points %lu %.1fs\n", s.name,
        completed, capped ? " (capped)" : "", execs, trans, states, outs, maxp, now() - s0);
    if (rc == 1) {
      // Replay twice before reporting.
      char msg[4096];
      snprintf(msg, sizeof(msg), "%s", R->msg);
      deviation d[MAX_DEV];
      int nd = R->ndev;
      memcpy(d, R->dev, sizeof(deviation) * nd);
      // The schedule of a violation may not have used all deviations only if they come later; never the case.
      int r1 = replay(s, d, nd, false);
      char m1[4096];
      snprintf(m1, sizeof(m1), "%s", R->msg);
      int r2 = replay(s, d, nd, false);
      if (r1 != 1 || r2 != 1 || strcmp(m1, R->msg)) {
        fprintf(stderr, "violation of %s does not replay deterministically: %s (%d %d)\n", s.name, msg, r1, r2);
        ++errors;
      } else {
        char path[1024];
        snprintf(path, sizeof(path), "%s/%s-%s.sched", rdir, prop, s.name);
        FILE* g = fopen(path, "w");
        if (g) {
          fprintf(g, "property %s scenario %s spurious %d deviations %d\n", prop, s.name, spurious, nd);
          for (int k = 0; k < nd; ++k) fprintf(g, "%u %u %u %u\n", d[k].point, d[k].choice, d[k].cost, d[k].check);
          fprintf(g, "# %s\n", m1);
          fclose(g);
        }
        fprintf(stderr, "  violation: %s\n", m1);
        printf("VIOLATION property=%s replay=%s\n", prop, path);
        fflush(stdout);
        ++violations;
      }
    } else if (rc == 3) {
      fprintf(stderr, "  engine error: %s\n", R->msg);
      ++errors;
    }
    if (f) {
      fprintf(f,
          "%s{\"name\":\"%s\",\"bound_completed\":%d,\"bound_requested\":%d,\"capped\":%s,\"executions\":%lu,"
          "\"transitions\":%lu,\"states\":%lu,\"pruned\":%lu,\"outcomes\":%lu,\"max_points\":%lu,\"violation\":%s,"
          "\"wall_s\":%.2f}",
          first ? "" : ",", s.name, completed, maxb, capped ? "true" : "false", execs, trans, states, prun, outs, maxp,
          rc == 1 ? "true" : "false", now() - s0);
      first = false;
    }
    ++count;
    if (violations) break;  // one is enough
  }
  if (f) {
    fprintf(f, "],\"wall_s\":%.2f}\n", now() - t0);
    fclose(f);
  }
  if (violations) return 1;
  if (errors) return 3;
  return count ? 0 : 3;
}

}  // namespace mc
