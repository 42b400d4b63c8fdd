// C01, C02: thread pool under every interleaving.
#include <atomic>
#include <cstdio>
#include <functional>
#include <limits>
#include <thread>
#include <vector>

#include "engine.h"
#include "slinky/base/thread_pool_impl.h"

using namespace slinky;
using mc::check;

namespace {

constexpr int inf = std::numeric_limits<int>::max();

// Bookkeeping for one loop. Methods run as harness bookkeeping: no scheduling points, no race detection.
struct monitor {
  int ran[16] = {};
  int finished[16] = {};
  int active = 0, max_active = 0;
  int order[16];
  int n_order = 0;
  // Plain data written by the body and read by the waiter: caught by the race detector if not ordered.
  int data[16] = {};

  void begin(std::size_t i) {
    mc::event(this);
    mc::quiet q;
    check(i < 16, "index out of range");
    ran[i]++;
    check(ran[i] == 1, "an item ran twice");
    order[n_order++] = (int)i;
    if (++active > max_active) max_active = active;
  }
  void end(std::size_t i) {
    mc::event(this);
    mc::quiet q;
    finished[i]++;
    --active;
  }
  void body(std::size_t i) {
    begin(i);
    data[i] += (int)i + 1;
    end(i);
  }
  void complete(int n) {
    for (int i = 0; i < n; ++i) {
      check(ran[i] == 1, "an item did not run exactly once before the wait returned");
      check(finished[i] == 1, "the wait returned before an item finished");
      check(data[i] == i + 1, "the effect of an item is not visible");
    }
    for (int i = n; i < 16; ++i) check(ran[i] == 0, "an item outside of the range ran");
    uint64_t h = max_active;
    for (int i = 0; i < n_order; ++i) h = h * 17 + order[i];
    mc::outcome(h);
  }
  void limit(int k) { check(max_active <= k, "more bodies ran at once than the worker limit"); }
  void increasing() {
    for (int i = 0; i < n_order; ++i) check(order[i] == i, "items of a single worker loop ran out of order");
  }
};

template <int Workers, int N, int Limit>
void pfor() {
  monitor m;
  {
    thread_pool_impl pool(Workers);
    pool.parallel_for(N, [&](std::size_t i) { m.body(i); }, Limit);
    m.complete(N);
    if (Limit != inf) m.limit(Limit);
    if (Limit == 1) m.increasing();
  }
  m.complete(N);
}

template <int Workers, int N, int Limit>
void enq() {
  monitor m;
  thread_pool_impl pool(Workers);
  auto t = pool.enqueue(N, [&](std::size_t i) { m.body(i); }, Limit);
  pool.wait_for(&*t);
  check(t->done(), "not done after wait");
  m.complete(N);
  if (Limit != inf) m.limit(Limit);
  if (Limit == 1) m.increasing();
}

// Two loops in sequence reuse the pool.
void two_loops() {
  monitor m, m2;
  thread_pool_impl pool(1);
  pool.parallel_for(2, [&](std::size_t i) { m.body(i); });
  m.complete(2);
  pool.parallel_for(3, [&](std::size_t i) { m2.body(i); }, 2);
  m2.complete(3);
  m2.limit(2);
}

// Two tasks at the same time, waited for in both orders.
template <bool Reverse>
void two_tasks() {
  monitor m, m2;
  thread_pool_impl pool(1);
  auto a = pool.enqueue(2, [&](std::size_t i) { m.body(i); });
  auto b = pool.enqueue(2, [&](std::size_t i) { m2.body(i); }, 1);
  if (Reverse) {
    pool.wait_for(&*b);
    m2.complete(2);
    pool.wait_for(&*a);
    m.complete(2);
  } else {
    pool.wait_for(&*a);
    m.complete(2);
    pool.wait_for(&*b);
    m2.complete(2);
  }
  m2.limit(1);
  m2.increasing();
}

void nested() {
  monitor outer, inner[2];
  thread_pool_impl pool(1);
  pool.parallel_for(2, [&](std::size_t i) {
    outer.begin(i);
    pool.parallel_for(2, [&, i](std::size_t j) { inner[i].body(j); });
    inner[i].complete(2);
    outer.data[i] += (int)i + 1;
    outer.end(i);
  });
  outer.complete(2);
}

void nested_limited() {
  monitor outer, inner[2];
  thread_pool_impl pool(1);
  pool.parallel_for(2, [&](std::size_t i) {
    outer.begin(i);
    auto t = pool.enqueue(2, [&, i](std::size_t j) { inner[i].body(j); }, 1);
    pool.wait_for(&*t);
    inner[i].complete(2);
    inner[i].limit(1);
    inner[i].increasing();
    outer.data[i] += (int)i + 1;
    outer.end(i);
  }, 2);
  outer.complete(2);
}

// External threads that use a pool without workers of its own.
void external_worker() {
  monitor m;
  thread_pool_impl pool(0);
  pool.expect_workers(2);
  bool stop = false;
  std::thread t([&]() { pool.run_worker([&]() { return stop; }); });
  pool.parallel_for(3, [&](std::size_t i) { m.body(i); }, 2);
  m.complete(3);
  m.limit(2);
  pool.atomic_call([&]() { stop = true; });
  t.join();
}

void two_external() {
  monitor m[2];
  thread_pool_impl pool(0);
  pool.expect_workers(2);
  auto work = [&](int k) {
    pool.parallel_for(2, [&, k](std::size_t i) { m[k].body(i); });
    m[k].complete(2);
  };
  std::thread t([&]() { work(1); });
  work(0);
  t.join();
}

// ---- C02

// Two threads wait for the same task; whoever finishes last must wake the other.
template <int N, int Limit>
void two_waiters() {
  monitor m;
  thread_pool_impl pool(0);
  auto task = pool.enqueue(N, [&](std::size_t i) { m.body(i); }, Limit);
  std::thread t([&]() {
    pool.wait_for(&*task);
    m.complete(N);
  });
  pool.wait_for(&*task);
  m.complete(N);
  t.join();
}

// A thread waits for a condition on a task completed by another thread, which runs it from its own wait.
void wait_done_condition() {
  monitor m;
  thread_pool_impl pool(0);
  auto task = pool.enqueue(1, [&](std::size_t i) { m.body(i); });
  std::thread t([&]() {
    pool.wait_for([&]() { return task->done(); });
    m.complete(1);
  });
  pool.wait_for(&*task);
  m.complete(1);
  t.join();
}

void condition_atomic_call() {
  thread_pool_impl pool(0);
  int x = 0;  // protected by the atomicity of conditions and atomic calls
  std::thread t([&]() { pool.atomic_call([&]() { x = 1; }); });
  pool.wait_for([&]() { return x == 1; });
  t.join();
}

// Conditions with side effects: tokens are consumed exactly once.
void semaphores() {
  thread_pool_impl pool(0);
  int tokens = 0, taken = 0, inside = 0;
  auto consume = [&]() {
    pool.wait_for([&]() {
      {
        mc::quiet q;
        check(inside == 0, "conditions are not mutually exclusive");
        inside = 1;
      }
      mc::event(&inside);
      bool r = tokens > 0;
      if (r) {
        --tokens;
        ++taken;
      }
      {
        mc::quiet q;
        inside = 0;
      }
      return r;
    });
  };
  std::thread t1(consume);
  std::thread t2([&]() {
    for (int i = 0; i < 2; ++i) {
      pool.atomic_call([&]() {
        {
          mc::quiet q;
          check(inside == 0, "atomic calls are not exclusive");
          inside = 1;
        }
        mc::event(&inside);
        ++tokens;
        {
          mc::quiet q;
          inside = 0;
        }
      });
    }
  });
  consume();
  t1.join();
  t2.join();
  check(tokens == 0 && taken == 2, "tokens were lost or duplicated");
}

// Ping pong between a task and the waiter.
void ping_pong() {
  thread_pool_impl pool(1);
  int a = 0, b = 0;
  auto task = pool.enqueue([&]() {
    pool.wait_for([&]() { return a == 1; });
    pool.atomic_call([&]() { b = 1; });
  });
  pool.atomic_call([&]() { a = 1; });
  pool.wait_for([&]() { return b == 1; });
  pool.wait_for(&*task);
  check(task->done(), "done");
}

void run_worker_condition() {
  monitor m;
  thread_pool_impl pool(0);
  bool stop = false;
  std::thread t([&]() { pool.run_worker([&]() { return stop; }); });
  auto task = pool.enqueue(2, [&](std::size_t i) { m.body(i); });
  pool.wait_for(&*task);
  m.complete(2);
  pool.atomic_call([&]() { stop = true; });
  t.join();
}

void work_until_idle() {
  monitor m;
  thread_pool_impl pool(0);
  auto task = pool.enqueue(2, [&](std::size_t i) { m.body(i); });
  std::thread t([&]() { pool.work_until_idle(); });
  pool.wait_for([&]() { return task->done(); });
  m.complete(2);
  t.join();
}

// Work that only another thread's helping can run: the waiter enters before the work is enqueued.
void late_enqueue() {
  monitor m;
  thread_pool_impl pool(1);
  std::thread t([&]() {
    auto task = pool.enqueue(2, [&](std::size_t i) { m.body(i); });
    pool.wait_for([&]() { return task->done(); });
    m.complete(2);
  });
  t.join();
}

// An enqueued task must be picked up by a sleeping worker, the enqueuing thread only polls a condition without helping.
void worker_wakes() {
  monitor m;
  int flag = 0;
  thread_pool_impl pool(1);
  auto task = pool.enqueue(1, [&](std::size_t i) {
    m.body(i);
    pool.atomic_call([&]() { flag = 1; });
  });
  pool.wait_for([&]() { return flag == 1; });
  m.complete(1);
}

// The enqueuing thread never helps: it joins a thread that is told by the task.
void worker_wakes2() {
  monitor m;
  thread_pool_impl pool(1);
  std::atomic<int> done{0};
  auto task = pool.enqueue(2, [&](std::size_t i) {
    m.body(i);
    done++;
  }, 2);
  while (done.load() < 2) std::this_thread::yield();
  m.complete(2);
}

// Three threads: two wait for the same loop, a third completes it.
void two_helpers() {
  monitor m;
  thread_pool_impl pool(0);
  bool go = false;
  auto task = pool.enqueue(1, [&](std::size_t i) {
    pool.wait_for([&]() { return go; });
    m.body(i);
  });
  auto wait = [&]() { pool.wait_for([&]() { return task->done(); }); };
  std::thread t1(wait), t2(wait);
  pool.atomic_call([&]() { go = true; });
  wait();
  t1.join();
  t2.join();
  m.complete(1);
}

// Two threads wait for different conditions, which become true one after the other.
void two_conditions() {
  thread_pool_impl pool(0);
  int x = 0;
  std::thread t1([&]() { pool.wait_for([&]() { return x >= 1; }); });
  std::thread t2([&]() { pool.wait_for([&]() { return x >= 2; }); });
  pool.atomic_call([&]() { x = 2; });
  t2.join();
  t1.join();
}

void two_run_workers() {
  thread_pool_impl pool(0);
  int x = 0;
  std::thread t1([&]() { pool.run_worker([&]() { return x >= 1; }); });
  std::thread t2([&]() { pool.run_worker([&]() { return x >= 1; }); });
  pool.atomic_call([&]() { x = 1; });
  t2.join();
  t1.join();
  check(pool.thread_count() == 0, "workers are still counted after they left");
}

// The only thread that can run the task sleeps on a condition when the task is enqueued.
void helper_wakes_on_enqueue() {
  monitor m;
  thread_pool_impl pool(0);
  int flag = 0;
  std::thread t([&]() { pool.wait_for([&]() { return flag == 1; }); });
  auto task = pool.enqueue(1, [&](std::size_t i) {
    m.body(i);
    pool.atomic_call([&]() { flag = 1; });
  });
  t.join();
  m.complete(1);
}
void worker_wakes_on_enqueue() {
  monitor m;
  thread_pool_impl pool(0);
  int flag = 0;
  std::thread t([&]() { pool.run_worker([&]() { return flag == 1; }); });
  auto task = pool.enqueue(1, [&](std::size_t i) {
    m.body(i);
    pool.atomic_call([&]() { flag = 1; });
  });
  t.join();
  m.complete(1);
}
// Two sleeping workers, a loop whose first item waits for the second: both must wake up.
void two_workers_wake() {
  thread_pool_impl pool(0);
  bool flag = false, stop = false;
  auto work = [&]() { pool.run_worker([&]() { return stop; }); };
  std::thread t1(work), t2(work);
  auto task = pool.enqueue(2, [&](std::size_t i) {
    if (i == 0) {
      pool.wait_for([&]() { return flag; });
      pool.atomic_call([&]() { stop = true; });
    } else {
      pool.atomic_call([&]() { flag = true; });
    }
  }, 2);
  t1.join();
  t2.join();
}
void helpers_wake_on_enqueue() {
  monitor m;
  thread_pool_impl pool(0);
  int flag = 0;
  auto wait = [&]() { pool.wait_for([&]() { return flag == 2; }); };
  std::thread t1(wait), t2(wait);
  auto task = pool.enqueue(2, [&](std::size_t i) {
    m.begin(i);
    m.data[i] += i + 1;
    // Both items have to be started before either finishes: two threads are needed.
    pool.atomic_call([&]() { ++flag; });
    m.end(i);
  }, 2);
  t1.join();
  t2.join();
  m.complete(2);
}

// A worker and a helper sleep; a limited loop of two cooperating items needs both.
void both_wake() {
  thread_pool_impl pool(0);
  int started = 0;
  bool stop = false;
  std::thread w([&]() { pool.run_worker([&]() { return stop; }); });
  auto task = pool.enqueue(2, [&](std::size_t) {
    pool.atomic_call([&]() { ++started; });
    pool.wait_for([&]() { return started == 2; });
  }, 2);
  pool.wait_for(&*task);
  pool.atomic_call([&]() { stop = true; });
  w.join();
}

void ctor_dtor() { thread_pool_impl pool(2); }
void ctor_dtor_init() {
  std::atomic<int> n{0};
  {
    thread_pool_impl pool(1, [&]() { n++; });
  }
  check(n == 1, "the worker's init function did not run exactly once");
}

// A loop whose bodies wait for each other through conditions needs as many workers as promised.
void cooperating_items() {
  thread_pool_impl pool(1);
  int turn = 0;
  pool.parallel_for(2, [&](std::size_t i) {
    // Items are started in order: item 1 waits for item 0.
    if (i == 1) pool.wait_for([&]() { return turn == 1; });
    pool.atomic_call([&]() { turn++; });
  }, 2);
  check(turn == 2, "both items ran");
}

}  // namespace

#ifdef PROP_C01
#define PROP "C01"
static const mc::scenario scenarios[] = {
    {"pfor_w1_n3", pfor<1, 3, inf>, 3, 4},
    {"pfor_w1_n10", pfor<1, 10, inf>, 2, 4},
    {"pfor_w2_n3_max2", pfor<2, 3, 2>, 2, 3},
    {"pfor_w2_n4", pfor<2, 4, inf>, 2, 3},
    {"pfor_w1_n2_max1", pfor<1, 2, 1>, 3, 5},
    {"pfor_w1_n1", pfor<1, 1, inf>, 3, 5},
    {"enq_w0_n3", enq<0, 3, inf>, 2, 3},
    {"enq_w1_n3_max1", enq<1, 3, 1>, 3, 4},
    {"enq_w2_n2_max1", enq<2, 2, 1>, 2, 3},
    {"enq_w2_n3_max2", enq<2, 3, 2>, 2, 3},
    {"enq_w1_n9", enq<1, 9, inf>, 2, 4},
    {"two_loops", two_loops, 2, 4},
    {"two_tasks", two_tasks<false>, 2, 4},
    {"two_tasks_reverse", two_tasks<true>, 2, 4},
    {"nested", nested, 2, 4},
    {"nested_limited", nested_limited, 2, 4},
    {"two_external", two_external, 3, 4},
    {"external_worker", external_worker, 2, 4},
};
#else
#define PROP "C02"
static const mc::scenario scenarios[] = {
    {"ctor_dtor", ctor_dtor, 2, 3},
    {"ctor_dtor_init", ctor_dtor_init, 3, 5},
    {"two_waiters_n1", two_waiters<1, inf>, 3, 5},
    {"two_waiters_n2", two_waiters<2, inf>, 3, 5},
    {"two_waiters_n2_max1", two_waiters<2, 1>, 3, 5},
    {"wait_done_condition", wait_done_condition, 3, 5},
    {"condition_atomic_call", condition_atomic_call, 3, 5},
    {"semaphores", semaphores, 2, 3},
    {"two_helpers", two_helpers, 2, 3},
    {"two_conditions", two_conditions, 2, 3},
    {"two_run_workers", two_run_workers, 2, 3},
    {"helper_wakes_on_enqueue", helper_wakes_on_enqueue, 3, 5},
    {"worker_wakes_on_enqueue", worker_wakes_on_enqueue, 3, 5},
    {"two_workers_wake", two_workers_wake, 2, 3},
    {"helpers_wake_on_enqueue", helpers_wake_on_enqueue, 2, 3},
    {"both_wake", both_wake, 3, 5},
    {"ping_pong", ping_pong, 3, 5},
    {"run_worker_condition", run_worker_condition, 3, 5},
    {"work_until_idle", work_until_idle, 3, 5},
    {"late_enqueue", late_enqueue, 2, 3},
    {"worker_wakes", worker_wakes, 3, 5},
    {"worker_wakes2", worker_wakes2, 2, 3},
    {"cooperating_items", cooperating_items, 3, 5},
    {"nested", nested, 2, 4},
    {"nested_limited", nested_limited, 2, 4},
    {"pfor_w2_n3", pfor<2, 3, inf>, 2, 3},
    {"two_tasks", two_tasks<false>, 2, 4},
};
#endif

int main(int argc, char** argv) {
  return mc::main_driver(argc, argv, scenarios, sizeof(scenarios) / sizeof(scenarios[0]));
}
