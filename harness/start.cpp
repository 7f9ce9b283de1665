#include "vrt/vstd.h"
#include "kelcoro/kelcoro.hpp"
#include <memory>
#include <memory_resource>
#include <optional>
#include <system_error>
#include <vector>

using vrt::ev;
using vrt::kv;

namespace {

// tells when it runs and when its last copy is destroyed
struct item {
  int k;
  dd::thread_pool* ask;
  item(int k, dd::thread_pool* ask) : k(k), ask(ask) {
  }
  item(item&& o) noexcept : k(std::exchange(o.k, 0)), ask(o.ask) {
  }
  ~item() {
    if (k)
      ev("gone", kv("k", k));
  }
  void operator()() {
    ev("ran", kv("k", k));
    if (ask)
      ev("isw", kv("k", k), kv("ret", ask->is_worker()));
  }
};
// refuses at the n-th request; has its own storage
struct res : std::pmr::memory_resource {
  int at = 0;
  long out = 0;
  void* do_allocate(size_t n, size_t) override {
    vrt::untracked u;
    if (at && --at == 0) {
      ev("inject", kv("what", "alloc"));
      throw std::bad_alloc();
    }
    ++out;
    return ::operator new(n);
  }
  void do_deallocate(void* p, size_t, size_t) override {
    vrt::untracked u;
    --out;
    ::operator delete(p);
  }
  bool do_is_equal(const memory_resource& o) const noexcept override {
    return this == &o;
  }
};
struct env {
  res r;
  vrt::counter ks;
  std::optional<dd::thread_pool> pool;
  std::optional<dd::worker> worker;
  int p = 0;
};

template <typename F>
const char* attempt(F f) {
  try {
    f();
    return nullptr;
  } catch (const std::system_error& e) {
    return e.code() == std::errc::resource_unavailable_try_again ? "thread" : "other";
  } catch (const std::bad_alloc&) {
    return "alloc";
  } catch (...) {
    return "other";
  }
}

void schedule(env& e, vrt::rng& R, bool may_fail, bool ask = false) {
  int k = ++e.ks;
  bool pool = (bool)e.pool;
  int how = R.below(pool ? 3 : 2);
  int fail = may_fail && R.chance(35);
  ev("sched", kv("k", k), kv("p", e.p));
  {
    item it(k, ask && pool ? &*e.pool : nullptr);
    if (fail) {
      if (how == 2)
        e.r.at = 1;
      else
        vrt::fail_alloc(1);
    }
    const char* x = attempt([&] {
      switch (how) {
        case 0:
          if (pool)
            dd::schedule_to(*e.pool, std::move(it));
          else
            dd::schedule_to(*e.worker, std::move(it));
          break;
        case 1:
          if (pool) {
            dd::strand s = e.pool->get_strand((dd::operation_hash_t)R.below(5));
            dd::schedule_to(s, std::move(it));
          } else {
            dd::strand s(*e.worker);
            dd::schedule_to(s, std::move(it));
          }
          break;
        default:
          e.pool->schedule(std::move(it), (dd::operation_hash_t)R.below(5));
      }
    });
    vrt::fail_alloc(0);
    e.r.at = 0;
    if (x) {
      {
        item last(std::move(it));  // if it was not moved away
      }
      ev("sched_x", kv("k", k), kv("what", x));
      return;
    }
  }
  ev("sched_e", kv("k", k));
}

void session(env& e, vrt::rng& R, int what, int at) {
  e.p++;
  bool pool = R.chance(80);
  int n = pool ? R.below(5) : 1;
  bool own = R.chance(50);
  long before = vrt::live_blocks();
  ev("make", kv("p", e.p), kv("n", n));
  if (what == 1)
    vrt::fail_thread_creation(at);
  else if (what == 2)
    vrt::fail_alloc(at);
  else if (what == 3 && own)
    e.r.at = at;
  const char* x = attempt([&] {
    if (!pool)
      e.worker.emplace();
    else if (own)
      e.pool.emplace((size_t)n, dd::default_worker_job, e.r);
    else
      e.pool.emplace((size_t)n);
  });
  vrt::fail_thread_creation(0);
  vrt::fail_alloc(0);
  e.r.at = 0;
  if (x) {
    ev("fail", kv("p", e.p), kv("what", x), kv("left", vrt::live_blocks() - before));
    return;
  }
  ev("made", kv("p", e.p));
  // is_worker looks at the threads, so it is not for the time when the pool joins them
  bool wait = R.chance(50);
  if (pool && R.chance(70)) {
    bool all = true, in = true;
    std::vector<std::thread::id> ids;
    for (std::thread& t : e.pool->workers_range()) {
      all = all && e.pool->is_worker(t.get_id());
      for (auto id : ids)
        all = all && id != t.get_id();
      ids.push_back(t.get_id());
    }
    auto qs = e.pool->queues_range();
    for (int h = 0; h < 3; h++) {
      dd::operation_hash_t x = (dd::operation_hash_t)R.below(100);
      auto* q = &e.pool->get_strand(x).get_queue();
      in = in && q >= qs.data() && q < qs.data() + qs.size() && q == &e.pool->get_strand(x).get_queue();
    }
    ev("shape", kv("p", e.p), kv("ws", ids.size()), kv("qs", qs.size()), kv("all", all && in),
       kv("me", e.pool->is_worker() || e.pool->is_worker(std::thread::id())));
  }
  int m = R.below(6);
  for (int i = 0; i < m; i++)
    schedule(e, R, true, wait);
  if (wait) {
    vrt::wait_quiescent();
    ev("allran", kv("p", e.p));
    if (R.chance(30))
      schedule(e, R, true);
  }
  ev("destroy", kv("p", e.p));
  e.pool.reset();
  e.worker.reset();
  ev("destroyed", kv("p", e.p), kv("left", vrt::live_blocks() - before));
}

}  // namespace

SCENARIO(start) {
  env* e = new (vrt::halloc(sizeof(env))) env;
  // what fails, and when, is gone through systematically
  int what = variant % 4, at = 1 + (variant / 4) % 7;
  session(*e, R, what, at);
  session(*e, R, R.below(4), 1 + R.below(8));
  if (R.chance(50))
    session(*e, R, 0, 0);
}
