#include "vrt/vstd.h"
#include "kelcoro/async_task.hpp"
#include "kelcoro/thread_pool.hpp"
#include "kelcoro/kelcoro.hpp"
#include <memory>
#include <string>
#include <vector>
#include <map>

using vrt::ev;
using vrt::kv;

namespace {

struct my_exc {
  int v;
  std::string pad = "                                ";
};

struct payload {
  std::string s;
  explicit payload(int v) : s(std::to_string(v) + "                    ") {
  }
  payload(payload&& o) noexcept : s(std::move(o.s)) {
    o.s = "-1";
  }
  payload& operator=(payload&&) = delete;
};

// lives in the coroutine frame
struct guard {
  int c;
  explicit guard(int c) : c(c) {
  }
  guard(guard&& o) noexcept : c(std::exchange(o.c, 0)) {
  }
  ~guard() {
    if (c)
      ev("free", kv("c", c));
  }
};

// how a body moves on: 0 stays, 1 pool, 2 new thread, 3 a harness thread resumes it
struct body {
  int c = 0;
  int hops[3] = {0, 0, 0};
  int nhops = 0;
  bool fails = false;
};

struct env {
  std::unique_ptr<dd::thread_pool> pool;
  std::mutex m;
  std::vector<std::coroutine_handle<>> parked;
  std::vector<int> parked_c;
  int data[32] = {};
  int ints[32] = {};
  std::atomic<int> unfinished = 0;
  int* fin_t;  // thread which ended the body, when it stays on it
};

struct park {
  env& x;
  int c;
  bool await_ready() {
    return false;
  }
  void await_suspend(std::coroutine_handle<> h) {
    std::lock_guard l(x.m);
    x.parked.push_back(h);
    x.parked_c.push_back(c);
  }
  void await_resume() {
  }
};

template <typename R>
struct result_of {
  static payload make(env&, int c) {
    return payload(c * 10);
  }
  static int read(payload& p) {
    return atoi(p.s.c_str());
  }
};
template <>
struct result_of<int&> {
  static int& make(env& x, int c) {
    x.ints[c] = c * 10;
    return x.ints[c];
  }
  static int read(int& p) {
    return p;
  }
};
template <>
struct result_of<std::unique_ptr<int>> {
  static std::unique_ptr<int> make(env&, int c) {
    return std::make_unique<int>(c * 10);
  }
  static int read(std::unique_ptr<int>& p) {
    return p ? *p : -1;
  }
};

#define HOPS                                   \
  ev("start", kv("c", b.c));                   \
  for (int i = 0; i < b.nhops; i++) {          \
    switch (b.hops[i]) {                       \
      case 1:                                  \
        (void)co_await dd::jump_on(*x.pool);   \
        break;                                 \
      case 2:                                  \
        (void)co_await dd::jump_on(dd::new_thread_executor); \
        break;                                 \
      case 3:                                  \
        co_await park{x, b.c};                 \
        break;                                 \
      default:                                 \
        break;                                 \
    }                                          \
    ev("step", kv("c", b.c));                  \
  }                                            \
  x.data[b.c] = b.c * 10;                      \
  x.fin_t[b.c] = vrt::self();                  \
  --x.unfinished;                              \
  ev("fin", kv("c", b.c), kv("kind", b.fails ? "exc" : "val"), kv("v", b.c * 10)); \
  if (b.fails)                                 \
    throw my_exc{b.c * 10};

template <typename R, typename Task>
Task run(env& x, body b, guard) {
  HOPS
  co_return result_of<R>::make(x, b.c);
}
template <>
[[maybe_unused]] dd::async_task<void> run<void, dd::async_task<void>>(env& x, body b, guard) {
  HOPS
}

template <typename R, typename Task>
struct consumer {
  env& x;
  struct slot {
    int h = 0;
    int c = 0;
    Task t;
  };
  std::vector<std::unique_ptr<slot>> slots;
  int next_h;

  consumer(env& x, int base) : x(x), next_h(base) {
  }
  void create(body b) {
    auto s = std::make_unique<slot>();
    s->h = next_h++;
    s->c = b.c;
    Task t = run<R, Task>(x, b, guard(b.c));
    ev("made", kv("h", s->h), kv("c", b.c));
    if (x.fin_t[b.c] == vrt::self() && !b.nhops)
      ev("over", kv("c", b.c));
    s->t = std::move(t);
    slots.push_back(std::move(s));
  }
  void nothing() {
    auto s = std::make_unique<slot>();
    s->h = next_h++;
    ev("empty_handle", kv("h", s->h));
    slots.push_back(std::move(s));
  }
  void wait(slot& s) {
    ev("wait_b", kv("h", s.h));
    s.t.wait();
    ev("wait_e", kv("h", s.h));
    if (s.c && x.data[s.c] != s.c * 10)
      ev("stale", kv("c", s.c));
  }
  void get(slot& s) {
    ev("get_b", kv("h", s.h));
    try {
      if constexpr (std::is_void_v<R>) {
        s.t.get();
        ev("get_e", kv("h", s.h), kv("kind", "val"), kv("v", s.c * 10));
      } else {
        auto&& r = s.t.get();
        ev("get_e", kv("h", s.h), kv("kind", "val"), kv("v", result_of<R>::read(r)));
      }
    } catch (my_exc& e) {
      ev("get_e", kv("h", s.h), kv("kind", "exc"), kv("v", e.v));
    }
    if (s.c && x.data[s.c] != s.c * 10)
      ev("stale", kv("c", s.c));
  }
  void step(vrt::rng& R_) {
    if (slots.empty())
      return;
    size_t i = (size_t)R_.below((int)slots.size());
    slot& s = *slots[i];
    switch (R_.below(9)) {
      case 0:
        wait(s);
        break;
      case 1:
      case 2:
        if (!s.t.empty())
          get(s);
        break;
      case 3: {
        ev("ready_b", kv("h", s.h));
        bool r = s.t.ready();
        ev("ready_e", kv("h", s.h), kv("ret", r));
        break;
      }
      case 4: {
        ev("go_b", kv("h", s.h));
        s.t.detach();
        ev("go_e", kv("h", s.h), kv("gone", 0));
        s.c = 0;
        break;
      }
      case 5: {
        ev("go_b", kv("h", s.h));
        int h = s.h;
        slots.erase(slots.begin() + (long)i);
        ev("go_e", kv("h", h), kv("gone", 1));
        break;
      }
      case 6: {
        auto n = std::make_unique<slot>(slot{next_h++, std::exchange(s.c, 0), std::move(s.t)});
        ev("move", kv("h", s.h), kv("g", n->h));
        slots.push_back(std::move(n));
        break;
      }
      case 7: {
        slot& o = *slots[(size_t)R_.below((int)slots.size())];
        int how = R_.below(3);
        if (&o == &s)
          break;
        if (how == 0)
          s.t.swap(o.t);
        else if (how == 1) {
          using std::swap;
          swap(s.t, o.t);
        } else
          s.t = std::move(o.t);
        std::swap(s.c, o.c);
        ev("swap", kv("h", s.h), kv("g", o.h));
        break;
      }
      default:
        ev("is_empty", kv("h", s.h), kv("ret", s.t.empty() && !s.t));
    }
  }
  void finish() {
    while (!slots.empty()) {
      int h = slots.back()->h;
      ev("go_b", kv("h", h));
      slots.pop_back();
      ev("go_e", kv("h", h), kv("gone", 1));
    }
  }
};

template <typename Ret, typename Task>
void program(vrt::rng& R) {
  env x;
  x.fin_t = (int*)vrt::halloc(sizeof(int) * 32);
  x.pool = std::make_unique<dd::thread_pool>(size_t(1));
  int C = 1 + R.below(2);
  int id = 1;
  std::vector<std::vector<body>> bodies(C);
  int n = 1 + R.below(3);
  bool parks = false;
  for (int i = 0; i < n; i++) {
    body b;
    b.c = id++;
    b.nhops = R.chance(25) ? 0 : 1 + R.below(3);
    for (int& h : b.hops)
      h = R.below(10) < 4 ? 1 : R.below(3) + 1;
    int newt = 0;
    for (int k = 0; k < b.nhops; k++) {
      if (b.hops[k] == 2 && newt++)
        b.hops[k] = 1;
      parks |= b.hops[k] == 3;
    }
    b.fails = R.chance(35);
    bodies[R.below(C)].push_back(b);
  }
  x.unfinished = n;
  std::vector<consumer<Ret, Task>> cs;
  for (int i = 0; i < C; i++)
    cs.emplace_back(x, 100 * (i + 1));
  bool main_creates = R.chance(30);
  if (main_creates)
    for (int i = 0; i < C; i++)
      for (auto& b : bodies[i])
        cs[i].create(b);
  std::vector<int> th;
  if (parks)
    th.push_back(vrt::spawn([&] {
      for (;;) {
        std::coroutine_handle<> h = nullptr;
        int c = 0;
        bool stop = x.unfinished == 0;
        {
          std::lock_guard l(x.m);
          if (!x.parked.empty()) {
            h = x.parked.back();
            c = x.parked_c.back();
            x.parked.pop_back();
            x.parked_c.pop_back();
          }
        }
        if (h) {
          h.resume();
          vrt::untracked u;
          if (x.fin_t[c] == vrt::self())
            ev("over", kv("c", c));
        } else if (stop)
          return;
        else
          vrt::yield_point();
      }
    }));
  for (int i = 0; i < C; i++)
    th.push_back(vrt::spawn([&, i, seed = R.next(), ops = 2 + R.below(6), leave = R.chance(30)] {
      vrt::rng r{seed};
      auto& c = cs[i];
      if (!main_creates)
        for (auto& b : bodies[i])
          c.create(b);
      if (r.chance(30))
        c.nothing();
      for (int k = 0; k < ops; k++)
        c.step(r);
      if (!leave)
        c.finish();
    }));
  for (int t : th)
    vrt::join(t);
  vrt::wait_quiescent();
  ev("quiet");
  for (auto& c : cs) {
    for (auto& s : c.slots)
      if (!s->t.empty()) {
        c.wait(*s);
        c.get(*s);
      }
    c.finish();
  }
  cs.clear();
  x.pool.reset();
}

}  // namespace

SCENARIO(async_val) {
  program<payload, dd::async_task<payload>>(R);
}
SCENARIO(async_other) {
  switch (variant % 4) {
    case 0:
      program<void, dd::async_task<void>>(R);
      break;
    case 1:
      program<int&, dd::async_task<int&>>(R);
      break;
    case 2:
      program<std::unique_ptr<int>, dd::async_task<std::unique_ptr<int>>>(R);
      break;
    default:
      program<payload, dd::pmr::async_task<payload>>(R);
  }
}
