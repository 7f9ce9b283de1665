#include "vrt/vstd.h"
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <optional>
#include <exception>
#include <functional>
#include "kelcoro/task.hpp"
#include "kelcoro/algorithm.hpp"
#include "kelcoro/thread_pool.hpp"
#include "kelcoro/kelcoro.hpp"

using vrt::ev;
using vrt::kv;

namespace {

struct my_exc {
  int v;
  std::string pad = "                                ";
};

struct payload {
  std::string s = "-1";
  payload() = default;
  explicit payload(int v) : s(std::to_string(v) + "                    ") {
  }
  payload(payload&& o) noexcept : s(std::move(o.s)) {
    o.s = "-2";
  }
  payload& operator=(payload&& o) noexcept {
    s = std::move(o.s);
    o.s = "-3";
    return *this;
  }
};

// lives in the coroutine frame
struct guard {
  int k;
  explicit guard(int k) : k(k) {
  }
  guard(guard&& o) noexcept : k(std::exchange(o.k, 0)) {
  }
  ~guard() {
    if (k)
      ev("free", kv("k", k));
  }
};

struct registry {
  std::map<void*, int> who;
  void add(void* p, int id) {
    vrt::untracked u;
    who[p] = id;
  }
  int find(void* p) {
    vrt::untracked u;
    auto i = who.find(p);
    return i == who.end() ? -1 : i->second;
  }
};
registry* reg;

struct ctx {
  int id = 0;
  template <typename O, typename T>
  static void on_owner_setted(std::coroutine_handle<O> o, std::coroutine_handle<T> t) noexcept {
    ev("owner", kv("k", t.promise().ctx.id), kv("by", reg->find(o.address())));
  }
  template <typename T>
  static void on_start(std::coroutine_handle<T> t) noexcept {
    ev("cstart", kv("k", t.promise().ctx.id));
  }
  template <typename T>
  static void on_end(std::coroutine_handle<T> t) noexcept {
    ev("cend", kv("k", t.promise().ctx.id));
  }
};

enum { op_hop, op_await, op_wait_await, op_await_twice, op_move_await, op_drop, op_sad, op_sad_stop, op_assign, op_who, op_all, op_any, op_any_keep };

struct script;
struct op {
  int what;
  int arg = 0;  // hop
  std::vector<int> kids;
};
struct script {
  int k = 0;
  std::vector<op> ops;
  bool fails = false;
  int place = 0;  // 1 returns through its return place
  bool pre = false;  // is awaited before it is given to a group or detached
};

struct env {
  std::unique_ptr<dd::thread_pool> pool;
  std::mutex m;
  std::vector<std::coroutine_handle<>> parked;
  std::map<int, std::vector<std::coroutine_handle<>>> gated;  // continue when their group is gone
  int gates = 0;
  std::vector<script> sc;  // by id
  int data[400] = {};
  int ints[400] = {};
  std::atomic<int> left = 0;  // harness activities
  std::vector<std::function<void()>> kept;  // looks at and destroys tasks that stop at their end
  vrt::counter groups{500};
  std::atomic<int> noted = 0;
};

struct park {
  env& x;
  int gate = 0;
  bool await_ready() {
    return false;
  }
  void await_suspend(std::coroutine_handle<> h) {
    std::lock_guard l(x.m);
    (gate ? x.gated[gate] : x.parked).push_back(h);
  }
  void await_resume() {
  }
};

template <typename R>
struct io {
  static int read(R& p) {
    if constexpr (std::is_same_v<R, payload>)
      return atoi(p.s.c_str());
    else if constexpr (std::is_same_v<R, std::unique_ptr<int>>)
      return p ? *p : -1;
    else
      return p;
  }
  static R make(int v) {
    if constexpr (std::is_same_v<R, std::unique_ptr<int>>)
      return std::make_unique<int>(v);
    else
      return R(v);
  }
};

template <typename R>
R outcome(env& x, int k) {
  if constexpr (std::is_void_v<R>)
    return;
  else if constexpr (std::is_reference_v<R>) {
    x.ints[k] = k * 10;
    return x.ints[k];
  } else
    return io<R>::make(k * 10);
}

void fin(env& x, int k, bool fails) {
  x.data[k] = k * 10;
  ev("body_e", kv("k", k), kv("kind", fails ? "exc" : "val"), kv("v", k * 10));
}
void check(env& x, int k) {
  if (x.data[k] != k * 10)
    ev("stale", kv("k", k));
}

template <typename R, typename Task>
Task body(env& x, int k, guard);

template <typename R, typename Task>
Task make(env& x, int k) {
  Task t = body<R, Task>(x, k, guard(k));
  reg->add(t.raw_handle().address(), k);
  if constexpr (std::is_same_v<typename Task::context_type, ctx>)
    t.get_context()->id = k;
  ev("make", kv("k", k));
  return t;
}

// runs 'get' (an awaited value or a call) and tells its outcome
#define OUTCOME(R, expr, name, w, k)                                                       \
  try {                                                                                    \
    if constexpr (std::is_void_v<R>) {                                                     \
      expr;                                                                                \
      ev(name, kv("w", w), kv("k", k), kv("kind", "val"), kv("v", k * 10));                \
    } else {                                                                               \
      auto&& r = expr;                                                                     \
      ev(name, kv("w", w), kv("k", k), kv("kind", "val"), kv("v", io<std::remove_reference_t<R>>::read(r))); \
    }                                                                                      \
  } catch (my_exc & e) {                                                                   \
    ev(name, kv("w", w), kv("k", k), kv("kind", "exc"), kv("v", e.v));                     \
  }                                                                                        \
  check(x, k)

#define AHEAD(R, t, c)                                     \
  if (x.sc[c].pre) {                                       \
    ev("await_b", kv("w", k), kv("k", c));                 \
    OUTCOME(R, co_await t, "await_e", k, c);               \
  }

template <typename R>
int exp_value(dd::expected<R, std::exception_ptr>& e, const char*& kind, int k) {
  if (!e) {
    kind = "exc";
    try {
      std::rethrow_exception(e.error());
    } catch (my_exc& m) {
      return m.v;
    }
  }
  kind = "val";
  if constexpr (std::is_void_v<R>)
    return k * 10;
  else
    return io<R>::read(*e);
}

template <typename Task>
void drop(std::optional<Task>& t, int k) {
  ev("drop_b", kv("k", k));
  t.reset();
  ev("drop_e", kv("k", k));
}

template <typename R, typename Task>
void keep(env& x, Task&& t, int k) {
  ev("sad_b", kv("k", k), kv("stop", 1));
  auto h = t.start_and_detach(true);
  ev("sad_e", kv("k", k), kv("stop", 1), kv("empty", t.empty()));
  std::lock_guard l(x.m);
  x.kept.push_back([&x, k, h] {
    ev("kept", kv("k", k), kv("done", h.done()));
    if (h.done()) {
      ev("get_b", kv("w", 1000 + k), kv("k", k));
      OUTCOME(R, h.promise().result_or_rethrow(), "get_e", 1000 + k, k);
    }
    ev("drop_b", kv("k", k));
    h.destroy();
    ev("drop_e", kv("k", k));
  });
}
template <typename Task>
void detach(Task&& t, int k) {
  ev("sad_b", kv("k", k), kv("stop", 0));
  t.start_and_detach();
  ev("sad_e", kv("k", k), kv("stop", 0), kv("empty", t.empty()));
}

void group(const char* name, int w, int g, const std::vector<int>& ks) {
  vrt::ints l;
  for (int k : ks)
    l.add(k);
  ev(name, kv("w", w), kv("g", g), kv("ks", l.str()));
}

template <typename T>
void name_group(T& t, int g) {
  reg->add(t.raw_handle().address(), g);
  if constexpr (std::is_same_v<typename T::context_type, ctx>)
    t.get_context()->id = g;
}

template <typename R, typename Task>
constexpr bool groupable = false;
template <typename R, typename C>
constexpr bool groupable<R, dd::task<R, C>> = !std::is_reference_v<R>;

template <typename R, typename Task>
Task body(env& x, int k, guard) {
  using C = typename Task::context_type;
  ev("body_b", kv("k", k));
  script& s = x.sc[k];
  for (op& o : s.ops) {
    switch (o.what) {
      case op_hop:
        switch (o.arg) {
          case 1:
            (void)co_await dd::jump_on(*x.pool);
            break;
          case 2:
            (void)co_await dd::jump_on(dd::new_thread_executor);
            break;
          case 4:
            co_await park{x, o.kids[0]};
            break;
          default:
            co_await park{x};
        }
        ev("step", kv("k", k));
        break;
      case op_await:
      case op_wait_await:
      case op_await_twice:
      case op_move_await: {
        int c = o.kids[0];
        std::optional<Task> t(make<R, Task>(x, c));
        if (o.what == op_move_await) {
          Task other(std::move(*t));
          ev("is_empty", kv("k", c), kv("ret", t->empty() && !*t && !t->raw_handle()));
          *t = std::move(other);
        }
        if (o.what == op_wait_await) {
          ev("await_b", kv("w", k), kv("k", c));
          co_await t->wait();
          ev("wait_e", kv("w", k), kv("k", c));
          check(x, c);
        }
        ev("await_b", kv("w", k), kv("k", c));
        OUTCOME(R, co_await *t, "await_e", k, c);
        if (o.what == op_await_twice) {
          ev("await_b", kv("w", k), kv("k", c));
          OUTCOME(R, co_await *t, "await_e", k, c);
        }
        drop(t, c);
        break;
      }
      case op_drop: {
        int c = o.kids[0];
        std::optional<Task> t(make<R, Task>(x, c));
        drop(t, c);
        break;
      }
      case op_assign: {
        // over an unstarted or finished one; 'c' is 0 if an empty task is assigned
        int a = o.kids[0], c = o.kids.size() > 1 ? o.kids[1] : 0;
        std::optional<Task> t(make<R, Task>(x, a));
        std::optional<Task> other(std::in_place);
        if (c)
          *other = make<R, Task>(x, c);
        if (o.arg == 1) {
          ev("await_b", kv("w", k), kv("k", a));
          OUTCOME(R, co_await *t, "await_e", k, a);
        }
        ev("drop_b", kv("k", a));
        *t = std::move(*other);
        ev("is_empty", kv("k", c), kv("ret", t->empty() == !c && reg->find(t->raw_handle().address()) == (c ? c : -1)));
        other.reset();
        ev("drop_e", kv("k", a));
        if (c) {
          if (o.arg != 2) {
            ev("await_b", kv("w", k), kv("k", c));
            OUTCOME(R, co_await *t, "await_e", k, c);
          }
          drop(t, c);
        }
        break;
      }
      case op_who: {
        bool ok = true;
        if constexpr (std::is_same_v<C, ctx>) {
          ctx& c = co_await dd::this_coro::context;
          ok = c.id == k;
        }
        auto h = co_await dd::this_coro::handle;
        ev("is_empty", kv("k", k), kv("ret", ok && reg->find(h.address()) == k));
        break;
      }
      case op_sad:
        {
          Task t = make<R, Task>(x, o.kids[0]);
          AHEAD(R, t, o.kids[0]);
          detach(std::move(t), o.kids[0]);
        }
        break;
      case op_sad_stop:
        {
          Task t = make<R, Task>(x, o.kids[0]);
          AHEAD(R, t, o.kids[0]);
          keep<R>(x, std::move(t), o.kids[0]);
        }
        break;
      case op_all:
        if constexpr (groupable<R, Task>) {
          int g = x.groups++;
          std::vector<const char*> kinds(o.kids.size());
          vrt::ints vs, ok;
          if (o.arg == 2 && o.kids.size() == 3) {
            // of different types
            auto a = make<int, dd::task<int, C>>(x, o.kids[0]);
            auto b = make<void, dd::task<void, C>>(x, o.kids[1]);
            auto c = make<payload, dd::task<payload, C>>(x, o.kids[2]);
            AHEAD(typename decltype(a)::result_type, a, o.kids[0]);
            AHEAD(typename decltype(b)::result_type, b, o.kids[1]);
            AHEAD(typename decltype(c)::result_type, c, o.kids[2]);
            group("all_b", k, g, o.kids);
            auto w = dd::when_all(std::move(a), std::move(b), std::move(c));
            name_group(w, g);
            auto [ra, rb, rc] = co_await w;
            const char* kind;
            vs.add(exp_value<int>(ra, kind, o.kids[0]));
            ok.add(kind[0] == 'v');
            vs.add(exp_value<void>(rb, kind, o.kids[1]));
            ok.add(kind[0] == 'v');
            vs.add(exp_value<payload>(rc, kind, o.kids[2]));
            ok.add(kind[0] == 'v');
          } else if (o.arg || o.kids.size() > 3 || o.kids.empty()) {
            std::vector<Task> ts;
            for (int c : o.kids)
              ts.push_back(make<R, Task>(x, c));
            for (size_t i = 0; i < ts.size(); i++) {
              AHEAD(R, ts[i], o.kids[i]);
            }
            group("all_b", k, g, o.kids);
            auto w = dd::when_all(std::move(ts));
            name_group(w, g);
            auto r = co_await w;
            size_t i = 0;
            for (auto& e : r) {
              const char* kind;
              vs.add(exp_value<R>(e, kind, o.kids[i++]));
              ok.add(kind[0] == 'v');
            }
          } else if (o.kids.size() == 1) {
            Task a = make<R, Task>(x, o.kids[0]);
            AHEAD(R, a, o.kids[0]);
            group("all_b", k, g, o.kids);
            auto w = dd::when_all(std::move(a));
            name_group(w, g);
            auto [ra] = co_await w;
            const char* kind;
            vs.add(exp_value<R>(ra, kind, o.kids[0]));
            ok.add(kind[0] == 'v');
          } else if (o.kids.size() == 2) {
            Task a = make<R, Task>(x, o.kids[0]);
            Task b = make<R, Task>(x, o.kids[1]);
            AHEAD(R, a, o.kids[0]);
            AHEAD(R, b, o.kids[1]);
            group("all_b", k, g, o.kids);
            auto w = dd::when_all(std::move(a), std::move(b));
            name_group(w, g);
            auto [ra, rb] = co_await w;
            const char* kind;
            vs.add(exp_value<R>(ra, kind, o.kids[0]));
            ok.add(kind[0] == 'v');
            vs.add(exp_value<R>(rb, kind, o.kids[1]));
            ok.add(kind[0] == 'v');
          } else {
            Task a = make<R, Task>(x, o.kids[0]);
            Task b = make<R, Task>(x, o.kids[1]);
            Task c = make<R, Task>(x, o.kids[2]);
            AHEAD(R, a, o.kids[0]);
            AHEAD(R, b, o.kids[1]);
            AHEAD(R, c, o.kids[2]);
            group("all_b", k, g, o.kids);
            auto w = dd::when_all(std::move(a), std::move(b), std::move(c));
            name_group(w, g);
            auto [ra, rb, rc] = co_await w;
            const char* kind;
            vs.add(exp_value<R>(ra, kind, o.kids[0]));
            ok.add(kind[0] == 'v');
            vs.add(exp_value<R>(rb, kind, o.kids[1]));
            ok.add(kind[0] == 'v');
            vs.add(exp_value<R>(rc, kind, o.kids[2]));
            ok.add(kind[0] == 'v');
          }
          for (int c : o.kids)
            check(x, c);
          ev("all_e", kv("w", k), kv("g", g), kv("ok", ok.str()), kv("vs", vs.str()));
        }
        break;
      case op_any:
        if constexpr (groupable<R, Task>) {
          int g = x.groups++;
          std::vector<Task> ts;
          bool mixed = o.arg == 1 && o.kids.size() >= 2;
          if (!mixed) {
            for (int c : o.kids)
              ts.push_back(make<R, Task>(x, c));
            for (size_t i = 0; i < ts.size(); i++) {
              AHEAD(R, ts[i], o.kids[i]);
            }
            group("any_b", k, g, o.kids);
          }
          auto report = [&](auto& r) {
            std::visit(
                [&](auto& e) {
                  if constexpr (std::is_same_v<std::remove_cvref_t<decltype(e)>, std::monostate>)
                    ev("any_e", kv("w", k), kv("g", g), kv("i", 0), kv("v", 0));
                  else {
                    const char* kind;
                    int i = (int)r.index();
                    int v = exp_value(e, kind, i <= (int)o.kids.size() ? o.kids[i - 1] : 0);
                    check(x, o.kids[i - 1]);
                    ev(kind[0] == 'v' ? "any_e" : "any_f", kv("w", k), kv("g", g), kv("i", i), kv("v", v));
                  }
                },
                r);
          };
          if (mixed && o.kids.size() == 2) {
            auto a = make<void, dd::task<void, C>>(x, o.kids[0]);
            auto b = make<payload, dd::task<payload, C>>(x, o.kids[1]);
            AHEAD(typename decltype(a)::result_type, a, o.kids[0]);
            AHEAD(typename decltype(b)::result_type, b, o.kids[1]);
            group("any_b", k, g, o.kids);
            auto w = dd::when_any(std::move(a), std::move(b));
            name_group(w, g);
            auto r = co_await w;
            report(r);
          } else if (mixed) {
            auto a = make<payload, dd::task<payload, C>>(x, o.kids[0]);
            auto b = make<int, dd::task<int, C>>(x, o.kids[1]);
            auto c = make<void, dd::task<void, C>>(x, o.kids[2]);
            AHEAD(typename decltype(a)::result_type, a, o.kids[0]);
            AHEAD(typename decltype(b)::result_type, b, o.kids[1]);
            AHEAD(typename decltype(c)::result_type, c, o.kids[2]);
            group("any_b", k, g, o.kids);
            auto w = dd::when_any(std::move(a), std::move(b), std::move(c));
            name_group(w, g);
            auto r = co_await w;
            report(r);
          } else if (ts.size() == 1) {
            auto w = dd::when_any(std::move(ts[0]));
            name_group(w, g);
            auto r = co_await w;
            report(r);
          } else if (ts.size() == 2) {
            auto w = dd::when_any(std::move(ts[0]), std::move(ts[1]));
            name_group(w, g);
            auto r = co_await w;
            report(r);
          } else {
            auto w = dd::when_any(std::move(ts[0]), std::move(ts[1]), std::move(ts[2]));
            name_group(w, g);
            auto r = co_await w;
            report(r);
          }
        }
        break;
      case op_any_keep:
        // nobody waits for it, it is destroyed while it waits or when it has its result
        if constexpr (groupable<R, Task>) {
          int g = x.groups++;
          std::vector<Task> ts;
          for (int c : o.kids)
            ts.push_back(make<R, Task>(x, c));
          for (size_t i = 0; i < ts.size(); i++) {
            AHEAD(R, ts[i], o.kids[i]);
          }
          group("any_keep", 2000 + g, g, o.kids);
          auto go = [&](auto w) {
            name_group(w, g);
            auto h = w.start_and_detach(true);
            if (h.done()) {
              auto&& r = h.promise().result();
              std::visit(
                  [&](auto& e) {
                    if constexpr (std::is_same_v<std::remove_cvref_t<decltype(e)>, std::monostate>)
                      ev("any_e", kv("w", 2000 + g), kv("g", g), kv("i", 0), kv("v", 0));
                    else {
                      const char* kind;
                      int i = (int)r.index();
                      int v = exp_value(e, kind, o.kids[i - 1]);
                      check(x, o.kids[i - 1]);
                      ev(kind[0] == 'v' ? "any_e" : "any_f", kv("w", 2000 + g), kv("g", g), kv("i", i), kv("v", v));
                    }
                  },
                  r);
            } else
              ev("any_drop", kv("w", 2000 + g), kv("g", g));
            h.destroy();
          };
          if (ts.size() == 1)
            go(dd::when_any(std::move(ts[0])));
          else if (ts.size() == 2)
            go(dd::when_any(std::move(ts[0]), std::move(ts[1])));
          else
            go(dd::when_any(std::move(ts[0]), std::move(ts[1]), std::move(ts[2])));
          ts.clear();
          {
            std::lock_guard l(x.m);
            for (auto h : x.gated[o.arg])
              x.parked.push_back(h);
            x.gated.erase(o.arg);
          }
        }
        break;
    }
  }
  if constexpr (!std::is_void_v<R> && !std::is_same_v<R, std::unique_ptr<int>>) {
    if (s.place) {
      auto& p = co_await dd::this_coro::return_place;
      if constexpr (std::is_reference_v<R>) {
        x.ints[k] = k * 10;
        p = &x.ints[k];
      } else
        p = io<R>::make(k * 10);
      fin(x, k, s.fails);
      if (s.fails)
        throw my_exc{k * 10};
      co_return dd::rvo;
    }
  }
  fin(x, k, s.fails);
  if (s.fails)
    throw my_exc{k * 10};
  if constexpr (!std::is_void_v<R>)
    co_return outcome<R>(x, k);
}

// awaits a task from outside any task
template <typename R, typename Task>
dd::job waiter(env& x, int w, Task t, int k, bool first_wait) {
  std::coroutine_handle<> me = co_await dd::this_coro::handle;
  reg->add(me.address(), w);
  if (first_wait) {
    ev("await_b", kv("w", w), kv("k", k));
    co_await t.wait();
    ev("wait_e", kv("w", w), kv("k", k));
    check(x, k);
    // now get() does not block
    ev("get_b", kv("w", w), kv("k", k));
    OUTCOME(R, t.get(), "get_e", w, k);
  } else {
    ev("await_b", kv("w", w), kv("k", k));
    OUTCOME(R, co_await t, "await_e", w, k);
  }
  std::optional<Task> o(std::move(t));
  drop(o, k);
  --x.left;
}

int big = 0;

// fills scripts for a tree of tasks, returns the id of its root
int plant(vrt::rng& R, env& x, int depth, int& budget, int algo, int gated = 0) {
  int k = (int)x.sc.size();
  x.sc.emplace_back();
  x.sc.back().k = k;
  --budget;
  std::vector<op> ops;
  if (gated)
    ops.push_back(op{op_hop, 4, {gated}});
  int n = big ? (depth == 0 ? 0 : R.below(2)) : R.below(3);
  int newt = 0;
  for (int i = 0; i < n || (depth == 0 && algo && i == 0); i++) {
    if (budget > 0 && depth < 3 && ((!big && R.chance(60)) || (depth == 0 && algo))) {
      op o;
      bool g = algo && (big ? depth == 0 : R.chance(75));
      if (g) {
        o.what = algo == 3 ? (R.chance(50) ? op_all : op_any) : algo == 1 ? op_all : op_any;
        o.arg = R.below(3);
        if (big && depth == 0)
          o.arg = 1, o.what = op_all;
        int c = big && depth == 0 ? big : R.chance(10) && o.what == op_all ? 0 : 1 + R.below(3);
        bool keep = o.what == op_any && R.chance(30);
        if (keep)
          o.what = op_any_keep, o.arg = ++x.gates;
        for (int j = 0; j < c; j++)
          if (budget > 0 || j == 0) {
            if (!keep) {
              o.kids.push_back(plant(R, x, depth + 1, budget, algo));
              x.sc[o.kids.back()].pre = !big && R.chance(15);
            } else if (R.chance(60))
              o.kids.push_back(plant(R, x, depth + 1, budget, algo, o.arg));
            else {
              // ends at once
              int q = (int)x.sc.size();
              x.sc.emplace_back();
              x.sc.back().k = q;
              x.sc.back().fails = R.chance(65);
              x.sc.back().pre = R.chance(25);
              --budget;
              o.kids.push_back(q);
            }
          }
      } else {
        int r = R.below(14);
        o.what = r == 12 ? op_assign : r == 13 ? op_who : r < 3 ? op_await : r < 5 ? op_wait_await : r < 7 ? op_await_twice : r < 8 ? op_move_await
                 : r < 9 ? op_drop : r < 10 ? op_sad : r < 11 ? op_sad_stop : op_await;
        if (o.what != op_who)
          o.kids.push_back(plant(R, x, depth + 1, budget, algo));
        if (o.what == op_sad || o.what == op_sad_stop)
          x.sc[o.kids[0]].pre = R.chance(30);
        if (o.what == op_assign) {
          o.arg = R.below(3);
          if (budget > 0 && R.chance(70))
            o.kids.push_back(plant(R, x, depth + 1, budget, algo));
        }
      }
      ops.push_back(o);
    } else {
      int h = 1 + R.below(3);
      if (h == 2 && (big || newt++))
        h = 3;
      ops.push_back(op{op_hop, h, {}});
    }
  }
  script& s = x.sc[k];
  s.ops = ops;
  s.fails = R.chance(algo ? 45 : 30);
  s.place = R.chance(30);
  return k;
}

void run_parked(env& x) {
  for (;;) {
    std::coroutine_handle<> h = nullptr;
    bool stop = x.left == 0;
    {
      std::lock_guard l(x.m);
      if (!x.parked.empty()) {
        h = x.parked.back();
        x.parked.pop_back();
      }
    }
    if (h)
      h.resume();
    else if (stop)
      return;
    else
      vrt::yield_point();
  }
}

template <typename R, typename Task>
void program(vrt::rng& R_, int algo, int size) {
  env& x = *new env;
  reg = new registry;
  x.sc.emplace_back();
  x.pool = std::make_unique<dd::thread_pool>(size_t(1));
  struct root {
    int k, how;
  };
  std::vector<root> roots;
  int nroots = 1 + R_.below(algo ? 1 : 3);
  for (int i = 0; i < nroots; i++) {
    int budget = size;
    int k = plant(R_, x, 0, budget, algo);
    roots.push_back({k, algo ? R_.below(3) : R_.below(8)});
  }
  vrt::cfg_("hooks", std::is_same_v<typename Task::context_type, ctx>);
  // those which nobody waits for are waited for at quiescence
  int P = 1 + R_.below(2);
  x.left = P;
  std::vector<int> th;
  for (int p = 0; p < P; p++)
    th.push_back(vrt::spawn([&, p] {
      for (size_t i = 0; i < roots.size(); i++) {
        if ((int)(i % (size_t)P) != p)
          continue;
        int k = roots[i].k;
        Task t = make<R, Task>(x, k);
        switch (roots[i].how) {
          case 0:
          case 1:
            ++x.left;
            waiter<R, Task>(x, 1000 + k, std::move(t), k, roots[i].how == 1);
            break;
          case 2: {
            ev("get_b", kv("w", 1000 + k), kv("k", k));
            OUTCOME(R, t.get(), "get_e", 1000 + k, k);
            break;
          }
          case 3:
            detach(std::move(t), k);
            break;
          case 4:
            keep<R>(x, std::move(t), k);
            break;
          case 5: {
            auto h = t.detach();
            ev("loose", kv("k", k), kv("empty", t.empty()));
            h.resume();
            break;
          }
          case 6: {
            auto h = t.release();
            ev("is_empty", kv("k", k), kv("ret", t.empty()));
            ev("drop_b", kv("k", k));
            h.destroy();
            ev("drop_e", kv("k", k));
            break;
          }
          default: {
            std::optional<Task> o(std::move(t));
            drop(o, k);
            Task none;
            none = Task();
            auto h = none.start_and_detach();
            auto d = none.detach();
            ev("is_empty", kv("k", 0), kv("ret", !h && !d && none.empty() && !none.get_context()));
          }
        }
      }
      --x.left;
    }));
  th.push_back(vrt::spawn([&] { run_parked(x); }));
  for (int t : th)
    vrt::join(t);
  vrt::wait_quiescent();
  // detached ones may still be parked
  for (;;) {
    std::coroutine_handle<> h = nullptr;
    if (!x.parked.empty()) {
      h = x.parked.back();
      x.parked.pop_back();
    }
    if (!h)
      break;
    h.resume();
    vrt::wait_quiescent();
  }
  ev("quiet");
  for (auto& f : x.kept)
    f();
  x.pool.reset();
  delete reg;
  delete &x;
}

}  // namespace

SCENARIO(task_life) {
  switch (variant % 6) {
    case 0:
    case 1:
      program<payload, dd::task<payload, ctx>>(R, 0, 5);
      break;
    case 2:
      program<void, dd::task<void, ctx>>(R, 0, 5);
      break;
    case 3:
      program<int&, dd::task<int&, ctx>>(R, 0, 5);
      break;
    case 4:
      program<std::unique_ptr<int>, dd::pmr::task<std::unique_ptr<int>, ctx>>(R, 0, 5);
      break;
    default:
      program<int, dd::task<int>>(R, 0, 5);
  }
}
// many at once
SCENARIO(task_big) {
  big = variant % 20 == 7 ? 258 + R.below(10) : 4 + R.below(30);
  program<payload, dd::task<payload, ctx>>(R, 1, big + 2);
  big = 0;
}
SCENARIO(task_all) {
  switch (variant % 4) {
    case 0:
    case 1:
      program<payload, dd::task<payload, ctx>>(R, 1, 6);
      break;
    case 2:
      program<void, dd::task<void, ctx>>(R, 1, 6);
      break;
    default:
      program<int, dd::task<int>>(R, 1, 6);
  }
}
SCENARIO(task_any) {
  switch (variant % 4) {
    case 0:
    case 1:
      program<payload, dd::task<payload, ctx>>(R, 2, 6);
      break;
    case 2:
      program<void, dd::task<void, ctx>>(R, 2, 6);
      break;
    default:
      program<int, dd::task<int>>(R, 2, 6);
  }
}
SCENARIO(task_mix) {
  program<payload, dd::task<payload, ctx>>(R, 3, 7);
}
