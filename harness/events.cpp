#include "vrt/vstd.h"
#include <string>
#include "kelcoro/events.hpp"
#include "kelcoro/thread_pool.hpp"
#include "kelcoro/kelcoro.hpp"

using vrt::ev;
using vrt::kv;

namespace {

// a value whose copies own memory
struct payload {
  std::string s = "0";
  payload() = default;
  explicit payload(int v) : s(std::to_string(v) + "                    ") {
  }
  payload(const payload&) = default;
  payload(payload&& o) noexcept : s(std::move(o.s)) {
    o.s = "-1";
  }
  payload& operator=(const payload&) = default;
  payload& operator=(payload&& o) noexcept {
    s = std::move(o.s);
    o.s = "-1";
    return *this;
  }
  int value() const {
    return atoi(s.c_str());
  }
};

// events 1, 2 carry an int; 3 carries nothing; 4 carries a payload
struct env {
  dd::event<int> a, b;
  dd::event<void> v;
  dd::event<payload> p;
  dd::thread_pool* pool = nullptr;
  vrt::counter next_notify{1};
  char owner[64] = {'h'};  // whose thread it is: the harness's, the pool's, or new
};

// a thread of the pool -1, a new one -2
int kind_of_thread(env& x) {
  vrt::untracked u;
  int t = vrt::self();
  return t < 64 && x.owner[t] == 'h' ? -3 : t < 64 && x.owner[t] == 'p' ? -1 : -2;
}

void sub_b(int s, const char* kind, std::initializer_list<int> es) {
  vrt::ints l;
  for (int e : es)
    l.add(e);
  ev("sub_b", kv("s", s), kv("kind", kind), kv("es", l.str()));
}

// what the notifier did before it notified is visible
void seen(int v) {
  if (v > 0)
    vrt::touch(v, false);
}

int val(int v) {
  return v;
}
int val(dd::nullstruct) {
  return 0;
}
int val(const payload& p) {
  return p.value();
}

template <typename Exe>
bool notify_on(env& x, Exe& exe, int e, int v) {
  switch (e) {
    case 1:
      return x.a.notify_all(exe, v);
    case 2:
      return x.b.notify_all(exe, v);
    case 3:
      return x.v.notify_all(exe);
    default:
      return x.p.notify_all(exe, payload(v));
  }
}

// how: 0 this thread, 1 pool, 2 new thread, 3 type-erased this thread, 4 strand of the pool
bool notify(env& x, int e, int how) {
  int c = x.next_notify++;
  int v = e == 3 ? 0 : c;
  if (!x.pool && (how == 1 || how == 4))
    how = 0;
  ev("notify_b", kv("c", c), kv("ev", e), kv("v", v), kv("inl", how == 0 || how == 3),
     kv("at", how == 0 || how == 3 ? vrt::self() : how == 2 ? -2 : -1));
  vrt::touch(c, true);
  bool r;
  if (how == 0)
    r = notify_on(x, dd::this_thread_executor, e, v);
  else if (how == 1)
    r = notify_on(x, *x.pool, e, v);
  else if (how == 2)
    r = notify_on(x, dd::new_thread_executor, e, v);
  else if (how == 3) {
    dd::this_thread_executor_t t;
    dd::any_executor_ref any(t);
    r = notify_on(x, any, e, v);
  } else {
    dd::strand s = x.pool->get_strand(1);
    r = notify_on(x, s, e, v);
  }
  ev("notify_e", kv("c", c), kv("ret", r));
  return r;
}

dd::job waiter(env& x, int id, int e, int times) {
  for (int n = 0; n < times; n++) {
    int s = id * 10 + n;
    sub_b(s, "one", {e});
    int v;
    switch (e) {
      case 1:
        v = val(co_await x.a);
        break;
      case 2:
        v = val(co_await x.b);
        break;
      case 3:
        v = val(co_await x.v);
        break;
      default:
        v = val(co_await x.p);
    }
    seen(v);
    ev("run", kv("s", s), kv("v", v), kv("at", kind_of_thread(x)));
  }
}

void callback(env& x, int id, int e, int times) {
  int s = id * 10 + times;
  sub_b(s, "one", {e});
  auto cb = [&x, id, e, times, s](auto&&... v) {
    seen((0 + ... + val(v)));
    ev("run", kv("s", s), kv("v", (0 + ... + val(v))), kv("at", kind_of_thread(x)));
    if (times > 1)
      callback(x, id, e, times - 1);
  };
  switch (e) {
    case 1:
      x.a.set_callback(cb);
      break;
    case 2:
      x.b.set_callback(cb);
      break;
    case 3:
      x.v.set_callback(cb);
      break;
    default:
      x.p.set_callback(cb);
  }
  ev("sub_e", kv("s", s));
}

void runall(env& x, int s, std::initializer_list<int> vs) {
  vrt::ints l;
  for (int v : vs)
    l.add(v), seen(v);
  ev("runall", kv("s", s), kv("vs", l.str()), kv("at", kind_of_thread(x)));
}

dd::job wait_all(env& x, int id, int shape, int times) {
  for (int n = 0; n < times; n++) {
    int s = id * 10 + n;
    switch (shape) {
      case 0: {
        sub_b(s, "all", {1, 2});
        auto [a, b] = co_await dd::when_all(x.a, x.b);
        runall(x, s, {val(a), val(b)});
        break;
      }
      case 1: {
        sub_b(s, "all", {3, 1, 4});
        auto [v, a, p] = co_await dd::when_all(x.v, x.a, x.p);
        runall(x, s, {val(v), val(a), val(p)});
        break;
      }
      case 2: {
        sub_b(s, "all", {1, 1});
        auto [a, b] = co_await dd::when_all(x.a, x.a);
        runall(x, s, {val(a), val(b)});
        break;
      }
      case 3: {
        sub_b(s, "all", {1, 2, 3, 4});
        auto [a, b, v, p] = co_await dd::when_all(x.a, x.b, x.v, x.p);
        runall(x, s, {val(a), val(b), val(v), val(p)});
        break;
      }
      default: {
        sub_b(s, "all", {4});
        auto [p] = co_await dd::when_all(x.p);
        runall(x, s, {val(p)});
      }
    }
  }
}

template <typename V>
void runany(env& x, int s, V& v) {
  int i = (int)v.index();
  int y = std::visit([](auto& y) { return val(y); }, v);
  seen(y);
  ev("runany", kv("s", s), kv("i", i + 1), kv("v", y), kv("at", kind_of_thread(x)));
}

dd::job wait_any(env& x, int id, int shape, int times) {
  for (int n = 0; n < times; n++) {
    int s = id * 10 + n;
    switch (shape) {
      case 0: {
        sub_b(s, "any", {1, 2});
        auto r = co_await dd::when_any(x.a, x.b);
        runany(x, s, r);
        break;
      }
      case 1: {
        sub_b(s, "any", {3, 1, 4});
        auto r = co_await dd::when_any(x.v, x.a, x.p);
        runany(x, s, r);
        break;
      }
      case 2: {
        sub_b(s, "any", {2, 2});
        auto r = co_await dd::when_any(x.b, x.b);
        runany(x, s, r);
        break;
      }
      default: {
        sub_b(s, "any", {4, 3, 2, 1});
        auto r = co_await dd::when_any(x.p, x.v, x.b, x.a);
        runany(x, s, r);
      }
    }
  }
}

void start_all(env& x, int id, int shape, int times) {
  wait_all(x, id, shape, times);
  ev("sub_e", kv("s", id * 10));
}
void start_any(env& x, int id, int shape, int times) {
  wait_any(x, id, shape, times);
  ev("sub_e", kv("s", id * 10));
}
void start_one(env& x, int id, int e, int times) {
  waiter(x, id, e, times);
  ev("sub_e", kv("s", id * 10));
}

enum { one = 1, all = 2, any = 4 };

void program(vrt::rng& R, int kinds, bool executors) {
  env* x = new env;
  if (executors && R.chance(60))
    x->pool = new dd::thread_pool((size_t)(1 + R.below(2)));
  if (x->pool)
    for (auto& t : x->pool->workers_range())
      x->owner[t.get_id().n] = 'p';
  int nev = kinds == one ? 1 + R.below(2) : 4;
  std::vector<int> th;
  int id = 1;
  int S = 1 + R.below(2);
  int e0 = R.below(4);
  auto subscriber = [&](uint64_t seed, int id, int count) {
    return [=] {
      {
        vrt::untracked u;
        x->owner[vrt::self()] = 'h';
      }
      vrt::rng R{seed};
      for (int i = 0; i < count; i++) {
        int times = 1 + (R.chance(30) ? R.below(2) : 0);
        int k = R.below(3);
        int e = (e0 + R.below(nev)) % 4 + 1;
        if ((kinds & all) && k == 0)
          start_all(*x, id + i, R.below(5), times);
        else if ((kinds & any) && k == 1)
          start_any(*x, id + i, R.below(4), times);
        else if (kinds == all)
          start_all(*x, id + i, R.below(5), times);
        else if (kinds == any)
          start_any(*x, id + i, R.below(4), times);
        else if (R.chance(50))
          start_one(*x, id + i, e, times);
        else
          callback(*x, id + i, e, times);
      }
    };
  };
  auto notifier = [&](uint64_t seed, int count, bool before) {
    return [=] {
      {
        vrt::untracked u;
        x->owner[vrt::self()] = 'h';
      }
      vrt::rng R{seed};
      for (int i = 0; i < count; i++) {
        int e = kinds == one ? (e0 + R.below(nev)) % 4 + 1 : 1 + R.below(4);
        int how = executors ? R.below(5) : R.chance(70) ? 0 : 3;
        notify(*x, e, how);
      }
      (void)before;
    };
  };
  // some subscribe before any notification
  if (R.chance(50)) {
    subscriber(R.next(), id, 1)();
    id += 1;
  }
  for (int i = 0; i < S; i++) {
    int c = 1 + R.below(2);
    th.push_back(vrt::spawn(subscriber(R.next(), id, c)));
    id += c;
  }
  int N = 1 + R.below(3);
  for (int i = 0; i < N; i++)
    th.push_back(vrt::spawn(notifier(R.next(), 1 + R.below(2), true)));
  for (int t : th)
    vrt::join(t);
  vrt::wait_quiescent();
  ev("quiet");
  // nobody waits for ever: notify what is left
  for (int round = 0; round < 12; round++) {
    bool woke = false;
    for (int e = 1; e <= 4; e++)
      woke |= notify(*x, e, 0);
    vrt::wait_quiescent();
    ev("quiet");
    if (!woke)
      break;
  }
  delete x->pool;
  delete x;
}

}  // namespace

SCENARIO(ev_one) {
  program(R, one, false);
}
SCENARIO(ev_exec) {
  program(R, one, true);
}
SCENARIO(ev_all) {
  program(R, all, R.chance(30));
}
SCENARIO(ev_any) {
  program(R, any, R.chance(30));
}
SCENARIO(ev_mix) {
  program(R, one | all | any, R.chance(30));
}
