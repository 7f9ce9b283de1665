#include "vrt/vstd.h"
#include "kelcoro/logical_thread.hpp"
#include "kelcoro/thread_pool.hpp"
#include "kelcoro/kelcoro.hpp"
#include <memory>
#include <vector>

using vrt::ev;
using vrt::kv;

namespace {

// lives in the coroutine frame
struct guard {
  int c;
  explicit guard(int c) : c(c) {
  }
  guard(guard&& o) noexcept : c(std::exchange(o.c, 0)) {
  }
  ~guard() {
    if (c)
      ev("free", kv("c", c));
  }
};

struct body {
  int c = 0;
  int hops[3] = {0, 0, 0};
  int nhops = 0;
  int until = 0;  // 0: ends by itself, 1: when stopped, 2: when stopped and the partner has seen its stop
  int partner = 0;
};

struct env {
  std::unique_ptr<dd::thread_pool> pool;
  std::mutex m;
  std::vector<std::coroutine_handle<>> parked;
  std::vector<int> parked_c;
  int asked[32] = {};   // written before stop is requested
  int result[32] = {};  // written by the body at its end
  std::atomic<int> seen[32] = {};
  std::atomic<int> unfinished = 0;
  int* fin_t;
};

struct park {
  env& x;
  int c;
  bool await_ready() {
    return false;
  }
  void await_suspend(std::coroutine_handle<> h) {
    std::lock_guard l(x.m);
    x.parked.push_back(h);
    x.parked_c.push_back(c);
  }
  void await_resume() {
  }
};

bool stopped(env& x, dd::stop_token& t, int c) {
  ev("tok_b", kv("c", c));
  bool r = t.stop_requested();
  ev("tok_e", kv("c", c), kv("ret", r));
  if (r) {
    if (!x.asked[c])
      ev("stale", kv("c", c));
    x.seen[c] = 1;
  }
  return r;
}

template <typename T>
T run(env& x, body b, guard) {
  ev("start", kv("c", b.c));
  dd::stop_token tok = co_await dd::this_coro::stop_token;
  for (int i = 0; i < b.nhops; i++) {
    switch (b.hops[i]) {
      case 1:
        (void)co_await dd::jump_on(*x.pool);
        break;
      case 2:
        (void)co_await dd::jump_on(dd::new_thread_executor);
        break;
      case 3:
        co_await park{x, b.c};
        break;
      default:
        break;
    }
    ev("step", kv("c", b.c));
    stopped(x, tok, b.c);
  }
  if (b.until)
    for (int n = 0; !stopped(x, tok, b.c); n++)
      vrt::yield_point();
  if (b.until == 2)
    while (!x.seen[b.partner])
      vrt::yield_point();
  x.result[b.c] = 1;
  x.fin_t[b.c] = vrt::self();
  --x.unfinished;
  ev("fin", kv("c", b.c));
}

template <typename T>
struct owner {
  env& x;
  struct slot {
    int h = 0;
    body b;
    bool asked = false;
    T t;
    slot(int h) : h(h) {
    }
    slot(int h, body b, bool asked, T&& t) : h(h), b(b), asked(asked), t(std::move(t)) {
    }
  };
  std::vector<std::unique_ptr<slot>> slots;
  int next_h;

  owner(env& x, int base) : x(x), next_h(base) {
  }
  void create(body b) {
    auto s = std::make_unique<slot>(next_h++);
    s->b = b;
    T t = run<T>(x, b, guard(b.c));
    ev("made", kv("h", s->h), kv("c", b.c));
    if (x.fin_t[b.c] == vrt::self() && !b.nhops)
      ev("over", kv("c", b.c));
    s->t = std::move(t);
    slots.push_back(std::move(s));
  }
  void ask(slot& s) {
    if (s.b.c && !s.asked)
      x.asked[s.b.c] = 1;
    s.asked = true;
  }
  void joined(int c) {
    if (c && !x.result[c])
      ev("stale", kv("c", c));
  }
  // may its body end without our help?
  bool ends(slot& s) {
    return !s.b.c || s.b.until == 0 || (s.asked && s.b.until == 1);
  }
  void request(slot& s) {
    ask(s);
    ev("stop_b", kv("h", s.h));
    bool r = s.t.request_stop();
    ev("stop_e", kv("h", s.h), kv("ret", r));
  }
  slot* partner_of(slot& s) {
    for (auto& o : slots)
      if (o->b.c && o->b.c == s.b.partner)
        return o.get();
    return nullptr;
  }
  // destroying or assigning over needs the partner to be stopped already
  void prepare(slot& s) {
    if (s.b.until == 2)
      if (slot* p = partner_of(s))
        request(*p);
  }
  void step(vrt::rng& R_) {
    if (slots.empty())
      return;
    size_t i = (size_t)R_.below((int)slots.size());
    slot& s = *slots[i];
    switch (R_.below(9)) {
      case 0:
        if (s.t.joinable() && ends(s)) {
          ev("join_b", kv("h", s.h));
          s.t.join();
          ev("join_e", kv("h", s.h));
          joined(s.b.c);
          s.b = body{};
        }
        break;
      case 1:
        request(s);
        break;
      case 2:
        if (s.t.joinable() && ends(s)) {
          ev("detach_b", kv("h", s.h));
          s.t.detach();
          ev("detach_e", kv("h", s.h));
          s.b = body{};
        }
        break;
      case 3: {
        prepare(s);
        ask(s);
        int h = s.h, c = s.b.c;
        ev("dtor_b", kv("h", h));
        slots.erase(slots.begin() + (long)i);
        ev("dtor_e", kv("h", h));
        joined(c);
        break;
      }
      case 4: {
        auto n = std::make_unique<slot>(next_h++, std::exchange(s.b, body{}), s.asked, std::move(s.t));
        ev("move", kv("h", s.h), kv("g", n->h));
        slots.push_back(std::move(n));
        break;
      }
      case 5:
      case 6: {
        slot& o = *slots[(size_t)R_.below((int)slots.size())];
        if (&o == &s)
          break;
        if (R_.chance(50)) {
          if (R_.chance(50))
            s.t.swap(o.t);
          else {
            using std::swap;
            swap(s.t, o.t);
          }
          std::swap(s.b, o.b);
          std::swap(s.asked, o.asked);
          ev("swap", kv("h", s.h), kv("g", o.h));
        } else {
          prepare(s);
          ask(s);
          int c = s.b.c;
          ev("assign_b", kv("h", s.h), kv("g", o.h));
          s.t = std::move(o.t);
          ev("assign_e", kv("h", s.h), kv("g", o.h));
          joined(c);
          s.b = std::exchange(o.b, body{});
          s.asked = o.asked;
        }
        break;
      }
      case 7: {
        // several at once
        std::vector<slot*> v;
        for (auto& o : slots)
          if (o->t.joinable())
            v.push_back(o.get());
        stop_all(v, R_.chance(50));
        break;
      }
      default:
        ev("joinable", kv("h", s.h), kv("ret", s.t.joinable() && s.t.stop_possible()));
    }
  }
  void stop_all(std::vector<slot*>& v, bool range) {
    if (v.size() > 3)
      v.resize(3);
    // a body which waits for a partner needs it
    for (auto* s : v)
      if (s->b.until == 2) {
        slot* p = partner_of(*s);
        bool in = false;
        for (auto* o : v)
          in |= o == p;
        if (p && !in)
          request(*p);
      }
    if (v.empty())
      return;
    vrt::ints l;
    for (auto* s : v) {
      ask(*s);
      l.add(s->h);
    }
    ev("stopall_b", kv("hs", l.str()));
    if (range) {
      std::vector<T> ts;
      for (auto* s : v)
        ts.push_back(std::move(s->t));
      dd::stop(ts);
      for (auto& t : ts)
        if (t.joinable())
          ev("stale", kv("c", 0));
    } else if (v.size() == 1)
      dd::stop(v[0]->t);
    else if (v.size() == 2)
      dd::stop(v[0]->t, v[1]->t);
    else
      dd::stop(v[0]->t, v[1]->t, v[2]->t);
    ev("stopall_e", kv("hs", l.str()));
    for (auto* s : v) {
      joined(s->b.c);
      s->b = body{};
    }
  }
  void finish() {
    while (!slots.empty()) {
      slot& s = *slots.back();
      prepare(s);
      ask(s);
      int h = s.h, c = s.b.c;
      ev("dtor_b", kv("h", h));
      slots.pop_back();
      ev("dtor_e", kv("h", h));
      joined(c);
    }
  }
};

template <typename T>
void program(vrt::rng& R) {
  env x;
  x.fin_t = (int*)vrt::halloc(sizeof(int) * 32);
  // a body that waits for a stop keeps its worker
  x.pool = std::make_unique<dd::thread_pool>(size_t(1));
  int C = 1 + R.below(2);
  int id = 1;
  std::vector<std::vector<body>> bodies(C);
  for (int i = 0; i < C; i++) {
    int n = 1 + R.below(C == 1 ? 3 : 2);
    for (int k = 0; k < n; k++) {
      body b;
      b.c = id++;
      b.nhops = R.chance(25) ? 0 : 1 + R.below(3);
      for (int& h : b.hops)
        h = R.below(10) < 4 ? 1 : R.below(3) + 1;
      int newt = 0;
      for (int j = 0; j < b.nhops; j++)
        if (b.hops[j] == 2 && newt++)
          b.hops[j] = 3;
      if (b.nhops && R.chance(50)) {
        // waits on a thread of its own
        b.until = 1;
        b.hops[b.nhops - 1] = 2;
        for (int j = 0; j + 1 < b.nhops; j++)
          if (b.hops[j] == 2)
            b.hops[j] = 3;
        if (k && bodies[i].back().until && R.chance(60)) {
          b.until = 2;
          b.partner = b.c - 1;
          if (bodies[i].back().until == 1 && R.chance(50)) {
            bodies[i].back().until = 2;
            bodies[i].back().partner = b.c;
          }
        }
      }
      bodies[i].push_back(b);
    }
  }
  x.unfinished = id - 1;
  std::vector<owner<T>> os;
  for (int i = 0; i < C; i++)
    os.emplace_back(x, 100 * (i + 1));
  std::vector<int> th;
  th.push_back(vrt::spawn([&] {
    for (;;) {
      std::coroutine_handle<> h = nullptr;
      int c = 0;
      bool stop = x.unfinished == 0;
      {
        std::lock_guard l(x.m);
        if (!x.parked.empty()) {
          h = x.parked.back();
          c = x.parked_c.back();
          x.parked.pop_back();
          x.parked_c.pop_back();
        }
      }
      if (h) {
        h.resume();
        vrt::untracked u;
        if (x.fin_t[c] == vrt::self())
          ev("over", kv("c", c));
      } else if (stop)
        return;
      else
        vrt::yield_point();
    }
  }));
  for (int i = 0; i < C; i++)
    th.push_back(vrt::spawn([&, i, seed = R.next(), ops = 1 + R.below(7)] {
      vrt::rng r{seed};
      auto& o = os[i];
      for (auto& b : bodies[i])
        o.create(b);
      if (r.chance(30)) {
        auto s = std::make_unique<typename owner<T>::slot>(o.next_h++);
        ev("empty_handle", kv("h", s->h));
        o.slots.push_back(std::move(s));
      }
      for (int k = 0; k < ops; k++)
        o.step(r);
      o.finish();
    }));
  for (int t : th)
    vrt::join(t);
  vrt::wait_quiescent();
  ev("quiet");
  os.clear();
  x.pool.reset();
}

}  // namespace

SCENARIO(lthread) {
  program<dd::logical_thread>(R);
}
SCENARIO(lthread_r) {
  program<dd::logical_thread_r<dd::pmr::polymorphic_resource>>(R);
}
