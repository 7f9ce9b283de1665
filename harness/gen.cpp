#include "vrt/vstd.h"
#include <memory>
#include <string>
#include <vector>
#include <list>
#include <span>
#include <optional>
#include <exception>
#include <functional>
#include <ranges>
#include "kelcoro/generator.hpp"
#include "kelcoro/channel.hpp"
#include "kelcoro/inplace_generator.hpp"
#include "kelcoro/task.hpp"
#include "kelcoro/thread_pool.hpp"
#include "kelcoro/kelcoro.hpp"

using vrt::ev;
using vrt::kv;

namespace {

struct my_exc {
  int v;
  std::string pad = "                                ";
};

struct payload {
  std::string s;
  payload(int v) : s(std::to_string(v) + "                    ") {
  }
  payload(const payload&) = default;
  payload& operator=(const payload&) = default;
  payload(payload&& o) noexcept : s(std::move(o.s)) {
    o.s = "-2";
  }
  payload& operator=(payload&& o) noexcept {
    s = std::move(o.s);
    o.s = "-2";
    return *this;
  }
  operator int() const {
    return atoi(s.c_str());
  }
};

struct guard {
  int c;
  explicit guard(int c) : c(c) {
  }
  guard(guard&& o) noexcept : c(std::exchange(o.c, 0)) {
  }
  ~guard() {
    if (c)
      ev("free", kv("c", c));
  }
};

struct env {
  vrt::rng& R;
  std::unique_ptr<dd::thread_pool> pool;
  std::mutex m;
  std::vector<std::coroutine_handle<>> parked;
  std::vector<std::pair<std::coroutine_handle<>, int>> jobs;
  int co = 0, obj = 0, val = 0, exc = 0;
  int budget = 12;   // coroutines
  bool moves = false;  // few objects, whose coroutines change hands again and again
  int steps = 60;    // yields
  int newt = 2;
  const void* addr = nullptr;  // of the object yielded last
  std::atomic<int> left = 1;
  bool hops = false;
};

struct park {
  env& x;
  bool await_ready() {
    return false;
  }
  void await_suspend(std::coroutine_handle<> h) {
    std::lock_guard l(x.m);
    x.parked.push_back(h);
  }
  void await_resume() {
  }
};

template <typename G>
struct traits;
template <typename Y>
struct traits<dd::generator<Y>> {
  using y = Y;
  static constexpr bool chan = false;
  template <typename U>
  using of = dd::generator<U>;
  using pmr = dd::pmr::generator<Y>;
};
template <typename Y>
struct traits<dd::channel<Y>> {
  using y = Y;
  static constexpr bool chan = true;
  template <typename U>
  using of = dd::channel<U>;
  using pmr = dd::pmr::channel<Y>;
};
template <typename G, typename R>
struct traits<dd::resourced<G, R>> : traits<G> {};
template <typename G>
using yield_of = typename traits<G>::y;

int read(const int& i) {
  return i;
}
int read(const payload& p) {
  return atoi(p.s.c_str());
}
int read(const dd::nothing_t&) {
  return 0;
}

template <typename G, typename D>
D body(env& x, int c, int depth, guard);

// D: the type of the coroutine; G: generator or channel of the same kind without a resource
template <typename G>
G make_(env& x, int o, int depth) {
  int c = ++x.co;
  --x.budget;
  if (x.R.chance(20)) {
    using D = typename traits<G>::pmr;
    D d = body<G, D>(x, c, depth, guard(c));
    ev("make", kv("o", o), kv("c", c));
    return G(std::move(d.decay()));
  }
  G g = body<G, G>(x, c, depth, guard(c));
  ev("make", kv("o", o), kv("c", c));
  return g;
}

// an object which can be iterated
template <typename G>
struct object {
  int id;
  std::optional<G> g;

  object(env& x, int depth) : id(++x.obj), g(make_<G>(x, id, depth)) {
  }
  explicit object(env& x) : id(++x.obj), g(std::in_place) {
    ev("none", kv("o", id));
  }
  object(env& x, object& from) : id(++x.obj) {
    ev("move", kv("o", from.id), kv("p", id));
    g.emplace(std::move(*from.g));
  }
  ~object() {
    ev("dtor_b", kv("o", id));
    g.reset();
    ev("dtor_e", kv("o", id));
  }
};

template <typename G>
void observe(env& x, object<G>& o) {
  ev("empty", kv("o", o.id), kv("ret", o.g->empty()));
  if (o.g->empty() != !*o.g || (!o.g->raw_handle() && !o.g->empty()))
    ev("wrong", kv("o", o.id));
}

// what the consumer sees through its iterator
template <typename G, typename It>
void looks(env& x, object<G>& o, It& it) {
  using Y = yield_of<G>;
  if constexpr (!std::is_same_v<Y, dd::nothing_t>) {
    ev("peek", kv("o", o.id), kv("v", read(*it)));
    if constexpr (!std::is_const_v<std::remove_reference_t<Y>>) {
      if (x.R.chance(30)) {
        int v = 100000 + ++x.val;
        if constexpr (std::is_same_v<Y, int> || std::is_same_v<Y, int&>) {
          int& r = *it.operator->();
          r = v;
        } else {
          if (x.R.chance(50)) {
            Y taken = *it;  // moves it out
            v = -2;
          } else {
            Y& r = *it.operator->();
            r = Y(v);
          }
        }
        ev("put", kv("o", o.id), kv("v", v));
        ev("peek", kv("o", o.id), kv("v", read(*it)));
      }
    }
  }
}

template <typename G, typename It>
void got(env& x, object<G>& o, int by, It& it) {
  if constexpr (std::is_same_v<yield_of<G>, dd::nothing_t>) {
    ev("step_e", kv("o", o.id), kv("by", by), kv("kind", "val"), kv("v", 0));
    (void)*it;
  } else {
    auto&& r = *it;
    bool same = x.addr == (const void*)std::addressof(r);
    ev("step_e", kv("o", o.id), kv("by", by), kv("kind", "val"), kv("v", read(r)));
    ev("same", kv("o", o.id), kv("ret", same));
  }
}
template <typename G>
void no_more(object<G>& o, int by) {
  ev("step_e", kv("o", o.id), kv("by", by), kv("kind", "end"), kv("v", 0));
}
template <typename G>
void step(object<G>& o, int by) {
  ev("step_b", kv("o", o.id), kv("by", by), kv("ch", traits<G>::chan));
}

// away and back between two steps
template <typename G>
void carry(env& x, object<G>& o, bool look = true) {
  if (look && !x.R.chance(15))
    return;
  object<G> p(x, o);
  observe(x, o);
  observe(x, p);
  if constexpr (!std::is_same_v<yield_of<G>, dd::nothing_t>) {
    if constexpr (traits<G>::chan) {
      if (look) {  // it tells a failure when it ends
        dd::channel_iterator<yield_of<G>> it(*p.g);
        looks(x, p, it);
      }
    } else {
      auto it = p.g->cur_iterator();
      looks(x, p, it);
    }
  }
  if (x.R.chance(50)) {
    ev("swap", kv("o", o.id), kv("p", p.id));
    o.g->swap(*p.g);
  } else {
    ev("assign_b", kv("o", p.id), kv("p", o.id));
    *o.g = std::move(*p.g);
    ev("assign_e", kv("o", p.id), kv("p", o.id));
  }
}

template <typename G>
void gsession(env& x, object<G>& o, int by) {
  using Y = yield_of<G>;
  int left = x.R.chance(30) ? 1000 : 1 + x.R.below(4);
  step(o, by);
  try {
    if (x.R.chance(30)) {
      for (auto&& r : *o.g) {
        struct one {
          std::remove_reference_t<decltype(r)>* p;
          decltype(r) operator*() {
            return static_cast<decltype(r)>(*p);
          }
          std::remove_reference_t<decltype(r)>* operator->() {
            return p;
          }
        } it{std::addressof(r)};
        got(x, o, by, it);
        looks(x, o, it);
        if (--left == 0)
          return;
        step(o, by);
      }
      no_more(o, by);
      return;
    }
    auto it = o.g->begin();
    for (;;) {
      if (it == o.g->end()) {
        no_more(o, by);
        break;
      }
      got(x, o, by, it);
      looks(x, o, it);
      if (--left == 0)
        break;
      if (!it.equivalent(o.g->cur_iterator()) || &it.owner() != &*o.g)
        ev("wrong", kv("o", o.id));
      carry(x, o);
      step(o, by);
      if constexpr (std::is_same_v<Y, int> || std::is_same_v<Y, payload>) {
        if (x.R.chance(30)) {
          auto out = std::move(it).out();
          ++out;
          it = o.g->cur_iterator();
          continue;
        }
      }
      if (x.R.chance(50))
        ++it;
      else
        it++;
    }
  } catch (my_exc& e) {
    ev("step_e", kv("o", o.id), kv("by", by), kv("kind", "exc"), kv("v", e.v));
  }
}

template <typename G>
dd::task<void> csession(env& x, object<G>& o, int by) {
#include "session.inc"
}

// a range whose n-th element throws
struct thrower {
  env* x;
  int at;
  int e;
  int operator()(int i) const {
    if (i == at)
      throw my_exc{e};
    return i;
  }
};

template <typename G>
G el_temp(env& x, int c, int depth, int rng) {
  int o = ++x.obj;
  G g = make_<G>(x, o, depth);
  ev("el_b", kv("c", c), kv("o", o), kv("rng", rng), kv("keep", 0));
  return g;
}
template <typename D>
D el_temp_pmr(env& x, int c, int depth, int rng) {
  using G = typename traits<D>::template of<yield_of<D>>;
  int o = ++x.obj;
  int k = ++x.co;
  --x.budget;
  D d = body<G, D>(x, k, depth, guard(k));
  ev("make", kv("o", o), kv("c", k));
  ev("el_b", kv("c", c), kv("o", o), kv("rng", rng), kv("keep", 0));
  return d;
}

template <typename Y>
struct none_t {};

// iterates an object inside a body
#define SESSION(G, o)                  \
  if constexpr (traits<G>::chan)       \
    co_await csession<G>(x, (o), c);   \
  else                                 \
    gsession<G>(x, (o), c)

#define OTHER(G2)                                                                          \
  {                                                                                        \
    if (x.R.chance(50))                                                                    \
      co_yield dd::elements_of(el_temp<G2>(x, c, depth + 1, 1));                           \
    else {                                                                                 \
      object<G2> o(x, depth + 1);                                                          \
      int n = 1 + x.R.below(2);                                                            \
      for (int j = 0; j < n; j++) {                                                        \
        if constexpr (!traits<G2>::chan)                                                   \
          if (x.R.chance(30))                                                              \
            gsession<G2>(x, o, c);                                                         \
        ev("el_b", kv("c", c), kv("o", o.id), kv("rng", 1), kv("keep", 1));                \
        co_yield dd::elements_of(*o.g);                                                    \
        ev("el_e", kv("c", c));                                                            \
        observe(x, o);                                                                     \
      }                                                                                    \
      break;                                                                               \
    }                                                                                      \
    ev("el_e", kv("c", c));                                                                \
  }                                                                                        \
  break

template <typename G, typename D>
D body(env& x, int c, int depth, guard) {
  using Y = yield_of<G>;
  using V = std::remove_cvref_t<Y>;
  constexpr bool nothing = std::is_same_v<Y, dd::nothing_t>;
  ev("body_b", kv("c", c));
  int n = x.R.below(depth == 0 ? 7 : 4);
  for (int i = 0; i < n; i++) {
    int r = x.R.below(100);
    if (x.hops && traits<G>::chan && x.R.chance(35)) {
      if constexpr (traits<G>::chan) {
        ev("hop_b", kv("c", c));
        int h = x.R.below(3);
        if (h == 2 && x.newt-- <= 0)
          h = 0;
        if (h == 0)
          (void)co_await dd::jump_on(*x.pool);
        else if (h == 1)
          co_await park{x};
        else
          (void)co_await dd::jump_on(dd::new_thread_executor);
        ev("hop_e", kv("c", c));
      }
    }
    if (r < 50 || depth > 4 || x.budget <= 0) {  // a value
      if (--x.steps < 0)
        break;
      int v = ++x.val;
      if constexpr (nothing) {
        x.addr = nullptr;
        ev("y_b", kv("c", c), kv("v", 0), kv("form", "tmp"));
        co_yield dd::nothing_t{};
        ev("y_e", kv("c", c), kv("v", 0));
      } else if constexpr (std::is_reference_v<Y>) {
        std::remove_reference_t<Y> l(v);
        x.addr = &l;
        ev("y_b", kv("c", c), kv("v", v), kv("form", "ref"));
        if (r & 1)
          co_yield l;
        else
          co_yield dd::by_ref{l};
        ev("y_e", kv("c", c), kv("v", read(l)));
      } else
        switch (r % 5) {
          case 0: {
            Y l(v);
            x.addr = &l;
            ev("y_b", kv("c", c), kv("v", v), kv("form", "ref"));
            co_yield std::move(l);
            ev("y_e", kv("c", c), kv("v", read(l)));
            break;
          }
          case 1: {
            const Y l(v);
            x.addr = &l;
            ev("y_b", kv("c", c), kv("v", v), kv("form", "copy"));
            co_yield l;
            ev("y_e", kv("c", c), kv("v", read(l)));
            break;
          }
          case 2: {
            Y l(v);
            x.addr = &l;
            ev("y_b", kv("c", c), kv("v", v), kv("form", "copy"));
            co_yield l;
            ev("y_e", kv("c", c), kv("v", read(l)));
            break;
          }
          case 3: {
            Y l(v);
            x.addr = &l;
            ev("y_b", kv("c", c), kv("v", v), kv("form", "ref"));
            co_yield dd::by_ref{l};
            ev("y_e", kv("c", c), kv("v", read(l)));
            break;
          }
          default:
            x.addr = nullptr;
            ev("y_b", kv("c", c), kv("v", v), kv("form", "tmp"));
            co_yield Y(v);
            ev("y_e", kv("c", c), kv("v", v));
        }
    } else if (r < 70) {  // the same type
      switch (x.R.below(5)) {
        case 0:
        case 1:
          co_yield dd::elements_of(el_temp<G>(x, c, depth + 1, 0));
          break;
        case 2:
          co_yield dd::elements_of(el_temp_pmr<typename traits<G>::pmr>(x, c, depth + 1, 0));
          break;
        default: {
          object<G> o(x, depth + 1);
          bool first = x.R.chance(60);
          if (first) {
            SESSION(G, o);
          }
          if (first && x.R.chance(30)) {
            SESSION(G, o);
          }
          ev("el_b", kv("c", c), kv("o", o.id), kv("rng", 0), kv("keep", 0));
          if (x.R.chance(50))
            co_yield dd::elements_of(std::move(*o.g));
          else
            co_yield dd::elements_of(*o.g);
          ev("el_e", kv("c", c));
          observe(x, o);
          continue;
        }
      }
      ev("el_e", kv("c", c));
    } else if (r < 80) {  // another type
      if constexpr (std::is_same_v<Y, int>) {
        switch (x.R.below(2)) {
          case 0:
            OTHER(typename traits<G>::template of<payload>);
          default:
            OTHER(typename traits<G>::template of<int&>);
        }
      } else if constexpr (std::is_same_v<Y, payload>) {
        if constexpr (traits<G>::chan) {
          switch (x.R.below(2)) {
            case 0:
              OTHER(dd::generator<payload>);
            default:
              OTHER(typename traits<G>::template of<int>);
          }
        } else
          switch (0) {
            default:
              OTHER(typename traits<G>::template of<int>);
          }
      } else if constexpr (std::is_same_v<Y, int&> && traits<G>::chan) {
        switch (0) {
          default:
            OTHER(dd::generator<int&>);
        }
      }
    } else if (r < 90) {  // a range
      int k = x.R.below(5);
      std::vector<int> vs;
      vrt::ints l;
      for (int j = 0; j < k; j++)
        vs.push_back(++x.val);
      bool thr = x.R.chance(20) && !std::is_reference_v<Y> && !nothing;
      int e = 0;
      for (int j = 0; j < k; j++)
        l.add(vs[j]);
      if (thr) {
        e = 500000 + ++x.exc;
        l.add(-e);
      }
      if (!nothing)
        ev("el_r", kv("c", c), kv("l", l.str()));
      if constexpr (nothing) {
      } else if constexpr (std::is_same_v<Y, int&>) {
        if (k % 2) {
          std::span<int> s(vs);
          co_yield dd::elements_of(s);
        } else
          co_yield dd::elements_of(vs);
      } else if constexpr (std::is_same_v<Y, const int&>) {
        const auto& cv = vs;
        if (k % 2)
          co_yield dd::elements_of(cv);
        else
          co_yield dd::elements_of(vs);
      } else {
        if (thr) {
          vs.push_back(0);
          auto t = vs | std::views::transform(thrower{&x, 0, e});
          co_yield dd::elements_of(t);
        } else
          switch (x.R.below(6)) {
            case 0:
              co_yield dd::elements_of(vs);
              break;
            case 1: {
              std::list<V> q(vs.begin(), vs.end());
              co_yield dd::elements_of(q);
              break;
            }
            case 2:
              co_yield dd::elements_of(std::vector<V>(vs.begin(), vs.end()));
              break;
            case 3: {
              std::vector<V> w(vs.begin(), vs.end());
              co_yield dd::elements_of(w);
              break;
            }
            case 4:
              co_yield dd::elements_of(vs | std::views::transform([](int i) { return V(i); }));
              break;
            default:
              if (k)
                co_yield dd::elements_of(std::views::iota(vs[0], vs[0] + k));
              else
                co_yield dd::elements_of(std::span<int>());
          }
      }
      if (!nothing)
        ev("el_e", kv("c", c));
    } else if (r < 96) {  // its own consumer of something
      object<G> o(x, depth + 1);
      SESSION(G, o);
      observe(x, o);
    } else if (r < 99) {
      int e = 500000 + ++x.exc;
      ev("body_x", kv("c", c), kv("x", e));
      throw my_exc{e};
    }
  }
  ev("body_e", kv("c", c));
}

template <typename G>
dd::job consumer(env& x) {
  constexpr int by = 1000;
  std::vector<std::unique_ptr<object<G>>> os;
  int n = x.moves ? 10 + x.R.below(12) : 3 + x.R.below(12);
  int hot = -1;
  for (int i = 0; i < n; i++) {
    if (os.empty() || (x.R.chance(20) && x.budget > 0 && !(x.moves && os.size() > 3))) {
      x.budget = std::max(x.budget, 4);
      os.push_back(x.R.chance(90) ? std::make_unique<object<G>>(x, 0) : std::make_unique<object<G>>(x));
      continue;
    }
    size_t a = x.R.below(os.size()), b = x.R.below(os.size());
    int r = x.R.below(100);
    if (x.moves && r >= 40) {
      static const int some[] = {52, 60, 70, 70, 76, 82, 82, 82, 88, 95};
      r = some[x.R.below(10)];
      if (r < 60 && os.size() > 3)
        r = 82;
    }
    if (hot >= 0 && (size_t)hot < os.size() && x.R.chance(60)) {
      a = (size_t)hot;  // how does the one go on that was just changed?
      r = x.R.below(50);
    }
    object<G>&o = *os[a], &p = *os[b];
    hot = r < 50 ? -1 : r < 58 ? (int)os.size() : r < 86 ? (int)b : -1;
    if (r < 50) {
      if constexpr (traits<G>::chan) {
        if (x.R.chance(50)) {
          co_await csession<G>(x, o, by);
        } else {  // in this coroutine itself, again and again
#include "session.inc"
        }
      } else
        gsession<G>(x, o, by);
      if constexpr (traits<G>::chan)
        if (x.R.chance(20))
          (void)co_await dd::jump_on(*x.pool);
    } else if (r < 58) {
      os.push_back(std::make_unique<object<G>>(x, o));
      observe(x, o);
      observe(x, *os.back());
    } else if (r < 68) {
      ev("swap", kv("o", o.id), kv("p", p.id));
      if (x.R.chance(50))
        swap(*o.g, *p.g);
      else
        o.g->swap(*p.g);
      observe(x, o);
      observe(x, p);
    } else if (r < 74) {
      if (&o != &p) {
        ev("assign_b", kv("o", o.id), kv("p", p.id));  // p = std::move(o)
        *p.g = std::move(*o.g);
        ev("assign_e", kv("o", o.id), kv("p", p.id));
        observe(x, o);
        observe(x, p);
      }
    } else if (r < 80) {
      ev("clear_b", kv("o", o.id));
      o.g->clear();
      ev("clear_e", kv("o", o.id));
      observe(x, o);
    } else if (r < 86) {
      // into another one, or away
      auto h = o.g->release();
      ev("release", kv("o", o.id), kv("h", 100 + i));
      observe(x, o);
      if (x.R.chance(70)) {
        ev("reset_b", kv("o", p.id), kv("h", 100 + i));
        p.g->reset(h);
        ev("reset_e", kv("o", p.id), kv("h", 100 + i));
        observe(x, p);
      } else if (h) {
        ev("dtor_b", kv("o", 100 + i));
        h.destroy();
        ev("dtor_e", kv("o", 100 + i));
      }
    } else if (r < 92) {
      observe(x, o);
      ev("eq", kv("o", o.id), kv("p", p.id), kv("ret", *o.g == *p.g));
      if constexpr (!std::is_same_v<yield_of<G>, dd::nothing_t>) {
        if constexpr (!traits<G>::chan) {
          if (o.g->raw_handle()) {
            auto it = o.g->cur_iterator();
            ev("at_end", kv("o", o.id), kv("ret", it == o.g->end()));
            if (it != o.g->end())
              looks(x, o, it);
          }
        } else {
          dd::channel_iterator<yield_of<G>> it(*o.g);
          ev("at_end", kv("o", o.id), kv("ret", it == o.g->end()));
          if (it != o.g->end())
            looks(x, o, it);
        }
      }
      if constexpr (traits<G>::chan) {
      } else if (!o.g->empty() && x.R.chance(50)) {
        auto it = o.g->cur_iterator();
        step(o, by);
        try {
          ++it;
          if (it == o.g->end())
            no_more(o, by);
          else {
            got(x, o, by, it);
            looks(x, o, it);
          }
        } catch (my_exc& e) {
          ev("step_e", kv("o", o.id), kv("by", by), kv("kind", "exc"), kv("v", e.v));
        }
      }
    } else {
      os.erase(os.begin() + a);
    }
  }
  os.clear();
  --x.left;
}

void run_parked(env& x) {
  for (;;) {
    std::coroutine_handle<> h = nullptr;
    bool stop = x.left == 0;
    {
      std::lock_guard l(x.m);
      if (!x.parked.empty()) {
        h = x.parked.back();
        x.parked.pop_back();
      }
    }
    if (h)
      h.resume();
    else if (stop)
      return;
    else
      vrt::yield_point();
  }
}

template <typename G>
void program(vrt::rng& R, bool hops, bool moves = false) {
  env& x = *new env{R};
  x.moves = moves;
  vrt::cfg_("chan", traits<G>::chan);
  vrt::cfg_("nothing", std::is_same_v<yield_of<G>, dd::nothing_t>);
  x.hops = hops;
  if constexpr (traits<G>::chan)
    x.pool = std::make_unique<dd::thread_pool>(size_t(1));
  if (hops) {
    int a = vrt::spawn([&] { consumer<G>(x); });
    int b = vrt::spawn([&] { run_parked(x); });
    vrt::join(a);
    vrt::join(b);
    vrt::wait_quiescent();
  } else {
    consumer<G>(x);
    if constexpr (traits<G>::chan)
      while (x.left)
        vrt::yield_point();
  }
  x.pool.reset();
  delete &x;
}

}  // namespace

// jobs: nobody owns them; what they own goes with them
namespace {
struct jpark {
  env& x;
  int c;
  bool await_ready() {
    return false;
  }
  void await_suspend(std::coroutine_handle<> h) {
    std::lock_guard l(x.m);
    x.jobs.emplace_back(h, c);
  }
  void await_resume() {
  }
};
struct leaves {
  env* x;
  explicit leaves(env& x) : x(&x) {
  }
  leaves(leaves&& o) noexcept : x(std::exchange(o.x, nullptr)) {
  }
  ~leaves() {
    if (x)
      --x->left;
  }
};
template <typename G>
dd::job jobber(env& x, env& lot, int c, leaves, guard) {
  ev("job_b", kv("c", c));
  {
    std::vector<std::unique_ptr<object<G>>> os;
    int n = x.R.below(7);
    for (int i = 0; i < n; i++) {
      int r = x.R.below(100);
      if (r < 40) {
        ev("hop_b", kv("c", c));
        int h = x.R.below(5);
        if (h == 4 && x.newt-- <= 0)
          h = 0;
        if (h < 2)
          (void)co_await dd::jump_on(*lot.pool);
        else if (h < 4)
          co_await jpark{lot, c};
        else
          (void)co_await dd::jump_on(dd::new_thread_executor);
        ev("hop_e", kv("c", c));
      } else if (r < 60 || os.empty()) {
        os.push_back(std::make_unique<object<G>>(x, 0));
      } else if (r < 90) {
        auto& o = *os[x.R.below(os.size())];
        if constexpr (traits<G>::chan)
          co_await csession<G>(x, o, c);
        else
          gsession<G>(x, o, c);
      } else
        os.erase(os.begin() + x.R.below(os.size()));
    }
  }
  ev("body_e", kv("c", c));
}

template <typename G>
void jobs(vrt::rng& R, int many) {
  env& lot = *new env{R};
  lot.pool = std::make_unique<dd::thread_pool>(size_t(1 + R.below(2)));
  vrt::cfg_("chan", traits<G>::chan);
  int n = many ? many : 1 + R.below(3);
  struct seat {
    vrt::rng r;
    env x;
    seat(uint64_t s, int j) : r{s}, x{r} {
      x.co = x.obj = x.val = x.exc = j * 300;
      x.budget = 5;
      x.steps = 20;
    }
  };
  std::vector<std::unique_ptr<seat>> seats;
  std::vector<int> fs;
  lot.left = n;
  for (int j = 1; j <= n; j++) {
    seats.push_back(std::make_unique<seat>(R.next(), j));
    env& x = seats.back()->x;
    int c = ++x.co;
    if (many || R.chance(40)) {
      ev("job", kv("c", c));
      jobber<G>(x, lot, c, leaves(lot), guard(c));
    } else
      fs.push_back(vrt::spawn([&x, &lot, c] {
        ev("job", kv("c", c));
        jobber<G>(x, lot, c, leaves(lot), guard(c));
      }));
  }
  bool kills = R.chance(60);
  vrt::rng kr{R.next()};
  fs.push_back(vrt::spawn([&] {
    for (;;) {
      std::coroutine_handle<> h = nullptr;
      int c = 0;
      bool stop = lot.left == 0;
      {
        std::lock_guard l(lot.m);
        if (!lot.jobs.empty()) {
          std::tie(h, c) = lot.jobs.front();
          lot.jobs.erase(lot.jobs.begin());
        }
      }
      if (h) {
        if (kills && kr.chance(40)) {
          ev("kill_b", kv("c", c));
          h.destroy();
          ev("kill_e", kv("c", c));
        } else
          h.resume();
      } else if (stop)
        return;
      else
        vrt::yield_point();
    }
  }));
  for (int f : fs)
    vrt::join(f);
  vrt::wait_quiescent();
  lot.pool.reset();
  seats.clear();
  delete &lot;
}
}  // namespace
SCENARIO(jobs) {
  switch (variant % 3) {
    case 0:
      jobs<dd::generator<int>>(R, 0);
      break;
    case 1:
      jobs<dd::generator<payload>>(R, 0);
      break;
    default:
      jobs<dd::channel<int>>(R, 0);
  }
}

SCENARIO(gen) {
  switch (variant % 8) {
    case 0:
    case 1:
    case 2:
      program<dd::generator<int>>(R, false);
      break;
    case 3:
    case 4:
      program<dd::generator<payload>>(R, false);
      break;
    case 5:
      program<dd::generator<int&>>(R, false);
      break;
    case 6:
      program<dd::generator<const int&>>(R, false);
      break;
    default:
      program<dd::generator<dd::nothing_t>>(R, false);
  }
}
SCENARIO(chan) {
  switch (variant % 4) {
    case 0:
    case 1:
      program<dd::channel<int>>(R, false);
      break;
    case 2:
      program<dd::channel<payload>>(R, false);
      break;
    default:
      program<dd::channel<int&>>(R, false);
  }
}
SCENARIO(chan_hop) {
  switch (variant % 4) {
    case 0:
    case 1:
      program<dd::channel<int>>(R, true);
      break;
    case 2:
      program<dd::channel<payload>>(R, true);
      break;
    default:
      program<dd::channel<int&>>(R, true);
  }
}
SCENARIO(gen_moves) {
  switch (variant % 8) {
    case 0:
    case 1:
    case 2:
      program<dd::generator<int>>(R, false, true);
      break;
    case 3:
    case 4:
      program<dd::generator<payload>>(R, false, true);
      break;
    case 5:
      program<dd::generator<int&>>(R, false, true);
      break;
    case 6:
      program<dd::generator<const int&>>(R, false, true);
      break;
    default:
      program<dd::generator<dd::nothing_t>>(R, false, true);
  }
}
SCENARIO(chan_moves) {
  switch (variant % 4) {
    case 0:
    case 1:
      program<dd::channel<int>>(R, false, true);
      break;
    case 2:
      program<dd::channel<payload>>(R, false, true);
      break;
    default:
      program<dd::channel<int&>>(R, false, true);
  }
}
