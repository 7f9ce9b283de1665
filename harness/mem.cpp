#include "vrt/vstd.h"
#include "kelcoro/kelcoro.hpp"
#include <cstring>
#include <functional>
#include <memory>
#include <memory_resource>
#include <optional>
#include <vector>

using vrt::ev;
using vrt::kv;

namespace {

// ------------------------------------------------------------------ memory
struct R_pmr;
struct state {
  int next_r = 20, next_c = 1, next_p = 1, nest = 0, nlate = 0;
  R_pmr* late[3] = {};
  int refuse = 0;  // the refuse-th request from now fails
  std::vector<std::coroutine_handle<>> parked;
  std::atomic<int> hand = 0;  // coroutines pass from thread to thread by it
};
state* G;
void handover() {
  G->hand.fetch_add(1, std::memory_order_acq_rel);
}

void* take(int rid, size_t n, long off, size_t skew = 0) {
  {
    vrt::untracked u;
    if (G->refuse && --G->refuse == 0) {
      ev("refuse", kv("r", rid), kv("n", n));
      throw std::bad_alloc();
    }
  }
  char* p = (char*)::operator new(n + 48) + skew;
  vrt::untracked u;
  memset(p, 0xA5, n);
  memset(p + n, 0x5A, 16);
  ev("alloc", kv("r", rid), kv("b", vrt::where(p).b), kv("n", n), kv("off", off + (long)((uintptr_t)p % 16)));
  return p;
}
void give(int rid, void* v, size_t n, long off, size_t skew = 0) {
  char* p = (char*)v;
  {
    vrt::untracked u;
    bool ok = true;
    for (int i = 0; i < 16 && ok; i++)
      ok = p[n + (size_t)i] == 0x5A;
    if (!ok)
      ev("corrupt", kv("what", 1));
    vrt::place w = vrt::where(p);
    ev("free", kv("r", rid), kv("b", w.off == (long)skew ? w.b : -1), kv("n", n), kv("off", off));
    memset(p, 0xDD, n);
  }
  ::operator delete(p - skew);
}

// ------------------------------------------------------------------ resources
// a write which stays although the object dies
template <typename T>
void wipe(T& x) {
  *(volatile T*)&x = 0;
}
struct R_empty {
  static constexpr int id = 2;
  static void* allocate(size_t n) {
    return take(id, n, 0);
  }
  static void deallocate(void* p, size_t n) {
    give(id, p, n, 0);
  }
};
#define RES_OPS                                              \
  void* allocate(size_t n) {                                 \
    return take(rid(), n, (long)((uintptr_t)this % alignof(*this))); \
  }                                                          \
  void deallocate(void* p, size_t n) {                       \
    give(rid(), p, n, (long)((uintptr_t)this % alignof(*this))); \
  }
struct R_byte {
  unsigned char id;
  explicit R_byte(int i) : id((unsigned char)i) {
  }
  int rid() const {
    return id;
  }
  RES_OPS
};
struct R_six {
  unsigned short a = 0x1234, id, b = 0x4321;
  explicit R_six(int i) : id((unsigned short)i) {
  }
  R_six(R_six&& o) noexcept : a(o.a), id(std::exchange(o.id, (unsigned short)0)), b(o.b) {
  }
  R_six(const R_six&) = default;
  ~R_six() {
    wipe(id);
    wipe(a);
  }
  int rid() const {
    return a == 0x1234 && b == 0x4321 ? id : -3;
  }
  RES_OPS
};
struct R_words {
  long a = 0x12345678, id, b = 0x87654321;
  explicit R_words(int i) : id(i) {
  }
  int rid() const {
    return a == 0x12345678 && b == 0x87654321 ? (int)id : -3;
  }
  RES_OPS
};
struct alignas(16) R_big {
  long a = 0x12345678, id, b[4] = {1, 2, 3, 4};
  R_big* self;
  explicit R_big(int i) : id(i), self(this) {
  }
  R_big(R_big&& o) noexcept : a(o.a), id(std::exchange(o.id, 0)), self(this) {
  }
  R_big(const R_big& o) : a(o.a), id(o.id), self(this) {
  }
  ~R_big() {
    wipe(id);
    wipe(a);
  }
  int rid() const {
    return a == 0x12345678 && b[0] == 1 && b[1] == 2 && b[2] == 3 && b[3] == 4 && self == this ? (int)id : -3;
  }
  RES_OPS
};
struct alignas(16) R_wide {  // trivial
  long a = 0x12345678, id;
  explicit R_wide(int i) : id(i) {
  }
  int rid() const {
    return a == 0x12345678 ? (int)id : -3;
  }
  RES_OPS
};
int made() {
  vrt::untracked u;
  int r = G->next_r++;
  ev("made", kv("r", r));
  return r;
}
struct R_def {  // can be made by default
  int id;
  R_def() : id(made()) {
  }
  explicit R_def(int i) : id(i) {
  }
  int rid() const {
    return id;
  }
  RES_OPS
};
struct alignas(16) R_defbig {
  int a = 0x1234, id;
  R_defbig* self;
  R_defbig() : id(made()), self(this) {
  }
  explicit R_defbig(int i) : id(i), self(this) {
  }
  R_defbig(R_defbig&& o) noexcept : id(std::exchange(o.id, 0)), self(this) {
  }
  R_defbig(const R_defbig& o) : id(o.id), self(this) {
  }
  ~R_defbig() {
    wipe(id);
    wipe(a);
  }
  int rid() const {
    return a == 0x1234 && self == this ? id : -3;
  }
  RES_OPS
};
#undef RES_OPS
// a resource for chunk_from
struct R_site {
  int id;
  void* allocate(size_t n) {
    return take(id, n, 0);
  }
  void deallocate(void* p, size_t n) {
    give(id, p, n, 0);
  }
};
struct R_pmr : std::pmr::memory_resource {
  int id;
  int ready;
  explicit R_pmr(int i) : id(i), ready(77) {
  }
  void look() {
    if (ready != 77)
      ev("corrupt", kv("what", 2));
  }
  // memory no better aligned than asked
  void* do_allocate(size_t n, size_t al) override {
    look();
    return take(id, n, al > 16 ? 1 : 0, al < 16 ? al : 0);
  }
  void do_deallocate(void* p, size_t n, size_t al) override {
    look();
    give(id, p, n, 0, al < 16 ? al : 0);
  }
  bool do_is_equal(const memory_resource& o) const noexcept override {
    return this == &o;
  }
};
R_site g_site[3] = {{3}, {4}, {5}};
R_pmr g_pmr[4] = {R_pmr(1), R_pmr(6), R_pmr(7), R_pmr(8)};

// ------------------------------------------------------------------ coroutines
struct order {
  int steps = 0, throw_at = -1, park_at = -1;
  bool bomb = false;  // copying the arguments into the frame throws
  int nest = -1;      // creates another coroutine at this step
  uint64_t seed = 0;
};
template <size_t N>
struct pad {
  order o;
  unsigned char d[N];
  explicit pad(const order& x) : o(x) {
    vrt::untracked u;
    for (size_t i = 0; i < N; i++)
      d[i] = (unsigned char)(i * 7 + 3);
  }
  pad(pad&& x) : o(x.o) {
    vrt::untracked u;
    memcpy(d, x.d, N);
    if (o.bomb)
      throw 5;
  }
  void check() const {
    vrt::untracked u;
    for (size_t i = 0; i < N; i++)
      if (d[i] != (unsigned char)(i * 7 + 3)) {
        ev("corrupt", kv("what", 2));
        return;
      }
  }
  ~pad() {
    check();
  }
};
struct park {
  bool yes;
  bool await_ready() const {
    return !yes;
  }
  void await_suspend(std::coroutine_handle<> h) const {
    handover();
    vrt::untracked u;
    G->parked.push_back(h);
  }
  void await_resume() const {
  }
};
void nested(uint64_t seed);
struct boom {};

#define BODY_STEP(i)             \
  p.check();                     \
  if (p.o.nest == i)             \
    nested(p.o.seed);            \
  if (p.o.throw_at == i)         \
    throw boom{};

template <typename C, size_t N, typename... W>
[[gnu::noinline]] C gen_like(pad<N> p, W... w) {
  pad<N> mine(order{});
  for (int i = 0; i < p.o.steps; i++) {
    BODY_STEP(i)
    mine.check();
    co_yield i;
  }
}
template <typename C, size_t N, typename... W>
[[gnu::noinline]] C task_like(pad<N> p, W... w) {
  pad<N> mine(order{});
  for (int i = 0; i < p.o.steps; i++) {
    BODY_STEP(i)
    mine.check();
    co_await park{p.o.park_at == i};
    mine.check();
  }
  co_return p.o.steps;
}
template <typename C, size_t N, typename... W>
[[gnu::noinline]] C job_like(pad<N> p, W... w) {
  pad<N> mine(order{});
  for (int i = 0; i < p.o.steps; i++) {
    p.check();
    if (p.o.nest == i)
      nested(p.o.seed);
    mine.check();
    co_await park{p.o.park_at == i};
    mine.check();
  }
}
struct maker {  // member functions are coroutines too
  template <typename C, size_t N, typename... W>
  [[gnu::noinline]] C gen_like(pad<N> p, W... w) {
    for (int i = 0; i < p.o.steps; i++) {
      BODY_STEP(i)
      co_yield i;
    }
  }
};

// ------------------------------------------------------------------ living coroutines
struct thing {
  virtual void step() {
  }
  virtual bool at_rest() {  // may be dropped
    return true;
  }
  virtual ~thing() = default;
};
template <typename C>
struct gen_thing : thing {
  C g;
  std::optional<decltype(g.begin())> it;
  bool over = false;
  gen_thing(C&& x) : g(std::move(x)) {
  }
  void step() override {
    if (over)
      return;
    try {
      if (!it)
        it.emplace(g.begin());
      else
        ++*it;
      over = *it == g.end();
    } catch (boom&) {
      over = true;
    }
  }
};
template <typename C>
struct chan_thing : thing {
  C c;
  chan_thing(C&& x) : c(std::move(x)) {
  }
  static dd::job one(C& c) {
    try {
      (void)co_await c.next();
    } catch (boom&) {
    }
  }
  void step() override {
    if (!c.empty())
      one(c);
  }
};
template <typename C>
struct task_thing : thing {
  C t;
  bool started = false;
  std::atomic<bool> done = false;
  task_thing(C&& x) : t(std::move(x)) {
  }
  static dd::job one(C& t, std::atomic<bool>& done) {
    try {
      (void)co_await t;
    } catch (boom&) {
    }
    done.store(true, std::memory_order_release);
  }
  void step() override {
    if (std::exchange(started, true))
      return;
    one(t, done);
  }
  bool at_rest() override {
    return !started || done.load(std::memory_order_acquire);
  }
};
template <typename C>
struct async_thing : thing {
  C t;
  async_thing(C&& x) : t(std::move(x)) {
  }
  void step() override {  // detaches itself when dropped
  }
};
template <typename C>
struct lthread_thing : thing {
  C t;
  lthread_thing(C&& x) : t(std::move(x)) {
  }
  ~lthread_thing() {
    t.detach();
  }
};
struct job_thing : thing {};

template <typename C>
thing* keep(C&& c, vrt::rng& R) {
  using T = std::remove_cvref_t<C>;
  if constexpr (std::is_base_of_v<dd::generator<int>, T>)
    return new gen_thing<T>(std::move(c));
  else if constexpr (std::is_base_of_v<dd::channel<int>, T>)
    return new chan_thing<T>(std::move(c));
  else if constexpr (std::is_base_of_v<dd::task<int>, T>) {
    if (R.chance(15)) {
      c.start_and_detach();
      return nullptr;
    }
    return new task_thing<T>(std::move(c));
  } else if constexpr (std::is_base_of_v<dd::async_task<int>, T>)
    return new async_thing<T>(std::move(c));
  else if constexpr (std::is_base_of_v<dd::logical_thread, T>)
    return new lthread_thing<T>(std::move(c));
  else
    return nullptr;
}

template <typename C>
constexpr bool may_throw = std::is_base_of_v<dd::generator<int>, C> || std::is_base_of_v<dd::channel<int>, C> ||
                           std::is_base_of_v<dd::task<int>, C>;

order an_order(vrt::rng& R, bool throws, int depth) {
  order o;
  o.steps = R.below(4);
  if (R.chance(30))
    o.park_at = R.below(3);
  if (throws && R.chance(25))
    o.throw_at = R.below(3);
  if (depth < 2 && R.chance(20)) {
    o.nest = R.below(3);
    o.seed = R.next();
  }
#ifndef NO_BOMB
  o.bomb = R.chance(4);
#endif
  return o;
}

// the call of a coroutine; r: resource it has to use
template <typename F>
thing* call(int r, vrt::rng& R, F f) {
  int c;
  {
    vrt::untracked u;
    c = G->next_c++;
    if (R.chance(4))
      G->refuse = 1;
  }
  ev("call", kv("c", c), kv("r", r));
  try {
    auto x = f();
    ev("called", kv("c", c));
    G->refuse = 0;
    return keep(std::move(x), R);
  } catch (const std::bad_alloc&) {
    ev("call_x", kv("c", c));
  } catch (int) {
    ev("call_x", kv("c", c));
  }
  G->refuse = 0;
  return nullptr;
}

enum { POLY = -1, DEF = 0 };

template <typename C, size_t N, typename W, typename... A>
C start(const order& o, bool member, A&&... a) {
  if constexpr (std::is_base_of_v<dd::generator<int>, C>) {
    if (member)
      return maker{}.template gen_like<C, N, W>(pad<N>(o), std::forward<A>(a)...);
    return gen_like<C, N, W>(pad<N>(o), std::forward<A>(a)...);
  } else if constexpr (std::is_base_of_v<dd::channel<int>, C>)
    return gen_like<C, N, W>(pad<N>(o), std::forward<A>(a)...);
  else if constexpr (std::is_base_of_v<dd::task<int>, C> || std::is_base_of_v<dd::async_task<int>, C>)
    return task_like<C, N, W>(pad<N>(o), std::forward<A>(a)...);
  else
    return job_like<C, N, W>(pad<N>(o), std::forward<A>(a)...);
}
template <typename C, size_t N>
C start0(const order& o) {
  if constexpr (std::is_base_of_v<dd::generator<int>, C> || std::is_base_of_v<dd::channel<int>, C>)
    return gen_like<C, N>(pad<N>(o));
  else if constexpr (std::is_base_of_v<dd::task<int>, C> || std::is_base_of_v<dd::async_task<int>, C>)
    return task_like<C, N>(pad<N>(o));
  else
    return job_like<C, N>(pad<N>(o));
}

using dd::with_resource;
// the resource is the last argument
template <typename C, typename Res, size_t N, typename Mk>
thing* passed(int r, vrt::rng& R, const order& o, Mk mk) {
  using W = with_resource<Res>;
  int style = R.below(5);
  if constexpr (N == 16 && (std::is_base_of_v<dd::generator<int>, C> || std::is_same_v<dd::task<int>, C>)) {
    switch (style) {
      case 1: {
        const W w(mk());
        return call(r, R, [&] { return start<C, N, const W&>(o, R.chance(30), w); });
      }
      case 2:
        return call(r, R, [&] { return start<C, N, W&&>(o, false, W(mk())); });
      case 3: {
        W w(mk());
        return call(r, R, [&] { return start<C, N, W&>(o, false, w); });
      }
      default:;
    }
  }
  if (style == 4) {
    W w(mk());
    return call(r, R, [&] { return start<C, N, W>(o, R.chance(20), w); });  // a copy
  }
  return call(r, R, [&] { return start<C, N, W>(o, R.chance(20), mk()); });
}

int fresh() {
  vrt::untracked u;
  return G->next_r++;
}

template <typename C, size_t N>
thing* by_argument(vrt::rng& R, const order& o) {
  int r = fresh();
  switch (R.below(9)) {
    case 0:
      return passed<C, R_empty, N>(R_empty::id, R, o, [&] { return R_empty{}; });
    case 1:
      return passed<C, R_byte, N>(r, R, o, [&] { return R_byte(r); });
    case 2:
      return passed<C, R_six, N>(r, R, o, [&] { return R_six(r); });
    case 3:
      return passed<C, R_words, N>(r, R, o, [&] { return R_words(r); });
    case 4:
      return passed<C, R_big, N>(r, R, o, [&] { return R_big(r); });
    case 5:
      return passed<C, R_wide, N>(r, R, o, [&] { return R_wide(r); });
    case 6: {
      R_site& s = g_site[R.below(3)];
      return passed<C, dd::chunk_from<R_site>, N>(s.id, R, o, [&]() -> R_site& { return s; });
    }
    case 7: {
      R_pmr& s = g_pmr[R.below(4)];
      return passed<C, dd::chunk_from<std::pmr::memory_resource>, N>(s.id, R, o,
                                                                    [&]() -> std::pmr::memory_resource& { return s; });
    }
    default: {
      R_pmr& s = g_pmr[R.below(4)];
      return passed<C, dd::pmr::polymorphic_resource, N>(s.id, R, o,
                                                         [&]() -> std::pmr::memory_resource& { return s; });
    }
  }
}
template <template <typename> typename CR, size_t N>
thing* by_type(vrt::rng& R, const order& o) {
  int r;
  switch (R.below(5)) {
    case 0:
      return call(R_empty::id, R, [&] { return start0<CR<R_empty>, N>(o); });
    case 1:
      return call(DEF, R, [&] { return start0<CR<R_def>, N>(o); });
    case 2:
      return call(DEF, R, [&] { return start0<CR<R_defbig>, N>(o); });
    case 3:
      r = fresh();
      return call(r, R, [&] { return start<CR<R_def>, N, with_resource<R_def>>(o, false, R_def(r)); });
    default:
      r = fresh();
      return call(r, R, [&] { return start<CR<R_words>, N, with_resource<R_words>>(o, false, R_words(r)); });
  }
}
template <typename R>
using gen_r = dd::generator_r<int, R>;
template <typename R>
using chan_r = dd::channel_r<int, R>;
template <typename R>
using task_r = dd::task_r<int, R>;
template <typename R>
using async_r = dd::async_task_r<int, R>;
template <typename R>
using job_r = dd::job_r<R>;
template <typename R>
using lt_r = dd::logical_thread_r<R>;

template <template <typename> typename CR, typename C>
thing* kind(vrt::rng& R, int depth) {
  order o = an_order(R, may_throw<C>, depth);
  switch (R.below(4)) {
    case 0:
      return by_type<CR, 24>(R, o);
    case 1:
      return by_argument<C, 8>(R, o);
    default:
      return by_argument<C, 16>(R, o);
  }
}
thing* create(vrt::rng& R, int depth) {
  switch (R.below(6)) {
    case 0:
      return kind<gen_r, dd::generator<int>>(R, depth);
    case 1:
      return kind<chan_r, dd::channel<int>>(R, depth);
    case 2:
      return kind<task_r, dd::task<int>>(R, depth);
    case 3:
      return kind<async_r, dd::async_task<int>>(R, depth);
    case 4:
      return kind<job_r, dd::job>(R, depth);
    default:
      return kind<lt_r, dd::logical_thread>(R, depth);
  }
}

// polymorphic ones
template <typename P, typename C>
thing* pmr_kind(vrt::rng& R, int depth) {
  order o = an_order(R, may_throw<C>, depth);
  using W = with_resource<dd::pmr::polymorphic_resource>;
  R_pmr& s = g_pmr[R.below(4)];
  switch (R.below(4)) {
    case 0:
      return call(POLY, R, [&] { return start<C, 16, W>(o, false, W{}); });
    case 1:  // explicitly: takes nothing from what is passed
      return call(s.id, R, [&] { return start<P, 16, W>(o, false, W(static_cast<std::pmr::memory_resource&>(s))); });
    default:
      return call(POLY, R, [&] { return start0<P, 24>(o); });
  }
}
thing* create_pmr(vrt::rng& R, int depth) {
  switch (R.below(6)) {
    case 0:
      return pmr_kind<dd::pmr::generator<int>, dd::generator<int>>(R, depth);
    case 1:
      return pmr_kind<dd::pmr::channel<int>, dd::channel<int>>(R, depth);
    case 2:
      return pmr_kind<dd::pmr::task<int>, dd::task<int>>(R, depth);
    case 3:
      return pmr_kind<dd::pmr::async_task<int>, dd::async_task<int>>(R, depth);
    case 4:
      return pmr_kind<dd::pmr::job<void>, dd::job>(R, depth);
    default:
      return pmr_kind<dd::pmr::logical_thread<void>, dd::logical_thread>(R, depth);
  }
}

bool g_pmr_mode;
thing* create_any(vrt::rng& R, int depth) {
  return R.chance(g_pmr_mode ? 85 : 10) ? create_pmr(R, depth) : create(R, depth);
}
void nested(uint64_t seed) {
  vrt::rng R{seed};
  int d;
  {
    vrt::untracked u;
    d = ++G->nest;
  }
  if (d < 4) {
    int n = 1 + R.below(2);
    for (int i = 0; i < n; i++) {
      if (g_pmr_mode && R.chance(40)) {
        R_pmr& s = g_pmr[R.below(4)];
        ev("pass", kv("r", s.id));
        dd::pmr::pass_resource(s);
      }
      int old = std::exchange(G->refuse, 0);
      thing* x = create_any(R, d);
      G->refuse = old;
      if (x) {
        x->step();
        if (x->at_rest())
          delete x;
        else {  // runs to its end
          while (!x->at_rest()) {
            std::coroutine_handle<> h;
            {
              vrt::untracked u;
              if (!G->parked.empty()) {
                h = G->parked.back();
                G->parked.pop_back();
              }
            }
            if (h) {
              handover();
              h.resume();
            }
            else
              vrt::yield_point();
          }
          delete x;
        }
      }
    }
  }
  vrt::untracked u;
  --G->nest;
}

struct shelf {
  std::vector<thing*> things;
  thing* take(vrt::rng& R) {
    vrt::untracked u;
    if (things.empty())
      return nullptr;
    size_t i = (size_t)R.below((int)things.size());
    thing* x = things[i];
    things.erase(things.begin() + (long)i);
    return x;
  }
  void put(thing* x) {
    handover();
    vrt::untracked u;
    things.push_back(x);
  }
};

bool resume_one(vrt::rng& R) {
  std::coroutine_handle<> h;
  {
    vrt::untracked u;
    if (G->parked.empty())
      return false;
    size_t i = (size_t)R.below((int)G->parked.size());
    h = G->parked[i];
    G->parked.erase(G->parked.begin() + (long)i);
  }
  handover();
  h.resume();
  return true;
}

void work(shelf& sh, vrt::rng R, int steps) {
  for (int k = 0; k < steps; k++) {
    vrt::yield_point();
    int what = R.below(100);
    if (what < 45) {
      thing* x = create_any(R, 0);
      if (x)
        sh.put(x);
    } else if (what < 60) {
      if (thing* x = sh.take(R)) {
        handover();
        x->step();
        sh.put(x);
      }
    } else if (what < 72) {
      if (thing* x = sh.take(R)) {
        handover();
        if (x->at_rest())
          delete x;
        else
          sh.put(x);
      }
    } else if (what < 84)
      resume_one(R);
    else if (g_pmr_mode) {
      // one made during the execution, and known to others only as the default
      R_pmr* late = nullptr;
      if (what >= 92 && what < 97 && R.chance(60)) {
        int n = 3;
        {
          vrt::untracked u;
          if (G->nlate < 3)
            n = G->nlate++;
        }
        if (n < 3)
          late = new R_pmr(301 + n);
        vrt::untracked u;
        if (late)
          G->late[n] = late;
      }
      R_pmr& s = late ? *late : g_pmr[R.below(4)];
      if (what < 92) {
        ev("pass", kv("r", s.id));
        dd::pmr::pass_resource(s);
      } else if (what < 97) {
        ev("setdef_b", kv("r", s.id));
        auto& old = dd::pmr::set_default_resource(s);
        static_cast<R_pmr&>(old).look();
        int r = static_cast<R_pmr&>(old).id;
        ev("setdef_e", kv("r", r));
      } else {
        ev("ask_b");
        auto& d = dd::pmr::get_default_resource();
        static_cast<R_pmr&>(d).look();
        int r = static_cast<R_pmr&>(d).id;
        ev("ask_e", kv("r", r));
      }
    }
  }
}
void clean(shelf& sh, vrt::rng& R) {
  for (;;) {
    while (resume_one(R))
      ;
    thing* x = sh.take(R);
    if (!x)
      break;
    if (x->at_rest())
      delete x;
    else
      sh.put(x);
  }
}

void run(vrt::rng& R, bool pmr, int threads, int steps) {
  g_pmr_mode = pmr;
  G = new (vrt::halloc(sizeof(state))) state;
  {
    vrt::untracked u;
    dd::pmr::set_default_resource(g_pmr[0]);
  }
  shelf* sh = new (vrt::halloc(sizeof(shelf))) shelf;
  std::vector<int> ids;
  for (int i = 1; i < threads; i++) {
    vrt::rng r{R.next()};
    int id = vrt::spawn([=] { work(*sh, r, steps); });
    vrt::untracked u;
    ids.push_back(id);
  }
  work(*sh, vrt::rng{R.next()}, steps);
  for (int i : ids)
    vrt::join(i);
  clean(*sh, R);
  {
    vrt::untracked u;
    dd::pmr::set_default_resource(g_pmr[0]);
  }
  for (R_pmr* x : G->late)
    delete x;
  vrt::untracked u;
  sh->~shelf();
  G->~state();
}

}  // namespace

SCENARIO(mem_kinds) {
  run(R, false, 1 + R.below(2), 5 + R.below(20));
}
SCENARIO(mem_pmr) {
  run(R, true, 1 + R.below(3), 4 + R.below(16));
}

// a pool and what it schedules, from a resource of its own
namespace {
struct pool_env {
  alignas(dd::thread_pool) char mem[sizeof(dd::thread_pool)];
  dd::thread_pool* p = nullptr;
  int id = 0;
};
template <size_t N>
struct work_item {
  pad<N> p;
  pool_env* e;
  explicit work_item(pool_env* x) : p(order{}), e(x) {
  }
  work_item(work_item&&) = default;
  void operator()() {
    p.check();
  }
};
void schedule_one(pool_env& e, vrt::rng& R, int depth) {
  int c;
  {
    vrt::untracked u;
    c = G->next_c++;
    if (R.chance(6))
      G->refuse = 1;
  }
  pool_env* pe = &e;
  uint64_t seed = R.next();
  try {
    switch (R.below(7)) {
      case 0:
        ev("pcall", kv("c", c), kv("p", e.id));
        e.p->schedule(work_item<8>(pe));
        break;
      case 1:
        ev("pcall", kv("c", c), kv("p", e.id));
        e.p->schedule(work_item<16>(pe));
        break;
      case 2:
        ev("pcall", kv("c", c), kv("p", e.id));
        e.p->schedule(work_item<24>(pe), (dd::operation_hash_t)R.below(9));
        break;
      case 3:
        ev("pcall", kv("c", c), kv("p", e.id));
        e.p->schedule([=] {
          vrt::rng r{seed};
          if (depth < 2)
            schedule_one(*pe, r, depth + 1);
        });
        break;
      case 4: {
        R_pmr& s = g_pmr[R.below(4)];
        ev("call", kv("c", c), kv("r", s.id));
        dd::schedule_to(*e.p, work_item<16>(pe), with_resource(static_cast<std::pmr::memory_resource&>(s)));
        break;
      }
      case 5: {
        int r = fresh();
        ev("call", kv("c", c), kv("r", r));
        dd::schedule_to(*e.p, work_item<8>(pe), with_resource<R_big>(R_big(r)));
        break;
      }
      default: {
        ev("call", kv("c", c), kv("r", (int)R_empty::id));
        dd::schedule_to(*e.p, work_item<16>(pe), with_resource<R_empty>());
        break;
      }
    }
    ev("called", kv("c", c));
  } catch (const std::bad_alloc&) {
    ev("call_x", kv("c", c));
  }
  vrt::untracked u;
  G->refuse = 0;
}
}  // namespace

SCENARIO(mem_pool) {
  g_pmr_mode = false;
  G = new (vrt::halloc(sizeof(state))) state;
  int pools = 1 + R.below(2);
  for (int i = 0; i < pools; i++) {
    pool_env* e = new (vrt::halloc(sizeof(pool_env))) pool_env;
    R_pmr& s = g_pmr[R.below(4)];
    {
      vrt::untracked u;
      e->id = G->next_p++;
      if (R.chance(12))
        G->refuse = 1 + R.below(3);
      if (R.chance(12))
        vrt::fail_thread_creation(1 + R.below(3));
      else if (R.chance(5))
        vrt::fail_alloc(1 + R.below(8));
    }
    int n = R.below(4);
    ev("pool", kv("p", e->id), kv("r", s.id));
    bool ok = true;
    try {
      e->p = new (e->mem) dd::thread_pool((size_t)n, dd::default_worker_job, s);
    } catch (const std::exception&) {
      ok = false;
    }
    vrt::fail_thread_creation(0);
    vrt::fail_alloc(0);
    G->refuse = 0;
    if (!ok) {
      ev("pool_x", kv("p", e->id));
      continue;
    }
    ev("pooled", kv("p", e->id));
    ev("poolres", kv("p", e->id), kv("r", static_cast<R_pmr&>(e->p->get_resource()).id));
    auto stores = [&](auto range) {  // the pool's own storage
      vrt::place w = vrt::where(range.data());
      ev("poolmem", kv("p", e->id), kv("b", w.b), kv("off", w.off), kv("n", (int)range.size_bytes()));
    };
    stores(e->p->queues_range());
    stores(e->p->workers_range());
    int other = -1;
    if (R.chance(50)) {
      vrt::rng r{R.next()};
      other = vrt::spawn([=] {
        vrt::rng q = r;
        for (int k = 1 + q.below(3); k > 0; k--)
          schedule_one(*e, q, 0);
      });
    }
    for (int k = R.below(5); k > 0; k--) {
      schedule_one(*e, R, 0);
      if (R.chance(15))
        e->p->request_stop();
    }
    if (other >= 0)
      vrt::join(other);
    e->p->~thread_pool();
  }
  vrt::untracked u;
  G->~state();
}
