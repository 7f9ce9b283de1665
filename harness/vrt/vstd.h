// Include before any kelcoro header.  Replaces the std synchronisation primitives used
// by the library by instrumented ones; the library source itself is not changed.
#pragma once
#include <bits/stdc++.h>
#include "vrt.h"

#define VRT_NS __attribute__((no_sanitize("thread"), noinline))

namespace std {

template <typename T>
struct vatomic_ops {
  VRT_NS static T ld(const T* p, int o) {
    vrt::atomic_pre(p, sizeof(T), vrt::op_load);
    T r = *p;
    vrt::atomic_post(p, sizeof(T), vrt::op_load, o);
    return r;
  }
  VRT_NS static void st(T* p, T v, int o) {
    vrt::atomic_pre(p, sizeof(T), vrt::op_store);
    *p = v;
    vrt::atomic_post(p, sizeof(T), vrt::op_store, o);
  }
  VRT_NS static T xchg(T* p, T v, int o) {
    vrt::atomic_pre(p, sizeof(T), vrt::op_rmw);
    T r = *p;
    *p = v;
    vrt::atomic_post(p, sizeof(T), vrt::op_rmw, o);
    return r;
  }
  VRT_NS static bool cas(T* p, T* e, T d, int os, int of, bool weak) {
    vrt::atomic_pre(p, sizeof(T), vrt::op_rmw);
    T cur = *p;
    bool eq = memcmp((const void*)&cur, (const void*)e, sizeof(T)) == 0;
    if (eq && weak && vrt::spurious_cas())
      eq = false;
    if (eq) {
      *p = d;
      vrt::atomic_post(p, sizeof(T), vrt::op_rmw, os);
      return true;
    }
    *e = cur;
    vrt::atomic_post(p, sizeof(T), vrt::op_load, of);
    return false;
  }
  template <typename F>
  VRT_NS static T rmw(T* p, F f, int o) {
    vrt::atomic_pre(p, sizeof(T), vrt::op_rmw);
    T r = *p;
    *p = f(r);
    vrt::atomic_post(p, sizeof(T), vrt::op_rmw, o);
    return r;
  }
  VRT_NS static void wait(const T* p, T old, int o) {
    for (;;) {
      T r = ld(p, o);
      if (memcmp((const void*)&r, (const void*)&old, sizeof(T)) != 0)
        return;
      vrt::atomic_block(p);
    }
  }
};

constexpr int vrt_cas_fail_order(memory_order o) {
  return o == memory_order_acq_rel ? (int)memory_order_acquire
         : o == memory_order_release ? (int)memory_order_relaxed : (int)o;
}

template <typename T, bool Ref>
struct vatomic_base {
  using value_type = T;
  static constexpr bool is_always_lock_free = true;

 protected:
  conditional_t<Ref, T*, T> v_;
  constexpr T* p_() const noexcept {
    if constexpr (Ref)
      return v_;
    else
      return const_cast<T*>(&v_);
  }
  using ops = vatomic_ops<T>;
  using mo = memory_order;

 public:
  constexpr vatomic_base(conditional_t<Ref, T*, T> v) noexcept : v_(v) {
  }
  vatomic_base(const vatomic_base&) = default;
  bool is_lock_free() const noexcept {
    return true;
  }
  T load(mo o = mo::seq_cst) const noexcept {
    return ops::ld(p_(), (int)o);
  }
  operator T() const noexcept {
    return load();
  }
  void store(T v, mo o = mo::seq_cst) const noexcept {
    ops::st(p_(), v, (int)o);
  }
  T exchange(T v, mo o = mo::seq_cst) const noexcept {
    return ops::xchg(p_(), v, (int)o);
  }
  bool compare_exchange_weak(T& e, T d, mo s, mo f) const noexcept {
    return ops::cas(p_(), &e, d, (int)s, (int)f, true);
  }
  bool compare_exchange_weak(T& e, T d, mo s = mo::seq_cst) const noexcept {
    return ops::cas(p_(), &e, d, (int)s, vrt_cas_fail_order(s), true);
  }
  bool compare_exchange_strong(T& e, T d, mo s, mo f) const noexcept {
    return ops::cas(p_(), &e, d, (int)s, (int)f, false);
  }
  bool compare_exchange_strong(T& e, T d, mo s = mo::seq_cst) const noexcept {
    return ops::cas(p_(), &e, d, (int)s, vrt_cas_fail_order(s), false);
  }
  void wait(T old, mo o = mo::seq_cst) const noexcept {
    ops::wait(p_(), old, (int)o);
  }
  void notify_one() const noexcept {
    vrt::atomic_wake(p_(), false);
  }
  void notify_all() const noexcept {
    vrt::atomic_wake(p_(), true);
  }
  using diff_ = conditional_t<is_pointer_v<T>, ptrdiff_t, T>;
  static constexpr bool arith_ = (is_integral_v<T> && !is_same_v<T, bool>) || is_pointer_v<T>;
  static constexpr bool integ_ = is_integral_v<T> && !is_same_v<T, bool>;
  T fetch_add(diff_ d, mo o = mo::seq_cst) const noexcept
    requires arith_
  {
    return ops::rmw(p_(), [d](T x) -> T { return (T)(x + d); }, (int)o);
  }
  T fetch_sub(diff_ d, mo o = mo::seq_cst) const noexcept
    requires arith_
  {
    return ops::rmw(p_(), [d](T x) -> T { return (T)(x - d); }, (int)o);
  }
  T fetch_or(T d, mo o = mo::seq_cst) const noexcept
    requires integ_
  {
    return ops::rmw(p_(), [d](T x) -> T { return (T)(x | d); }, (int)o);
  }
  T fetch_and(T d, mo o = mo::seq_cst) const noexcept
    requires integ_
  {
    return ops::rmw(p_(), [d](T x) -> T { return (T)(x & d); }, (int)o);
  }
  T fetch_xor(T d, mo o = mo::seq_cst) const noexcept
    requires integ_
  {
    return ops::rmw(p_(), [d](T x) -> T { return (T)(x ^ d); }, (int)o);
  }
  T operator++() const noexcept
    requires arith_
  {
    return (T)(fetch_add(1) + 1);
  }
  T operator--() const noexcept
    requires arith_
  {
    return (T)(fetch_sub(1) - 1);
  }
  T operator++(int) const noexcept
    requires arith_
  {
    return fetch_add(1);
  }
  T operator--(int) const noexcept
    requires arith_
  {
    return fetch_sub(1);
  }
  T operator+=(diff_ d) const noexcept
    requires arith_
  {
    return (T)(fetch_add(d) + d);
  }
  T operator-=(diff_ d) const noexcept
    requires arith_
  {
    return (T)(fetch_sub(d) - d);
  }
};

template <typename T>
struct vatomic : vatomic_base<T, false> {
  constexpr vatomic() noexcept : vatomic_base<T, false>(T()) {
  }
  constexpr vatomic(T v) noexcept : vatomic_base<T, false>(v) {
  }
  vatomic(const vatomic&) = delete;
  vatomic& operator=(const vatomic&) = delete;
  T operator=(T v) noexcept {
    this->store(v);
    return v;
  }
};
template <typename T>
struct vatomic_ref : vatomic_base<T, true> {
  static constexpr size_t required_alignment = alignof(T);
  explicit vatomic_ref(T& v) noexcept : vatomic_base<T, true>(&v) {
  }
  vatomic_ref(const vatomic_ref&) = default;
  T operator=(T v) const noexcept {
    this->store(v);
    return v;
  }
};
using vatomic_bool = vatomic<bool>;
using vatomic_char = vatomic<char>;
using vatomic_int = vatomic<int>;
using vatomic_uint = vatomic<unsigned>;
using vatomic_long = vatomic<long>;
using vatomic_int8_t = vatomic<int8_t>;
using vatomic_uint8_t = vatomic<uint8_t>;
using vatomic_int16_t = vatomic<int16_t>;
using vatomic_uint16_t = vatomic<uint16_t>;
using vatomic_int32_t = vatomic<int32_t>;
using vatomic_uint32_t = vatomic<uint32_t>;
using vatomic_int64_t = vatomic<int64_t>;
using vatomic_uint64_t = vatomic<uint64_t>;
using vatomic_size_t = vatomic<size_t>;
using vatomic_ptrdiff_t = vatomic<ptrdiff_t>;
using vatomic_intptr_t = vatomic<intptr_t>;
using vatomic_uintptr_t = vatomic<uintptr_t>;

struct vatomic_flag {
  vatomic<bool> b{false};
  constexpr vatomic_flag() noexcept = default;
  vatomic_flag(const vatomic_flag&) = delete;
  bool test_and_set(memory_order o = memory_order_seq_cst) noexcept {
    return b.exchange(true, o);
  }
  void clear(memory_order o = memory_order_seq_cst) noexcept {
    b.store(false, o);
  }
  bool test(memory_order o = memory_order_seq_cst) const noexcept {
    return b.load(o);
  }
  void wait(bool old, memory_order o = memory_order_seq_cst) const noexcept {
    b.wait(old, o);
  }
  void notify_one() noexcept {
    b.notify_one();
  }
  void notify_all() noexcept {
    b.notify_all();
  }
};

class vmutex {
  char c_ = 0;

 public:
  using native_handle_type = void*;
  constexpr vmutex() noexcept = default;
  vmutex(const vmutex&) = delete;
  vmutex& operator=(const vmutex&) = delete;
  ~vmutex() {
    vrt::mutex_destroyed(this);
  }
  void lock() {
    vrt::mutex_lock(this);
  }
  bool try_lock() noexcept {
    return vrt::mutex_try_lock(this);
  }
  void unlock() {
    vrt::mutex_unlock(this);
  }
};

// the library does not use the following today, a change to it may

class vrecursive_mutex {
  vmutex m_;
  int owner_ = -1, n_ = 0;

 public:
  VRT_NS void lock() {
    if (n_ == 0 || owner_ != vrt::self())
      m_.lock();
    owner_ = vrt::self();
    ++n_;
  }
  VRT_NS bool try_lock() noexcept {
    if ((n_ == 0 || owner_ != vrt::self()) && !m_.try_lock())
      return false;
    owner_ = vrt::self();
    ++n_;
    return true;
  }
  VRT_NS void unlock() {
    if (--n_ == 0)
      m_.unlock();
  }
};

class vshared_mutex {
  vatomic<int> s_{0};  // readers, -1 a writer

 public:
  vshared_mutex() = default;
  vshared_mutex(const vshared_mutex&) = delete;
  bool try_lock() noexcept {
    int e = 0;
    return s_.compare_exchange_strong(e, -1, memory_order_acq_rel);
  }
  void lock() {
    for (int e = 0; !s_.compare_exchange_strong(e, -1, memory_order_acq_rel); e = 0)
      s_.wait(e, memory_order_relaxed);
  }
  void unlock() {
    s_.exchange(0, memory_order_acq_rel);
    s_.notify_all();
  }
  bool try_lock_shared() noexcept {
    for (int e = s_.load(memory_order_relaxed); e >= 0;)
      if (s_.compare_exchange_strong(e, e + 1, memory_order_acq_rel))
        return true;
    return false;
  }
  void lock_shared() {
    while (!try_lock_shared())
      s_.wait(-1, memory_order_relaxed);
  }
  void unlock_shared() {
    s_.fetch_sub(1, memory_order_acq_rel);
    s_.notify_all();
  }
};

template <ptrdiff_t Max = numeric_limits<ptrdiff_t>::max()>
class vcounting_semaphore {
  vatomic<ptrdiff_t> n_;

 public:
  explicit vcounting_semaphore(ptrdiff_t n) noexcept : n_(n) {
  }
  vcounting_semaphore(const vcounting_semaphore&) = delete;
  static constexpr ptrdiff_t max() noexcept {
    return Max;
  }
  void release(ptrdiff_t k = 1) {
    n_.fetch_add(k, memory_order_acq_rel);
    n_.notify_all();
  }
  bool try_acquire() noexcept {
    for (ptrdiff_t e = n_.load(memory_order_relaxed); e > 0;)
      if (n_.compare_exchange_strong(e, e - 1, memory_order_acq_rel))
        return true;
    return false;
  }
  void acquire() {
    while (!try_acquire())
      n_.wait(0, memory_order_relaxed);
  }
};
using vbinary_semaphore = vcounting_semaphore<1>;

struct vonce_flag {
  vmutex m;
  bool done = false;
  constexpr vonce_flag() noexcept = default;
};
template <typename F, typename... A>
void vcall_once(vonce_flag& f, F&& fn, A&&... a) {
  lock_guard l(f.m);
  if (f.done)
    return;
  std::invoke(std::forward<F>(fn), std::forward<A>(a)...);
  f.done = true;
}

class vcondition_variable {
  char c_ = 0;

 public:
  vcondition_variable() noexcept = default;
  vcondition_variable(const vcondition_variable&) = delete;
  vcondition_variable& operator=(const vcondition_variable&) = delete;
  void wait(unique_lock<vmutex>& l) {
    vrt::cv_wait(this, l.mutex(), false);
  }
  template <typename P>
  void wait(unique_lock<vmutex>& l, P p) {
    while (!p())
      wait(l);
  }
  template <typename D>
  cv_status wait_for(unique_lock<vmutex>& l, const D&) {
    return vrt::cv_wait(this, l.mutex(), true) ? cv_status::timeout : cv_status::no_timeout;
  }
  template <typename D, typename P>
  bool wait_for(unique_lock<vmutex>& l, const D&, P p) {
    while (!p())
      if (vrt::cv_wait(this, l.mutex(), true))
        return p();
    return true;
  }
  template <typename D>
  cv_status wait_until(unique_lock<vmutex>& l, const D& d) {
    return wait_for(l, d);
  }
  template <typename D, typename P>
  bool wait_until(unique_lock<vmutex>& l, const D& d, P p) {
    return wait_for(l, d, std::move(p));
  }
  void notify_one() noexcept {
    vrt::cv_notify(this, false);
  }
  void notify_all() noexcept {
    vrt::cv_notify(this, true);
  }
};

class vcondition_variable_any {
  vmutex m_;
  vcondition_variable cv_;

  template <typename L>
  bool wait_(L& l, bool timed) {
    bool to;
    {
      unique_lock<vmutex> own(m_);
      l.unlock();
      to = vrt::cv_wait(&cv_, own.mutex(), timed);
    }
    l.lock();
    return to;
  }

 public:
  template <typename L>
  void wait(L& l) {
    wait_(l, false);
  }
  template <typename L, typename P>
  void wait(L& l, P p) {
    while (!p())
      wait(l);
  }
  template <typename L, typename D>
  cv_status wait_for(L& l, const D&) {
    return wait_(l, true) ? cv_status::timeout : cv_status::no_timeout;
  }
  template <typename L, typename D, typename P>
  bool wait_for(L& l, const D&, P p) {
    while (!p())
      if (wait_(l, true))
        return p();
    return true;
  }
  void notify_one() noexcept {
    lock_guard own(m_);
    cv_.notify_one();
  }
  void notify_all() noexcept {
    lock_guard own(m_);
    cv_.notify_all();
  }
};

class vthread {
  int id_ = -1;

 public:
  using native_handle_type = unsigned long;
  struct id {
    int n = -1;
    bool operator==(const id&) const = default;
    auto operator<=>(const id&) const = default;
    template <typename O>
    friend O& operator<<(O& o, id i) {
      o << i.n;
      return o;
    }
  };
  vthread() noexcept = default;
  template <typename F, typename... A>
    requires(!is_same_v<remove_cvref_t<F>, vthread>)
  explicit vthread(F&& f, A&&... a) {
    auto* t = new tuple<decay_t<F>, decay_t<A>...>(std::forward<F>(f), std::forward<A>(a)...);
    try {
      id_ = vrt::thread_create([t]() {
        unique_ptr<tuple<decay_t<F>, decay_t<A>...>> own(t);
        std::apply([](auto&& g, auto&&... x) { std::invoke(std::move(g), std::move(x)...); },
                   std::move(*own));
      });
    } catch (...) {
      delete t;
      throw;
    }
  }
  vthread(const vthread&) = delete;
  vthread(vthread&& o) noexcept : id_(std::exchange(o.id_, -1)) {
  }
  vthread& operator=(vthread&& o) noexcept {
    if (joinable())
      std::terminate();
    id_ = std::exchange(o.id_, -1);
    return *this;
  }
  ~vthread() {
    if (joinable())
      std::terminate();
  }
  void swap(vthread& o) noexcept {
    std::swap(id_, o.id_);
  }
  bool joinable() const noexcept {
    return id_ != -1;
  }
  void join() {
    if (!joinable())
      throw system_error(make_error_code(errc::invalid_argument));
    vrt::thread_join(id_);
    id_ = -1;
  }
  void detach() {
    if (!joinable())
      throw system_error(make_error_code(errc::invalid_argument));
    vrt::thread_detach(id_);
    id_ = -1;
  }
  id get_id() const noexcept {
    return id{id_};
  }
  native_handle_type native_handle() {
    return (unsigned long)id_;
  }
  static unsigned hardware_concurrency() noexcept {
    return vrt::hwc();
  }
};
template <>
struct hash<vthread::id> {
  size_t operator()(vthread::id i) const noexcept {
    return (size_t)i.n;
  }
};
class vjthread : public vthread {
 public:
  using vthread::vthread;
  vjthread(vjthread&&) = default;
  vjthread& operator=(vjthread&& o) noexcept {
    if (joinable())
      join();
    vthread::operator=(std::move(o));
    return *this;
  }
  ~vjthread() {
    if (joinable())
      join();
  }
};

namespace vthis_thread {
inline vthread::id get_id() noexcept {
  return vthread::id{vrt::self()};
}
inline void yield() noexcept {
  vrt::yield_point();
}
template <typename D>
void sleep_for(const D&) {
  vrt::yield_point();
}
template <typename D>
void sleep_until(const D&) {
  vrt::yield_point();
}
}  // namespace vthis_thread

}  // namespace std

#define atomic vatomic
#define atomic_ref vatomic_ref
#define atomic_bool vatomic_bool
#define atomic_char vatomic_char
#define atomic_int vatomic_int
#define atomic_uint vatomic_uint
#define atomic_long vatomic_long
#define atomic_int8_t vatomic_int8_t
#define atomic_uint8_t vatomic_uint8_t
#define atomic_int16_t vatomic_int16_t
#define atomic_uint16_t vatomic_uint16_t
#define atomic_int32_t vatomic_int32_t
#define atomic_uint32_t vatomic_uint32_t
#define atomic_int64_t vatomic_int64_t
#define atomic_uint64_t vatomic_uint64_t
#define atomic_size_t vatomic_size_t
#define atomic_ptrdiff_t vatomic_ptrdiff_t
#define atomic_intptr_t vatomic_intptr_t
#define atomic_uintptr_t vatomic_uintptr_t
#define atomic_flag vatomic_flag
#define mutex vmutex
#define recursive_mutex vrecursive_mutex
#define shared_mutex vshared_mutex
#define counting_semaphore vcounting_semaphore
#define binary_semaphore vbinary_semaphore
#define condition_variable_any vcondition_variable_any
#define once_flag vonce_flag
#define call_once vcall_once
#define condition_variable vcondition_variable
#define thread vthread
#define jthread vjthread
#define this_thread vthis_thread
