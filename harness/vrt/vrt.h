// Controlled-execution runtime: every "thread" is a fiber of one OS thread, every
// synchronisation operation is a scheduling point, every source of nondeterminism
// goes through choose().  See DESIGN.md, section "Runtime".
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <type_traits>

namespace vrt {

struct KV {
  const char* k;
  long v;
  const char* s;  // if non-null a string value
};
inline KV kv(const char* k, const char* s) {
  return {k, 0, s};
}
template <typename T>
  requires(std::is_integral_v<T> || std::is_enum_v<T>)
KV kv(const char* k, T v) {
  return {k, (long)v, nullptr};
}

// a JSON list, small enough for one event
struct ints {
  char b[4000] = "[";
  int n = 1;
  void add(long v);
  const char* str();
};

void ev_(const char* name, const KV* kv, int n);

// appends an observable event to the trace of this execution
inline void ev(const char* name) {
  ev_(name, nullptr, 0);
}
inline void ev(const char* name, KV a) {
  KV x[] = {a};
  ev_(name, x, 1);
}
inline void ev(const char* name, KV a, KV b) {
  KV x[] = {a, b};
  ev_(name, x, 2);
}
inline void ev(const char* name, KV a, KV b, KV c) {
  KV x[] = {a, b, c};
  ev_(name, x, 3);
}
inline void ev(const char* name, KV a, KV b, KV c, KV d, KV e) {
  KV x[] = {a, b, c, d, e};
  ev_(name, x, 5);
}
inline void ev(const char* name, KV a, KV b, KV c, KV d) {
  KV x[] = {a, b, c, d};
  ev_(name, x, 4);
}

int self();                              // id of the running fiber
void yield_point();                      // a plain scheduling point
int choose(int n);                       // scheduler choice, 0 is the default
int spawn(std::function<void()> f);      // harness thread
void join(int id);                       // waits for the fiber
bool finished(int id);
void wait_quiescent();                   // blocks until no other fiber can move
void* halloc(size_t n);                  // harness memory: untracked, freed at the end of the run
void cfg_(const char* key, long v);      // recorded in the trace's "cfg"
void fail_thread_creation(int at);       // the at-th vthread creation (1-based) from now throws
void fail_alloc(int at);                 // the at-th tracked allocation from now throws bad_alloc
void touch(int key, bool write);         // for the happens-before check only
void set_hwc(unsigned);                  // hardware_concurrency
void alloc_events(bool on);              // operator new and delete as events sysnew(b, n), sysdel(b)
struct place {
  int b;     // number of the allocation, as in the events; 0 if outside of all
  long off;  // offset in it
};
place where(const void* p);
long live_blocks();                      // number of live tracked allocations
void untracked_begin();                  // accesses of this fiber are not recorded ...
void untracked_end();                    // ... until here (harness bookkeeping)
struct untracked {
  untracked() {
    untracked_begin();
  }
  ~untracked() {
    untracked_end();
  }
};
// counts without being seen: ids for harness objects
struct counter {
  int v = 0;
  int operator++(int) {
    untracked u;
    return v++;
  }
  int operator++() {
    untracked u;
    return ++v;
  }
};
int thread_of_native(unsigned long id);

// --- used by the instrumented std classes
enum op_kind { op_load, op_store, op_rmw, op_fence };
void atomic_pre(const void* addr, size_t sz, op_kind k);
void atomic_post(const void* addr, size_t sz, op_kind k, int order);
bool spurious_cas();
void atomic_block(const void* addr);
void atomic_wake(const void* addr, bool all);
void mutex_lock(void* m);
bool mutex_try_lock(void* m);
void mutex_unlock(void* m);
void mutex_destroyed(void* m);
// returns true if woken by timeout
bool cv_wait(void* cv, void* m, bool timed);
void cv_notify(void* cv, bool all);
int thread_create(std::function<void()> f);  // may throw (injected)
void thread_join(int id);
void thread_detach(int id);
unsigned hwc();
[[noreturn]] void terminate_now(const char* why);

// --- scenarios
struct rng {
  uint64_t s;
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  int below(int n) {
    return (int)(next() % (uint64_t)n);
  }
  bool chance(int percent) {
    return below(100) < percent;
  }
};
// body is run once per execution; 'variant' selects the program
struct scenario {
  const char* name;
  void (*body)(rng&, int variant);
  scenario* next;
  static scenario* head;
  scenario(const char* n, void (*b)(rng&, int)) : name(n), body(b), next(head) {
    head = this;
  }
};
#define SCENARIO(id)                                      \
  static void scenario_##id(vrt::rng& R, int variant);    \
  static vrt::scenario scenario_reg_##id(#id, scenario_##id); \
  static void scenario_##id([[maybe_unused]] vrt::rng& R, [[maybe_unused]] int variant)

}  // namespace vrt
