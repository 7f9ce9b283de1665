// Runtime of the controlled execution.  Compiled WITHOUT -fsanitize=thread; supplies the
// __tsan_* entry points that the instrumented harness calls.
#include "vrt.h"

#include <dlfcn.h>
#include <link.h>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <algorithm>
#include <new>
#include <string>
#include <system_error>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <sys/single_threaded.h>
#include <exception>

extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
}
#define memset __real_memset  // the runtime's own fills are not accesses of the program

namespace vrt {

scenario* scenario::head = nullptr;

// ---------------------------------------------------------------- malloc containers
template <typename T>
struct malloc_alloc {
  using value_type = T;
  malloc_alloc() = default;
  template <typename U>
  malloc_alloc(const malloc_alloc<U>&) {
  }
  T* allocate(size_t n) {
    return (T*)malloc(n * sizeof(T));
  }
  void deallocate(T* p, size_t) {
    free(p);
  }
  bool operator==(const malloc_alloc&) const {
    return true;
  }
};
template <typename T>
using mvec = std::vector<T, malloc_alloc<T>>;
using mstr = std::basic_string<char, std::char_traits<char>, malloc_alloc<char>>;
template <typename K, typename V>
using mmap_t = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, malloc_alloc<std::pair<const K, V>>>;
template <typename K>
using mset_t = std::unordered_set<K, std::hash<K>, std::equal_to<K>, malloc_alloc<K>>;

// ---------------------------------------------------------------- context switch
extern "C" void vrt_switch(void** save_sp, void* to_sp);
asm(R"(
.text
.globl vrt_switch
.type vrt_switch,@function
vrt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vrt_switch,.-vrt_switch
)");

struct eh_globals {
  void* caught;
  unsigned uncaught;
};

enum fstate { f_run, f_blocked, f_quiesce, f_done };

struct fiber {
  int id;
  void* sp = nullptr;
  char* stack = nullptr;
  size_t stack_sz = 0;
  fstate st = f_run;
  const void* wait_on = nullptr;  // address
  bool timed = false, timeout = false, notified = false;
  std::function<void()> fn;
  eh_globals eh{};
  int untracked = 0;
  long epoch = 0;
  bool detached = false, vthread = false;
  int steps_in_row = 0;
  int hot = 0;  // the next plain accesses are likelier to be preempted
  char* tls = nullptr;  // its thread_local variables while it does not run
};

constexpr size_t STACK = 512 * 1024;
static mvec<char*> stack_pool;
static mvec<fiber*> fibers;
static fiber* cur = nullptr;
static void* main_sp = nullptr;
static sigjmp_buf abandon_jb;
static bool g_active = false;   // an execution is running
static bool g_inrt = false;     // inside the runtime (allocations are untracked)
static long g_steps = 0, g_step_limit = 30000, total_steps = 0;
static bool g_hb = false;       // record for the happens-before check
static int g_hwc = 3;
static int g_fail_thread = 0, g_fail_alloc = 0;
static bool g_plain = false;
static int plain_p = 0;         // probability (per 1000) of a scheduling point at a plain access
static int g_deadlocked = 0;
static int g_spurious_left = 0;

// ---------------------------------------------------------------- events
static void hb_bad();
static mstr g_ev, g_cfg;
static int g_nev = 0;

void ev_(const char* name, const KV* kv, int n) {
  char b[96];
  struct inrt {  // lists may lie in coroutine frames, copying them is no access of the program
    bool was = g_inrt;
    inrt() {
      g_inrt = true;
    }
    ~inrt() {
      g_inrt = was;
    }
  } in_runtime;
  if (!strcmp(name, "mem") || !strcmp(name, "abort"))
    hb_bad();
  if (g_nev++)
    g_ev += ',';
  snprintf(b, sizeof b, "{\"e\":\"%s\",\"t\":%d", name, cur ? cur->id : -1);
  g_ev += b;
  for (int i = 0; i < n; i++) {
    if (kv[i].s && kv[i].s[0] == '[')  // a list
      g_ev += ",\"", g_ev += kv[i].k, g_ev += "\":", g_ev += kv[i].s, b[0] = 0;
    else if (kv[i].s)
      snprintf(b, sizeof b, ",\"%s\":\"%s\"", kv[i].k, kv[i].s);
    else
      snprintf(b, sizeof b, ",\"%s\":%ld", kv[i].k, kv[i].v);
    g_ev += b;
  }
  g_ev += '}';
}
void ints::add(long v) {
  if (n < (int)sizeof b - 24)
    n += snprintf(b + n, 22, "%s%ld", n > 1 ? "," : "", v);
}
const char* ints::str() {
  b[n] = ']';
  b[n + 1] = 0;
  return b;
}
void cfg_(const char* key, long v) {
  char b[64];
  snprintf(b, sizeof b, "%s\"%s\":%ld", g_cfg.empty() ? "" : ",", key, v);
  g_cfg += b;
}

[[noreturn]] static void abandon(const char* why) {
  g_inrt = true;
  KV k[] = {kv("why", why)};
  ev_("abort", k, 1);
  siglongjmp(abandon_jb, 1);
}
void terminate_now(const char* why) {
  abandon(why);
}

// ---------------------------------------------------------------- HB log
struct rec {
  char type;  // r w plain; R W X(rmw) atomic; F fence; ! bad; c create; s start; e end; j join; l lock; u unlock; f free; q quiescence
  unsigned char t, order;
  unsigned sz;
  uint64_t addr;
  void* pc = nullptr;
};
static mvec<rec> hb;
static mset_t<uint64_t> hb_seen;
static void* g_pc = nullptr;  // code address of the access being recorded
static void hb_rec(char type, uint64_t addr, unsigned sz, int order) {
  if (!g_hb || !g_active)
    return;
  hb.push_back(rec{type, (unsigned char)cur->id, (unsigned char)order, sz, addr, g_pc});
}
static void hb_bad() {
  if (cur)
    hb_rec('!', 0, 0, 0);
}
// an access to something a program of the harness passes on by other means than memory
void touch(int key, bool write) {
  bool was = g_inrt;
  g_inrt = true;
  hb_rec(write ? 'w' : 'r', 0x700000000000ULL + (uint64_t)key * 16, 8, 0);
  g_inrt = was;
}

// ---------------------------------------------------------------- arena
constexpr size_t ARENA = 64u << 20;
static char* arena = nullptr;
static size_t a_top = 0;
static unsigned char* shadow = nullptr;  // per 16 bytes: 0 none 1 live 2 freed 3 untracked(harness)
struct block {
  size_t off, sz;
  bool live;
  bool harness;
};
static mvec<block> blocks;
static mmap_t<size_t, int> block_at;  // off -> index
static long n_live = 0;
static bool g_alloc_events = false;
static int g_bad = 0;

static inline bool in_arena(const void* p) {
  return (uintptr_t)p - (uintptr_t)arena < ARENA;
}
static void* arena_alloc(size_t n, size_t al, bool harness) {
  size_t off = a_top + 32;
  off = (off + al - 1) & ~(al - 1);
  size_t len = (n + 15) & ~size_t(15);
  if (len == 0)
    len = 16;
  if (off + len + 64 > ARENA)
    abandon("oom");
  a_top = off + len;
  memset(shadow + off / 16, harness ? 3 : 1, len / 16);
  memset(arena + off, harness ? 0 : 0xCD, n);
  block_at[off] = (int)blocks.size();
  blocks.push_back(block{off, n, true, harness});
  if (!harness) {
    ++n_live;
    hb_rec('a', off, (unsigned)n, 0);
    if (g_alloc_events && !cur->untracked) {
      KV k[] = {kv("b", (long)blocks.size()), kv("n", n)};
      ev_("sysnew", k, 2);
    }
  }
  return arena + off;
}
static void bad_mem(const char* kind);
void alloc_events(bool on) {
  g_alloc_events = on;
}
place where(const void* p) {
  if (!in_arena(p))
    return {0, 0};
  size_t off = (char*)p - arena;
  for (int i = (int)blocks.size() - 1; i >= 0; i--)
    if (blocks[(size_t)i].off <= off && off - blocks[(size_t)i].off <= blocks[(size_t)i].sz)
      return {i + 1, (long)(off - blocks[(size_t)i].off)};
  return {0, 0};
}
static void bad_mem(const char* kind) {
  if (g_bad++)
    return;
  KV k[] = {kv("kind", kind)};
  ev_("mem", k, 1);
}
static void arena_free(void* p, long sz) {
  size_t off = (char*)p - arena;
  auto it = block_at.find(off);
  if (it == block_at.end()) {
    bad_mem("free_of_nonblock");
    return;
  }
  block& b = blocks[it->second];
  if (!b.live) {
    bad_mem("double_free");
    return;
  }
  if (sz >= 0 && (size_t)sz != b.sz)
    bad_mem("free_size");
  b.live = false;
  size_t len = (b.sz + 15) & ~size_t(15);
  if (!len)
    len = 16;
  if (!b.harness) {
    hb_rec('f', off, (unsigned)b.sz, 0);
    --n_live;
    if (g_alloc_events && cur && !cur->untracked) {
      KV k[] = {kv("b", it->second + 1)};
      ev_("sysdel", k, 1);
    }
    memset(shadow + off / 16, 2, len / 16);
    memset(arena + off, 0xDD, b.sz);
  }
}
long live_blocks() {
  return n_live;
}
void* halloc(size_t n) {
  return arena_alloc(n, 16, true);
}
static void arena_reset() {
  if (!arena) {
    // fixed address: hashes of addresses are the same in every run
    arena = (char*)mmap((void*)0x510000000000ULL, ARENA, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    shadow = (unsigned char*)mmap(nullptr, ARENA / 16, PROT_READ | PROT_WRITE,
                                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  memset(shadow, 0, (a_top + 4096) / 16);
  a_top = 0;
  blocks.clear();
  block_at.clear();
  n_live = 0;
  g_bad = 0;
}

// ---------------------------------------------------------------- choices
struct strategy {
  // sparse forced prefix: positions < forced_len follow 'forced' (default 0)
  mvec<std::pair<long, int>> forced;
  long forced_len = 0;
  int random_pct = 0;  // beyond the prefix: probability (percent) of a random pick
  rng r{};
};
static strategy S;
static size_t s_fi = 0;
static long ch_pos = 0;
static mvec<std::pair<long, int>> picked;      // non-default picks
static mvec<std::pair<long, int>> options;     // (position, n) of every choice with n>1, for DFS
static int raw_choose(int n) {
  if (n <= 1)
    return 0;
  long pos = ch_pos++;
  int r = 0;
  if (pos < S.forced_len) {
    while (s_fi < S.forced.size() && S.forced[s_fi].first < pos)
      ++s_fi;
    if (s_fi < S.forced.size() && S.forced[s_fi].first == pos)
      r = S.forced[s_fi].second;
    if (r >= n)
      r = n - 1;
  } else {
    if (S.random_pct && S.r.below(100) < S.random_pct)
      r = S.r.below(n);
    if (options.size() < 100000)
      options.push_back({pos, n});
  }
  if (r)
    picked.push_back({pos, r});
  return r;
}
int choose(int n) {
  return raw_choose(n);
}

// ---------------------------------------------------------------- scheduler
// every fiber has its own thread_local variables: the program's TLS segment is exchanged
static char* tls_now = nullptr;
static const char* tls_image = nullptr;
static size_t tls_sz = 0, tls_image_sz = 0;
static void tls_find() {
  dl_iterate_phdr(
      [](dl_phdr_info* i, size_t, void*) {
        for (int k = 0; k < i->dlpi_phnum; k++)
          if (i->dlpi_phdr[k].p_type == PT_TLS) {
            tls_now = (char*)i->dlpi_tls_data;
            tls_sz = i->dlpi_phdr[k].p_memsz;
            tls_image = (const char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            tls_image_sz = i->dlpi_phdr[k].p_filesz;
          }
        return 1;  // the program is the first
      },
      nullptr);
}
static void tls_fresh(char* to) {
  memcpy(to, tls_image, tls_image_sz);
  memset(to + tls_image_sz, 0, tls_sz - tls_image_sz);
}

static void switch_to(fiber* f) {
  if (f == cur)
    return;
  if (tls_sz) {
    memcpy(cur->tls, tls_now, tls_sz);
    memcpy(tls_now, f->tls, tls_sz);
  }
  fiber* me = cur;
  eh_globals* g = (eh_globals*)abi::__cxa_get_globals();
  me->eh = *g;
  cur = f;
  *g = f->eh;
  vrt_switch(&me->sp, f->sp);
}

// picks the next fiber to run; 'me_ok' - current may continue
static fiber* pick_next() {
  fiber* en[64];
  int n = 0;
  int N = (int)fibers.size();
  int c = cur->id;
  bool me_ok = cur->st == f_run;
  bool rotate = me_ok && cur->steps_in_row > 400;
  if (me_ok && !rotate)
    en[n++] = cur;
  for (int i = 1; i < N && n < 60; i++) {
    fiber* f = fibers[(c + i) % N];
    if (f->st == f_run)
      en[n++] = f;
  }
  if (rotate) {
    if (n == 0)
      en[n++] = cur;
    else
      cur->steps_in_row = 0;
  }
  if (n == 0) {
    // timed waiters may time out
    for (fiber* f : fibers)
      if (f->st == f_blocked && f->timed) {
        f->timeout = true;
        f->st = f_run;
        return f;
      }
    for (fiber* f : fibers)
      if (f->st == f_quiesce) {
        f->st = f_run;
        return f;
      }
    return nullptr;
  }
  return en[raw_choose(n)];
}

static void deadlock() {
  g_deadlocked = 1;
  abandon("deadlock");
}

static void reschedule() {
  fiber* f = pick_next();
  if (!f)
    deadlock();
  if (f == cur)
    ++cur->steps_in_row;
  else
    f->steps_in_row = 0;
  switch_to(f);
}

static void sched_point() {
  if (!g_active)
    return;
  if (++g_steps > g_step_limit)
    abandon("livelock");
  reschedule();
}
static void block_on(const void* a, bool timed = false) {
  cur->wait_on = a;
  cur->timed = timed;
  cur->timeout = false;
  cur->st = f_blocked;
  if (++g_steps > g_step_limit)
    abandon("livelock");
  reschedule();
  cur->wait_on = nullptr;
}

int self() {
  return cur ? cur->id : -1;
}
void yield_point() {
  // must let others run if there is any
  cur->steps_in_row = 1000;
  sched_point();
}
bool finished(int id) {
  return fibers[id]->st == f_done;
}

extern "C" void vrt_fiber_entry() {
  fiber* me = cur;
  hb_rec('s', 0, 0, 0);
  try {
    me->fn();
  } catch (...) {
    abandon("uncaught_exception");
  }
  me->fn = nullptr;
  if (me->vthread)
    ev_("tend", nullptr, 0);
  hb_rec('e', 0, 0, 0);
  me->st = f_done;
  if (me->id == 0)
    siglongjmp(abandon_jb, 2);
  for (fiber* f : fibers)
    if (f->st == f_blocked && f->wait_on == me)
      f->st = f_run;
  reschedule();
  abort();
}

static fiber* new_fiber(std::function<void()> fn) {
  if (fibers.size() >= 60)
    abandon("too_many_threads");
  g_inrt = true;
  fiber* f = new (malloc(sizeof(fiber))) fiber;
  g_inrt = false;
  f->id = (int)fibers.size();
  f->fn = std::move(fn);
  // the stack of thread i has the same address in every execution
  if ((int)stack_pool.size() <= f->id) {
    char* m = (char*)mmap((void*)(0x520000000000ULL + (uint64_t)f->id * (1u << 26)), STACK + 4096 + tls_sz, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    mprotect(m, 4096, PROT_NONE);
    stack_pool.push_back(m);
  }
  f->stack = stack_pool[(size_t)f->id];
  f->stack_sz = STACK;
  char* top = f->stack + 4096 + STACK;
  f->tls = top;
  if (tls_sz)
    tls_fresh(f->tls);
  void** sp = (void**)((uintptr_t)top & ~uintptr_t(15));
  *--sp = nullptr;  // return address of the entry (ends unwinding)
  *--sp = (void*)&vrt_fiber_entry;
  for (int i = 0; i < 6; i++)
    *--sp = nullptr;
  f->sp = sp;
  fibers.push_back(f);
  return f;
}

int spawn(std::function<void()> fn) {
  fiber* f = new_fiber(std::move(fn));
  hb_rec('c', f->id, 0, 0);
  return f->id;
}
void join(int id) {
  sched_point();
  while (fibers[id]->st != f_done)
    block_on(fibers[id]);
  hb_rec('j', id, 0, 0);
}
int thread_create(std::function<void()> fn) {
  sched_point();
  if (g_fail_thread && --g_fail_thread == 0) {
    KV k[] = {kv("what", "thread")};
    ev_("inject", k, 1);
    throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again));
  }
  int id = spawn(std::move(fn));
  fibers[id]->vthread = true;
  KV k[] = {kv("c", id)};
  ev_("tcreate", k, 1);
  return id;
}
void thread_join(int id) {
  if (id == cur->id)
    throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur));
  join(id);
  KV k[] = {kv("c", id)};
  ev_("tjoin", k, 1);
}
void thread_detach(int id) {
  fibers[id]->detached = true;
  KV k[] = {kv("c", id)};
  ev_("tdetach", k, 1);
}
void fail_thread_creation(int at) {
  g_fail_thread = at;
}
void fail_alloc(int at) {
  g_fail_alloc = at;
}
void set_hwc(unsigned n) {
  g_hwc = (int)n;
}
unsigned hwc() {
  return (unsigned)g_hwc;
}
int thread_of_native(unsigned long id) {
  return (int)id;
}

void wait_quiescent() {
  cur->st = f_quiesce;
  reschedule();
  hb_rec('q', 0, 0, 0);
}

void untracked_begin() {
  ++cur->untracked;
}
void untracked_end() {
  --cur->untracked;
}

// ---------------------------------------------------------------- sync primitives
static void access_check(const void* p, size_t sz) {
  if (!in_arena(p))
    return;
  size_t o = (char*)p - arena;
  unsigned char a = shadow[o / 16], b = shadow[(o + sz - 1) / 16];
  if ((a == 1 || a == 3) && (b == 1 || b == 3))
    return;
  bad_mem(a == 2 || b == 2 ? "use_after_free" : "out_of_bounds");
}
void atomic_pre(const void* p, size_t sz, op_kind) {
  if (!g_active)
    return;
  sched_point();
  access_check(p, sz);
}
void atomic_post(const void* p, size_t sz, op_kind k, int order) {
  if (!g_active)
    return;
  ++cur->epoch;
  cur->hot = 8;
  hb_rec(k == op_load ? 'R' : k == op_store ? 'W' : 'X', (uint64_t)p, (unsigned)sz, order);
}
bool spurious_cas() {
  if (!g_active || g_spurious_left <= 0)
    return false;
  if (raw_choose(2)) {
    --g_spurious_left;
    return true;
  }
  return false;
}
void atomic_block(const void* a) {
  block_on(a);
}
void atomic_wake(const void* a, bool all) {
  if (!g_active)
    return;
  sched_point();
  fiber* w[64];
  int n = 0;
  for (fiber* f : fibers)
    if (f->st == f_blocked && f->wait_on == a)
      w[n++] = f;
  if (!n)
    return;
  if (all) {
    for (int i = 0; i < n; i++)
      w[i]->st = f_run;
  } else
    w[raw_choose(n)]->st = f_run;
}

struct mtx_state {
  int owner = -1;
};
static mmap_t<const void*, int> mtx_owner;

void mutex_lock(void* m) {
  if (!g_active)
    return;
  sched_point();
  access_check(m, 1);
  while (mtx_owner.count(m) && mtx_owner[m] != -1) {
    if (mtx_owner[m] == cur->id)
      abandon("mutex_relock");
    block_on(m);
  }
  mtx_owner[m] = cur->id;
  ++cur->epoch;
  hb_rec('l', (uint64_t)m, 1, 0);
}
bool mutex_try_lock(void* m) {
  if (!g_active)
    return true;
  sched_point();
  access_check(m, 1);
  if (mtx_owner.count(m) && mtx_owner[m] != -1)
    return false;
  mtx_owner[m] = cur->id;
  ++cur->epoch;
  hb_rec('l', (uint64_t)m, 1, 0);
  return true;
}
static void mutex_release(void* m) {
  auto it = mtx_owner.find(m);
  if (it == mtx_owner.end() || it->second != cur->id)
    abandon("mutex_not_owned");
  it->second = -1;
  ++cur->epoch;
  hb_rec('u', (uint64_t)m, 1, 0);
  for (fiber* f : fibers)
    if (f->st == f_blocked && f->wait_on == m)
      f->st = f_run;
}
void mutex_unlock(void* m) {
  if (!g_active)
    return;
  access_check(m, 1);
  mutex_release(m);
  sched_point();
}
void mutex_destroyed(void* m) {
  if (!g_active)
    return;
  auto it = mtx_owner.find(m);
  if (it != mtx_owner.end()) {
    if (it->second != -1)
      abandon("locked_mutex_destroyed");
    mtx_owner.erase(it);
  }
}
bool cv_wait(void* cv, void* m, bool timed) {
  if (!g_active)
    return false;
  sched_point();
  if (g_spurious_left > 0 && raw_choose(2)) {
    // spurious wakeup: release, let others run, reacquire
    --g_spurious_left;
    mutex_release(m);
    sched_point();
    mutex_lock(m);
    return false;
  }
  access_check(cv, 1);
  cur->wait_on = cv;  // enqueue before the mutex becomes free
  cur->timed = timed;
  cur->timeout = false;
  cur->st = f_blocked;
  mutex_release(m);
  if (++g_steps > g_step_limit)
    abandon("livelock");
  reschedule();
  cur->wait_on = nullptr;
  bool to = cur->timeout;
  cur->timed = false;
  mutex_lock(m);
  return to;
}
void cv_notify(void* cv, bool all) {
  if (!g_active)
    return;
  sched_point();
  access_check(cv, 1);
  atomic_wake(cv, all);
}

// ---------------------------------------------------------------- plain accesses
static inline void on_access(const void* p, size_t sz, bool w) {
  if (!g_active || g_inrt || !cur || cur->untracked)
    return;
  bool ia = in_arena(p);
  if (ia) {
    size_t o = (char*)p - arena;
    unsigned char a = shadow[o / 16];
    if (a == 3)
      return;
    unsigned char b = shadow[(o + sz - 1) / 16];
    if (a != 1 || b != 1)
      bad_mem(a == 2 || b == 2 ? "use_after_free" : "out_of_bounds");
    if (g_plain) {
      long pos = ch_pos++;
      bool sw = false;
      if (pos < S.forced_len) {
        while (s_fi < S.forced.size() && S.forced[s_fi].first < pos)
          ++s_fi;
        sw = s_fi < S.forced.size() && S.forced[s_fi].first == pos;
      } else
        {
        sw = plain_p && S.r.below(1000) < (cur->hot > 0 ? plain_p * 6 : plain_p);
        --cur->hot;
      }
      if (sw) {
        picked.push_back({pos, 1});
        sched_point();
      }
    }
  }
  if (!g_hb)
    return;
  if (!ia) {
    bool st = false;
    for (fiber* f : fibers)
      st |= (uintptr_t)p - (uintptr_t)f->stack < f->stack_sz + 4096;
    if (!st)
      return;
  }
  uint64_t addr = (uint64_t)p;
  // dedupe within the epoch of the thread
  uint64_t key = addr * 2 + w;
  key = key * 0x9e3779b97f4a7c15ULL ^ ((uint64_t)cur->id << 56) ^ ((uint64_t)cur->epoch << 20) ^ sz;
  key *= 0xbf58476d1ce4e5b9ULL;
  if (!hb_seen.insert(key).second)
    return;
  g_inrt = true;
  hb_rec(w ? 'w' : 'r', addr, (unsigned)sz, 0);
  g_inrt = false;
}

}  // namespace vrt

using namespace vrt;

extern "C" {
void __tsan_init() {
}
void __tsan_func_entry(void*) {
}
void __tsan_func_exit() {
}
#define on_access(p, s, w) (g_pc = __builtin_return_address(0), on_access(p, s, w))
#define RW(s)                       \
  void __tsan_read##s(void* p) {    \
    on_access(p, s, false);         \
  }                                 \
  void __tsan_write##s(void* p) {   \
    on_access(p, s, true);          \
  }                                 \
  void __tsan_unaligned_read##s(void* p) {  \
    on_access(p, s, false);         \
  }                                 \
  void __tsan_unaligned_write##s(void* p) { \
    on_access(p, s, true);          \
  }                                 \
  void __tsan_read_write##s(void* p) {      \
    on_access(p, s, true);          \
  }
RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW
void __tsan_read_range(void* p, unsigned long n) {
  if (n)
    on_access(p, n, false);
}
void __tsan_write_range(void* p, unsigned long n) {
  if (n)
    on_access(p, n, true);
}
void __tsan_vptr_update(void** p, void*) {
  on_access(p, 8, true);
}
void __tsan_vptr_read(void** p) {
  on_access(p, 8, false);
}
#undef memset
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (n) {
    on_access(s, n, false);
    on_access(d, n, true);
  }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (n) {
    on_access(s, n, false);
    on_access(d, n, true);
  }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (n)
    on_access(d, n, true);
  return __real_memset(d, c, n);
}

// atomics inlined from the standard library headers (shared_ptr counters ...)
#define AT(N, T)                                                                       \
  T __tsan_atomic##N##_load(const volatile T* p, int o) {                              \
    atomic_pre((const void*)p, sizeof(T), op_load);                                    \
    T r = *p;                                                                          \
    atomic_post((const void*)p, sizeof(T), op_load, o);                                \
    return r;                                                                          \
  }                                                                                    \
  void __tsan_atomic##N##_store(volatile T* p, T v, int o) {                           \
    atomic_pre((const void*)p, sizeof(T), op_store);                                   \
    *p = v;                                                                            \
    atomic_post((const void*)p, sizeof(T), op_store, o);                               \
  }                                                                                    \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int o) {                           \
    atomic_pre((const void*)p, sizeof(T), op_rmw);                                     \
    T r = *p;                                                                          \
    *p = v;                                                                            \
    atomic_post((const void*)p, sizeof(T), op_rmw, o);                                 \
    return r;                                                                          \
  }                                                                                    \
  bool __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int f) { \
    atomic_pre((const void*)p, sizeof(T), op_rmw);                                     \
    if (*p == *e) {                                                                    \
      *p = v;                                                                          \
      atomic_post((const void*)p, sizeof(T), op_rmw, o);                               \
      return true;                                                                     \
    }                                                                                  \
    *e = *p;                                                                           \
    atomic_post((const void*)p, sizeof(T), op_load, f);                                \
    return false;                                                                      \
  }                                                                                    \
  bool __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int f) {   \
    return __tsan_atomic##N##_compare_exchange_strong(p, e, v, o, f);                  \
  }
#define ATF(N, T, name, expr)                                                          \
  T __tsan_atomic##N##_fetch_##name(volatile T* p, T v, int o) {                       \
    atomic_pre((const void*)p, sizeof(T), op_rmw);                                     \
    T r = *p;                                                                          \
    *p = (T)(expr);                                                                    \
    atomic_post((const void*)p, sizeof(T), op_rmw, o);                                 \
    return r;                                                                          \
  }
#define ATA(N, T)            \
  AT(N, T)                   \
  ATF(N, T, add, r + v)      \
  ATF(N, T, sub, r - v)      \
  ATF(N, T, or, r | v)       \
  ATF(N, T, and, r& v)       \
  ATF(N, T, xor, r ^ v)
ATA(8, unsigned char)
ATA(16, unsigned short)
ATA(32, unsigned)
ATA(64, unsigned long)
void __tsan_atomic_thread_fence(int o) {
  if (!g_active)
    return;
  sched_point();
  ++cur->epoch;
  hb_rec('F', 0, 0, o);
}
void __tsan_atomic_signal_fence(int) {
}

void __assert_fail(const char* a, const char*, unsigned, const char*) noexcept {
  (void)a;
  if (g_active)
    abandon("assert");
  fprintf(stderr, "assert in harness: %s\n", a);
  _exit(99);
}
}

// ---------------------------------------------------------------- operator new/delete
static void* vnew(size_t n, size_t al) {
  if (g_active && !g_inrt && cur) {
    if (g_fail_alloc && !cur->untracked && --g_fail_alloc == 0) {
      KV k[] = {kv("what", "alloc")};
      ev_("inject", k, 1);
      throw std::bad_alloc();
    }
    return arena_alloc(n, al < 16 ? 16 : al, false);
  }
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  return p;
}
static void vdel(void* p, long sz) {
  if (!p)
    return;
  if (arena && in_arena(p))
    arena_free(p, sz);
  else
    free(p);
}
void* operator new(size_t n) {
  return vnew(n, 16);
}
void* operator new[](size_t n) {
  return vnew(n, 16);
}
void* operator new(size_t n, std::align_val_t a) {
  return vnew(n, (size_t)a);
}
void* operator new[](size_t n, std::align_val_t a) {
  return vnew(n, (size_t)a);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  return vnew(n, 16);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
  return vnew(n, 16);
}
void operator delete(void* p) noexcept {
  vdel(p, -1);
}
void operator delete[](void* p) noexcept {
  vdel(p, -1);
}
void operator delete(void* p, size_t n) noexcept {
  vdel(p, (long)n);
}
void operator delete[](void* p, size_t n) noexcept {
  vdel(p, (long)n);
}
void operator delete(void* p, std::align_val_t) noexcept {
  vdel(p, -1);
}
void operator delete[](void* p, std::align_val_t) noexcept {
  vdel(p, -1);
}
void operator delete(void* p, size_t n, std::align_val_t) noexcept {
  vdel(p, (long)n);
}
void operator delete[](void* p, size_t n, std::align_val_t) noexcept {
  vdel(p, (long)n);
}

// ---------------------------------------------------------------- execution
static void sig_handler(int sig) {
  if (!g_active)
    _exit(98);
  const char* n = sig == SIGSEGV ? "segv" : sig == SIGBUS ? "segv" : sig == SIGILL ? "ill" : sig == SIGFPE ? "fpe"
                                                    : sig == SIGVTALRM             ? "hang"
                                                    : sig == SIGABRT               ? "abrt"
                                                                                   : "trap";
  abandon(n);
}

static uint64_t mix(uint64_t a, uint64_t b) {
  rng r{a * 0x9e3779b97f4a7c15ULL + b};
  r.next();
  return r.next();
}

static char* progress = nullptr;

static void run_once(scenario* s, int variant, uint64_t seed) {
  for (fiber* f : fibers) {
    // fn may refer to abandoned arena memory: do not run its destructor
    free(f);
  }
  fibers.clear();
  arena_reset();
  mtx_owner.clear();
  g_ev.clear();
  g_cfg.clear();
  g_nev = 0;
  g_steps = 0;
  ch_pos = 0;
  s_fi = 0;
  picked.clear();
  options.clear();
  hb.clear();
  hb_seen.clear();
  g_fail_alloc = g_fail_thread = 0;
  g_alloc_events = false;
  g_hwc = 3;
  g_deadlocked = 0;
  g_spurious_left = 2;
  eh_globals* g = (eh_globals*)abi::__cxa_get_globals();
  *g = eh_globals{};
  itimerval tv{{0, 0}, {4, 0}};
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  int rc = sigsetjmp(abandon_jb, 1);
  if (rc == 0) {
    static rng R;
    R = rng{mix(seed, (uint64_t)variant)};
    cur = nullptr;
    static scenario* ss;
    static int vv;
    ss = s;
    vv = variant;
    fiber* f0 = new_fiber({});
    f0->fn = [] {
      ss->body(R, vv);
      wait_quiescent();
      int unfinished = 0;
      for (fiber* f : fibers)
        if (f->id && f->st != f_done)
          ++unfinished;
      KV k[] = {kv("un", unfinished), kv("live", n_live)};
      ev_("end", k, 2);
    };
    cur = f0;
    if (tls_sz)
      tls_fresh(tls_now);
    g_active = true;
    g_inrt = false;
    void* dummy;
    vrt_switch(&dummy, f0->sp);
  }
  g_active = false;
  g_inrt = false;
  cur = nullptr;
  tv = {};
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  *g = eh_globals{};
  total_steps += g_steps;
}

// Reduces the access log to locations that conflict with another thread's accesses (locations
// with the same history are one) and the accesses between two synchronisations to one event
// ["a", thread, [reads], [writes and frees], [atomic reads], [atomic writes]]
static void emit_hb(FILE* out) {
  auto is_acc = [](char c) { return strchr("rwRWXf", c) != nullptr; };
  auto is_sync = [](char c) { return strchr("RWXlucjqF!", c) != nullptr; };
  auto kind = [](char c) { return c == 'r' ? 0 : c == 'w' || c == 'f' ? 1 : c == 'R' ? 2 : 3; };
  auto range = [](const rec& r) {
    uint64_t a = r.type == 'f' ? (uint64_t)arena + r.addr : r.addr;
    return std::pair{a, a + (r.sz ? r.sz : 1)};
  };
  struct info {
    uint64_t tmask = 0;
    bool w = false, plain = false;
    void add(const rec& r) {
      tmask |= 1ull << r.t;
      w |= r.type != 'r' && r.type != 'R';
      plain |= r.type == 'r' || r.type == 'w' || r.type == 'f';
    }
    bool hot() const {
      return w && plain && (tmask & (tmask - 1));
    }
  };
  mmap_t<uint64_t, info> gran;  // by 8 bytes
  for (auto& r : hb)
    if (is_acc(r.type)) {
      auto [a, e] = range(r);
      for (uint64_t g = a / 8; g <= (e - 1) / 8; ++g)
        gran[g].add(r);
    }
  // batch: number of the run of accesses of one thread without synchronisation in between
  mvec<int> batch(hb.size());
  int nb = 0;
  for (size_t k = 0; k < hb.size(); k++) {
    if (k && (hb[k].t != hb[k - 1].t || is_sync(hb[k - 1].type)))
      ++nb;
    batch[k] = nb;
  }
  struct hist {
    uint64_t h = 0, last = ~0ull;
    info i;
  };
  mmap_t<uint64_t, hist> bytes;
  for (size_t k = 0; k < hb.size(); k++) {
    auto& r = hb[k];
    if (!is_acc(r.type))
      continue;
    auto [a, e] = range(r);
    for (uint64_t g = a / 8; g <= (e - 1) / 8; ++g) {
      if (!gran[g].hot())
        continue;
      for (uint64_t b = std::max(a, g * 8); b < std::min(e, g * 8 + 8); ++b) {
        hist& x = bytes[b];
        x.i.add(r);
        uint64_t key = (uint64_t)batch[k] * 8 + kind(r.type);
        if (x.last != key)
          x.h = mix(x.h + 1, x.last = key);
      }
    }
  }
  mmap_t<uint64_t, int> cls;  // history -> location
  mmap_t<uint64_t, int> objs;
  static bool dbg = getenv("VRT_HBDEBUG");
  mstr line;
  char b[96];
  int n = 0;
  mvec<int> acc[4];
  mstr pcs;
  auto flush = [&](int t) {
    if (acc[0].empty() && acc[1].empty() && acc[2].empty() && acc[3].empty())
      return;
    snprintf(b, sizeof b, "%s[\"a\",%d", n++ ? "," : "", t);
    line += b;
    for (auto& v : acc) {
      std::sort(v.begin(), v.end());
      v.erase(std::unique(v.begin(), v.end()), v.end());
      line += ",[";
      for (size_t i = 0; i < v.size(); i++) {
        snprintf(b, sizeof b, "%s%d", i ? "," : "", v[i]);
        line += b;
      }
      line += "]";
      v.clear();
    }
    if (dbg)
      line += ",\"" + pcs + "\"", pcs.clear();
    line += "]";
  };
  int last = -1;
  for (size_t k = 0; k < hb.size(); k++) {
    auto& r = hb[k];
    if (last != -1 && r.t != last)
      flush(last);
    last = r.t;
    if (is_acc(r.type)) {
      auto [a, e] = range(r);
      int prev = -1;
      for (uint64_t g = a / 8; g <= (e - 1) / 8; ++g) {
        if (!gran[g].hot())
          continue;
        for (uint64_t x = std::max(a, g * 8); x < std::min(e, g * 8 + 8); ++x) {
          auto it = bytes.find(x);
          if (it == bytes.end() || !it->second.i.hot())
            continue;
          int id = cls.emplace(it->second.h, (int)cls.size() + 1).first->second;
          if (id == prev)
            continue;
          prev = id;
          acc[kind(r.type)].push_back(id);
          if (dbg) {
            snprintf(b, sizeof b, "%d%c%p ", id, r.type, r.pc);
            pcs += b;
          }
        }
      }
    }
    if (!is_sync(r.type))
      continue;
    flush(r.t);
    long oid = (long)r.addr;
    if (strchr("RWXlu", r.type))
      oid = objs.emplace(r.addr, (int)objs.size() + 1).first->second;
    snprintf(b, sizeof b, "%s[\"%c\",%d,%ld,%d]", n++ ? "," : "", r.type, r.t, r.type == '!' ? 0 : oid, r.order);
    line += b;
  }
  if (last != -1)
    flush(last);
  fprintf(out, "\"n\":%d,\"no\":%d,\"nl\":%d,\"ev\":[%s]", (int)fibers.size(), (int)objs.size(), (int)cls.size(), line.c_str());
}

int main(int argc, char** argv) {
  tls_find();
  const char *name = nullptr, *outp = nullptr, *prog = nullptr, *rep = nullptr;
  int v0 = 0, v1 = 1;
  long runs = 100;
  uint64_t seed = 1;
  bool list = false;
  int pl = 0;
  long maxout = 1000000;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return argv[++i]; };
    if (a == "--run")
      name = nx();
    else if (a == "--out")
      outp = nx();
    else if (a == "--v")
      sscanf(nx(), "%d:%d", &v0, &v1);
    else if (a == "--runs")
      runs = atol(nx());
    else if (a == "--seed")
      seed = strtoull(nx(), 0, 10);
    else if (a == "--hb")
      g_hb = true;
    else if (a == "--plain")
      pl = atoi(nx()), g_plain = pl > 0;
    else if (a == "--progress")
      prog = nx();
    else if (a == "--replay")
      rep = nx();
    else if (a == "--maxout")
      maxout = atol(nx());
    else if (a == "--list")
      list = true;
  }
  if (list) {
    for (scenario* s = scenario::head; s; s = s->next)
      printf("%s\n", s->name);
    return 0;
  }
  __libc_single_threaded = 0;
  scenario* s = scenario::head;
  while (s && strcmp(s->name, name ? name : ""))
    s = s->next;
  if (!s) {
    fprintf(stderr, "no scenario\n");
    return 97;
  }
  FILE* out = outp ? fopen(outp, "w") : stdout;
  if (prog) {
    FILE* f = fopen(prog, "w+");
    if (ftruncate(fileno(f), 4096))
      return 96;
    progress = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fileno(f), 0);
  }
  static char alt[65536];
  stack_t ss{alt, 0, sizeof alt};
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = sig_handler;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int g : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGVTALRM})
    sigaction(g, &sa, nullptr);
  std::set_terminate([] {
    if (g_active)
      abandon("terminate");
    _exit(95);
  });
  long total = 0, distinct = 0, prefixes = 0;
  for (int v = v0; v < v1; v++) {
    mset_t<uint64_t> seen;
    auto emit = [&]() {
      uint64_t h = 1469598103934665603ULL;
      for (char c : g_ev)
        h = (h ^ (unsigned char)c) * 1099511628211ULL;
      if (g_hb)
        for (auto& r : hb)
          if (r.type != 'r' && r.type != 'w')
            h = mix(h, (uint64_t)r.type * 131 + r.t + r.order * 7);
      if (!seen.insert(h).second)
        return false;
      if (distinct >= maxout)
        return false;
      ++distinct;
      fprintf(out, "{\"s\":\"%s\",\"v\":%d,\"seed\":%llu,\"p\":%d,\"c\":\"", s->name, v, (unsigned long long)seed, pl);
      for (size_t i = 0; i < picked.size(); i++)
        fprintf(out, "%s%ld:%d", i ? "," : "", picked[i].first, picked[i].second);
      fprintf(out, "\",\"cfg\":{%s},\"%s\":[%s]", g_cfg.c_str(), g_hb ? "log" : "ev", g_ev.c_str());
      if (g_hb) {
        fprintf(out, ",");
        emit_hb(out);
      }
      fprintf(out, "}\n");
      return true;
    };
    auto one = [&]() {
      if (progress) {
        snprintf(progress, 4000, "%d ", v);
        if (S.forced.size() < 300)
          for (auto& f : S.forced)
            snprintf(progress + strlen(progress), 32, "%ld:%d,", f.first, f.second);
      }
      run_once(s, v, seed);
      ++total;
      return emit();
    };
    if (rep) {
      S = strategy{};
      const char* q = rep;
      long a;
      int b, used;
      while (sscanf(q, "%ld:%d%n", &a, &b, &used) == 2) {
        S.forced.push_back({a, b});
        q += used;
        if (*q == ',')
          ++q;
      }
      S.forced_len = 1L << 60;
      one();
      continue;
    }
    // 1. bounded deviations from the default schedule
    rng er{mix(seed, 77u + (uint64_t)v)};
    long budget = runs;
    using pre = mvec<std::pair<long, int>>;
    mvec<pre> level, next;
    level.push_back({});
    long dfs_budget = pl ? 0 : runs / 2;
    for (int depth = 0; depth < 3 && dfs_budget > 0 && !level.empty(); depth++) {
      // sample without replacement when the level is larger than the budget
      for (size_t i = 0; i < level.size() && dfs_budget > 0; i++) {
        if ((long)level.size() - (long)i > dfs_budget) {
          size_t j = i + er.next() % (level.size() - i);
          std::swap(level[i], level[j]);
        }
        S = strategy{};
        S.forced = level[i];
        S.forced_len = level[i].empty() ? 0 : level[i].back().first + 1;
        one();
        ++prefixes;
        --dfs_budget;
        --budget;
        if (next.size() < 200000)
          for (auto& o : options)
            for (int alt = 1; alt < o.second; alt++) {
              pre p = level[i];
              p.push_back({o.first, alt});
              next.push_back(std::move(p));
            }
      }
      level.swap(next);
      next.clear();
    }
    // 2. random walks
    static const int pcts[] = {3, 10, 25, 50, 100};
    for (; budget > 0; --budget) {
      S = strategy{};
      S.forced_len = 0;
      S.random_pct = pcts[er.below(5)];
      S.r.s = er.next();
      plain_p = pl ? 1 + er.below(pl) : 0;
      one();
    }
  }
  if (out != stdout)
    fclose(out);
  printf("{\"runs\":%ld,\"distinct\":%ld,\"steps\":%ld,\"systematic\":%ld}\n", total, distinct, total_steps, prefixes);
  return 0;
}
