#include "vrt/vstd.h"
#include "kelcoro/thread_pool.hpp"
#include "kelcoro/kelcoro.hpp"

using vrt::ev;
using vrt::kv;

namespace {

// how a task is handed over
enum kind { by_jump, by_attach, by_anyref, by_strand, by_sched, by_sched_nohash, by_queue, by_list };

// key -> operation hash
constexpr size_t hash_of(int key) {
  constexpr size_t t[] = {0, 1, 2, 5, (size_t(1) << 32) + 1, ~size_t(0), size_t(3) << 40};
  return t[key % 7];
}

struct env;

struct script {
  int id = 0;
  kind how = by_jump;
  int hash = 0;
  int again = 0;       // times it hands itself over again after running
  int child = -1;      // task it hands over while running
  int hands = 0;       // hand-overs so far
  bool stop = false;   // requests stop while running
  int own_of = -1;     // handed over under the operation hash of this coroutine
  size_t own_hash = 0; // as the coroutine says
  int frame = 0;       // 0 job, 1 job with a resource passed, 2 with one by its type, 3 a task
};

struct frame_resource {
  long tag = 7;
  void* allocate(size_t n) {
    return new char[n];
  }
  void deallocate(void* p, size_t) noexcept {
    if (tag == 7)
      delete[] static_cast<char*>(p);
  }
};

template <typename E>
struct node_attach : dd::task_node {
  E& p;
  explicit node_attach(E& p) : p(p) {
  }
  bool await_ready() const noexcept {
    return false;
  }
  void await_suspend(std::coroutine_handle<> h) {
    task = h;
    p.attach(this);
  }
  bool await_resume() noexcept {
    return status == dd::schedule_errc::ok;
  }
};

// suspends into a list, which is handed over later
struct node_collect : dd::task_node {
  dd::task_node*& first;
  dd::task_node*& last;
  node_collect(dd::task_node*& f, dd::task_node*& l) : first(f), last(l) {
  }
  bool await_ready() const noexcept {
    return false;
  }
  void await_suspend(std::coroutine_handle<> h) {
    task = h;
    if (last)
      last->next = this;
    else
      first = this;
    last = this;
  }
  bool await_resume() noexcept {
    return status == dd::schedule_errc::ok;
  }
};

struct exec {
  dd::thread_pool* pool = nullptr;
  dd::worker* wrk = nullptr;
  dd::task_queue* que = nullptr;
};

struct env {
  exec x;
  std::vector<script> tasks;
};

void start(env& e, int k);

// what the tasks did is visible after the executor is gone
void all_seen(env& e) {
  for (size_t k = 0; k < e.tasks.size(); k++)
    vrt::touch(1000 + (int)k, false);
}

int key_of(env& e, script& s) {
  if (e.x.wrk || e.x.que)
    return 1;
  switch (s.how) {
    case by_jump:
    case by_attach:
    case by_anyref:
      return 100 + s.id;
    case by_sched_nohash:
      return 200 + s.id;
    default:
      return s.own_of >= 0 ? 100 + s.own_of : s.hash;
  }
}

size_t hash_for(env& e, script& s) {
  return s.own_of >= 0 ? e.tasks[(size_t)s.own_of].own_hash : hash_of(s.hash);
}

void inside(env& e, script& s) {
  if (s.stop && e.x.pool) {
    ev("stop_b", kv("c", 10 + s.id));
    e.x.pool->request_stop();
    ev("stop_e", kv("c", 10 + s.id));
  }
  if (s.child >= 0)
    start(e, s.child);
}

template <typename J, typename... Res>
J coro(env& e, int k, dd::task_node** first, dd::task_node** last, Res...) {
  script& s = e.tasks[(size_t)k];
  int key = key_of(e, s);
  s.own_hash = co_await dd::this_coro::operation_hash;
  for (int n = 0;; n++) {
    bool ok;
    if (first) {
      ok = co_await node_collect(*first, *last);
      first = nullptr;
    } else {
      ev("hand", kv("k", k), kv("n", s.hands++), kv("key", key));
      if (e.x.que) {
        if (s.how == by_strand)
          ok = (bool)co_await dd::jump_on(dd::strand(*e.x.que));
        else if (s.how == by_attach)
          ok = co_await node_attach<dd::task_queue>(*e.x.que);
        else
          ok = (bool)co_await dd::jump_on(*e.x.que);
      } else if (e.x.wrk) {
        if (s.how == by_strand)
          ok = (bool)co_await dd::jump_on(dd::strand(*e.x.wrk));
        else if (s.how == by_attach)
          ok = co_await node_attach<dd::worker>(*e.x.wrk);
        else if (s.how == by_anyref) {
          dd::any_executor_ref r(*e.x.wrk);
          ok = (bool)co_await dd::jump_on(r);
        } else
          ok = (bool)co_await dd::jump_on(*e.x.wrk);
      } else {
        kind how = s.how;
        // the same coroutine jumps from different places of its body
        if (n > 0 && (how == by_jump || how == by_attach || how == by_anyref))
          how = (kind)(((int)how + n) % 3);
        switch (how) {
          case by_attach:
            ok = co_await node_attach<dd::thread_pool>(*e.x.pool);
            break;
          case by_anyref: {
            char pad[40];
            pad[0] = (char)n;
            dd::any_executor_ref r(*e.x.pool);
            ok = (bool)co_await dd::jump_on(r);
            (void)pad;
            break;
          }
          case by_strand:
            ok = (bool)co_await dd::jump_on(e.x.pool->get_strand(hash_for(e, s)));
            break;
          case by_queue:
          case by_list:
            ok = (bool)co_await dd::jump_on(e.x.pool->select_queue(hash_for(e, s)));
            break;
          default:
            if (n % 2)
              ok = (bool)co_await dd::jump_on(*e.x.pool);
            else
              ok = (bool)co_await dd::jump_on(*e.x.pool);
        }
      }
    }
    ev("run", kv("k", k), kv("key", key), kv("st", ok ? "ok" : "cancelled"));
    if (ok)
      inside(e, s);
    vrt::touch(1000 + k, true);
    ev("ran", kv("k", k));
    if (!ok || n >= s.again)
      break;
  }
}

void launch(env& e, int k, dd::task_node** first = nullptr, dd::task_node** last = nullptr) {
  switch (e.tasks[(size_t)k].frame) {
    case 1:
      coro<dd::job>(e, k, first, last, dd::with_resource<frame_resource>());
      break;
    case 2:
      coro<dd::job_r<frame_resource>>(e, k, first, last);
      break;
    case 3:
      coro<dd::task<void>>(e, k, first, last).start_and_detach();
      break;
    default:
      coro<dd::job>(e, k, first, last);
  }
}

struct fun {
  env* e;
  int k;
  bool live = true;
  fun(env* e, int k) : e(e), k(k) {
  }
  fun(fun&& o) noexcept : e(o.e), k(o.k), live(std::exchange(o.live, false)) {
  }
  fun(const fun&) = delete;
  ~fun() {
    if (live) {
      ev("run", kv("k", k), kv("key", key_of(*e, e->tasks[(size_t)k])), kv("st", "cancelled"));
      vrt::touch(1000 + k, true);
      ev("ran", kv("k", k));
    }
  }
  void operator()() {
    live = false;
    script& s = e->tasks[(size_t)k];
    ev("run", kv("k", k), kv("key", key_of(*e, s)), kv("st", "ok"));
    inside(*e, s);
    vrt::touch(1000 + k, true);
    ev("ran", kv("k", k));
    if (s.again > 0) {
      s.again--;
      start(*e, k);
    }
  }
};

void start(env& e, int k) {
  script& s = e.tasks[(size_t)k];
  int n = s.hands;
  if (s.how == by_sched || s.how == by_sched_nohash) {
    ev("hand", kv("k", k), kv("n", s.hands++), kv("key", key_of(e, s)));
    if (e.x.que)
      dd::schedule_to(*e.x.que, fun(&e, k));
    else if (e.x.wrk)
      dd::schedule_to(*e.x.wrk, fun(&e, k));
    else if (s.how == by_sched)
      e.x.pool->schedule(fun(&e, k), hash_for(e, s));
    else
      e.x.pool->schedule(fun(&e, k));
  } else
    launch(e, k);
  ev("handed", kv("k", k), kv("n", n));
}

// hands over all tasks of 'ks' as one list
void start_list(env& e, const std::vector<int>& ks, int mode) {
  dd::task_node *first = nullptr, *last = nullptr;
  for (int k : ks)
    launch(e, k, &first, &last);
  script& s = e.tasks[(size_t)ks[0]];
  std::vector<int> ns;
  for (int k : ks) {
    ns.push_back(e.tasks[(size_t)k].hands++);
    ev("hand", kv("k", k), kv("n", ns.back()), kv("key", key_of(e, s)));
  }
  dd::task_queue* q = e.x.que ? e.x.que : e.x.pool ? &e.x.pool->select_queue(hash_of(s.hash)) : nullptr;
  if (!q) {
    dd::strand st(*e.x.wrk);
    if (mode == 0)
      st.get_queue().push_list(first, last);
    else if (mode == 1)
      st.get_queue().push_list(first);
    else
      dd::attach_list(*e.x.wrk, first);
  } else if (mode == 0)
    q->push_list(first, last);
  else if (mode == 1)
    q->push_list(first);
  else
    dd::attach_list(*q, first);
  for (size_t i = 0; i < ks.size(); i++)
    ev("handed", kv("k", ks[i]), kv("n", ns[i]));
}

env make(vrt::rng& R, int ntasks, int nhash, bool allow_stop) {
  env e;
  int h0 = R.below(7);
  for (int i = 0; i < ntasks; i++) {
    script s;
    s.id = i;
    static const kind kinds[] = {by_jump, by_strand, by_strand, by_sched, by_sched, by_attach,
                                 by_queue, by_sched_nohash, by_anyref, by_jump};
    s.how = kinds[R.below(10)];
    s.hash = (h0 + R.below(nhash)) % 7 + 1;
    s.again = R.chance(30) ? 1 + R.below(2) : 0;
    if (s.how == by_sched_nohash)
      s.again = 0;  // the closure's address is its hash: another closure, another key
    s.stop = allow_stop && R.chance(12);
    s.frame = R.chance(50) ? 0 : R.below(4);
    e.tasks.push_back(s);
  }
  return e;
}

// runs the roots of one producer, some of them as lists
void produce(env& e, const std::vector<int>& roots, uint64_t seed) {
  vrt::rng R{seed};
  for (size_t i = 0; i < roots.size();) {
    if (R.chance(25)) {
      std::vector<int> ks;
      for (size_t n = 1 + (size_t)R.below(4); n && i < roots.size(); --n) {
        script& s = e.tasks[(size_t)roots[i]];
        s.how = by_list;
        s.hash = e.tasks[(size_t)roots[i - ks.size()]].hash;
        ks.push_back(roots[i++]);
      }
      start_list(e, ks, R.below(3));
    } else
      start(e, roots[i++]);
  }
}

// gives some tasks a parent instead of an external producer; returns roots per producer
std::vector<std::vector<int>> split(vrt::rng& R, env& e, int producers) {
  std::vector<std::vector<int>> r((size_t)producers);
  int n = (int)e.tasks.size();
  for (int i = 0; i < n; i++) {
    if (i > 0 && R.chance(25)) {
      int p = R.below(i);
      if (e.tasks[(size_t)p].child < 0 && e.tasks[(size_t)p].again == 0) {
        script &c = e.tasks[(size_t)i], &o = e.tasks[(size_t)p];
        o.child = i;
        if ((c.how == by_sched || c.how == by_strand || c.how == by_queue) &&
            (o.how == by_jump || o.how == by_attach || o.how == by_anyref) && o.frame < 3 && R.chance(60))
          c.own_of = p;
        continue;
      }
    }
    r[(size_t)R.below(producers)].push_back(i);
  }
  return r;
}

void workers_cfg(dd::thread_pool& p) {
  int n = 0;
  for (auto& t : p.workers_range()) {
    static const char* names[] = {"w1", "w2", "w3", "w4", "w5", "w6"};
    vrt::cfg_(names[n++], t.get_id().n);
  }
  vrt::cfg_("nw", n);
}

}  // namespace

// producers only; quiescence; then the destructor
SCENARIO(pool_run) {
  int W = 1 + R.below(3);
  int P = 1 + R.below(3);
  int N = 2 + R.below(4);
  env e = make(R, N, 1 + R.below(3), false);
  auto roots = split(R, e, P);
  bool wait_first = R.chance(60);
  auto pool = std::make_unique<dd::thread_pool>((size_t)W);
  e.x.pool = pool.get();
  workers_cfg(*pool);
  std::vector<int> th;
  for (auto& r : roots)
    th.push_back(vrt::spawn([&e, &r, seed = R.next()] { produce(e, r, seed); }));
  for (int t : th)
    vrt::join(t);
  if (wait_first) {
    vrt::wait_quiescent();
    ev("quiet");
  }
  ev("dtor_b");
  pool.reset();
  all_seen(e);
  ev("dtor_e");
}

// stop requested concurrently by outsiders and by tasks; then wait_stop and/or destructor
SCENARIO(pool_stop) {
  int W = 1 + R.below(3);
  int P = 1 + R.below(2);
  env e = make(R, 2 + R.below(3), 1 + R.below(2), true);
  auto roots = split(R, e, P);
  int stops = 1 + R.below(2);
  int mode = R.below(4);  // who waits
  bool late = R.chance(50);
  if (late) {
    script s;
    s.id = (int)e.tasks.size();
    s.how = R.chance(50) ? by_jump : by_sched;
    s.hash = 1;
    e.tasks.push_back(s);
  }
  auto pool = std::make_unique<dd::thread_pool>((size_t)W);
  e.x.pool = pool.get();
  workers_cfg(*pool);
  std::vector<int> th;
  for (auto& r : roots)
    th.push_back(vrt::spawn([&e, &r, seed = R.next()] { produce(e, r, seed); }));
  for (int i = 0; i < stops; i++)
    th.push_back(vrt::spawn([&e, i] {
      ev("stop_b", kv("c", i + 1));
      e.x.pool->request_stop();
      ev("stop_e", kv("c", i + 1));
    }));
  auto wait = [&] {
    ev("wait_b");
    std::move(*pool).wait_stop();
    ev("wait_e");
  };
  if (mode == 1) {  // wait_stop while producers still run
    wait();
  }
  for (int t : th)
    vrt::join(t);
  if (mode == 2) {
    vrt::wait_quiescent();
    ev("quiet");
  }
  if (late)
    start(e, (int)e.tasks.size() - 1);
  if (mode == 3)
    wait();
  ev("dtor_b");
  pool.reset();
  all_seen(e);
  ev("dtor_e");
}

// a single worker, with strands
SCENARIO(worker_run) {
  int P = 1 + R.below(3);
  env e = make(R, 2 + R.below(4), 2, false);
  auto roots = split(R, e, P);
  bool wait_first = R.chance(50);
  auto w = std::make_unique<dd::worker>();
  e.x.wrk = w.get();
  vrt::cfg_("w1", w->get_id().n);
  vrt::cfg_("nw", 1);
  std::vector<int> th;
  for (auto& r : roots)
    th.push_back(vrt::spawn([&e, &r, seed = R.next()] { produce(e, r, seed); }));
  for (int t : th)
    vrt::join(t);
  if (wait_first) {
    vrt::wait_quiescent();
    ev("quiet");
  }
  ev("dtor_b");
  w.reset();
  all_seen(e);
  ev("dtor_e");
}

// a task queue on its own, served by default_worker_job
SCENARIO(queue_run) {
  int P = 1 + R.below(3);
  env e = make(R, 2 + R.below(4), 2, false);
  auto roots = split(R, e, P);
  auto q = std::make_unique<dd::task_queue>();
  e.x.que = q.get();
  int w = vrt::spawn([&] {
    dd::default_worker_job(*q);
    ev("tend");
  });
  vrt::cfg_("w1", w);
  vrt::cfg_("nw", 1);
  std::vector<int> th;
  for (auto& r : roots)
    th.push_back(vrt::spawn([&e, &r, seed = R.next()] { produce(e, r, seed); }));
  for (int t : th)
    vrt::join(t);
  if (R.chance(70)) {
    vrt::wait_quiescent();
    ev("quiet");
  }
  ev("dtor_b");
  dd::task_node pill = dd::task_node::deadpill();
  q->push(&pill);
  vrt::join(w);
  // work which handed itself over again behind the pill
  for (dd::task_node* n = q->pop_all(); n;) {
    dd::task_node* next = n->next;
    n->status = dd::schedule_errc::cancelled;
    n->task.resume();
    n = next;
  }
  q.reset();
  all_seen(e);
  ev("dtor_e");
}

// many tasks, several workers, long queues
SCENARIO(pool_big) {
  int W = 1 + R.below(6);
  int P = 1 + R.below(3);
  int N = 40 + R.below(60);
  bool stop = R.chance(40);
  env e = make(R, N, 1 + R.below(6), false);
  auto roots = split(R, e, P);
  auto pool = std::make_unique<dd::thread_pool>((size_t)W);
  e.x.pool = pool.get();
  workers_cfg(*pool);
  std::vector<int> th;
  for (auto& r : roots)
    th.push_back(vrt::spawn([&e, &r, seed = R.next()] { produce(e, r, seed); }));
  if (stop)
    th.push_back(vrt::spawn([&e, n = R.below(200)] {
      for (int i = 0; i < n; i++)
        vrt::yield_point();
      ev("stop_b", kv("c", 1));
      e.x.pool->request_stop();
      ev("stop_e", kv("c", 1));
    }));
  for (int t : th)
    vrt::join(t);
  if (R.chance(60)) {
    vrt::wait_quiescent();
    ev("quiet");
  }
  ev("dtor_b");
  pool.reset();
  all_seen(e);
  ev("dtor_e");
}
