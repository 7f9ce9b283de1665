#include "vrt/vstd.h"
#include "kelcoro/kelcoro.hpp"
#include <memory>
#include <optional>
#include <vector>

using vrt::ev;
using vrt::kv;

namespace {

struct env;
// an executor that shows what it is given
struct box {
  int x = 0;
  int eager = 0;  // resumes at once, %
  env* e = nullptr;
  vrt::rng r{1};
  std::vector<dd::task_node*> in;
  void attach(dd::task_node* n);
};
struct step {
  int what;  // executor to jump on, 0: park
  bool ref;
};
struct script {
  step s[8];
  size_t n = 0;
  void add(step x) {
    s[n++] = x;
  }
};
struct parked {
  dd::task_node* n;
  int c;
};
struct env {
  vrt::counter ids;
  box boxes[2];
  std::optional<dd::worker> w;      // 20
  std::optional<dd::task_queue> q;  // 21
  std::optional<dd::thread_pool> p; // 30
  std::optional<dd::thread_pool> p2; // 31
  std::vector<parked> lot;
  std::vector<std::coroutine_handle<>> lost;  // will never continue
  std::vector<int> lost_ids;
  std::atomic<int> hand = 0;
  void handover() {
    hand.fetch_add(1, std::memory_order_acq_rel);
  }
};

struct lot_node : dd::task_node {
  env& e;
  int c;
  lot_node(env& e, int c) : e(e), c(c) {
  }
  bool await_ready() {
    return false;
  }
  void await_suspend(std::coroutine_handle<> h) {
    task = h;
    next = (dd::task_node*)0x10;  // whatever was there
    env& x = e;
    int id = c;
    ev("park", kv("c", id));
    x.handover();
    vrt::untracked u;
    x.lot.push_back({this, id});
  }
  bool await_resume() {
    return status == dd::schedule_errc::ok;
  }
};
// tells which coroutine a node belongs to
std::vector<std::pair<void*, int>>* g_handles;
int id_of(std::coroutine_handle<> h) {
  vrt::untracked u;
  for (auto& [p, c] : *g_handles)
    if (p == h.address())
      return c;
  return -1;
}
struct enter {  // coroutine c has this address
  int c;
  bool await_ready() {
    return false;
  }
  bool await_suspend(std::coroutine_handle<> h) {
    vrt::untracked u;
    for (auto& x : *g_handles)
      if (x.first == h.address())
        x.first = nullptr;
    g_handles->push_back({h.address(), c});
    return false;
  }
  void await_resume() {
  }
};

void box::attach(dd::task_node* n) {
  int c = id_of(n->task);
  ev("attach", kv("x", x), kv("c", c));
  e->handover();
  bool now;
  {
    vrt::untracked u;
    now = r.chance(eager);
    if (!now)
      in.push_back(n);
  }
  if (now) {
    bool ok = r.chance(70);
    std::coroutine_handle<> h = n->task;
    n->status = ok ? dd::schedule_errc::ok : dd::schedule_errc::cancelled;
    ev("resume", kv("c", c), kv("ok", ok));
    h.resume();
    ev("back", kv("c", c));
  }
}

template <typename X>
auto by_ref(X& x) {
  return dd::any_executor_ref(x);
}

// a coroutine follows its script; ends when cancelled
dd::job walk(env& e, int c, const script* sc) {
  co_await enter{c};
  size_t i = 0;
  for (;;) {
    step st;
    {
      vrt::untracked u;
      if (i == sc->n)
        break;
      st = sc->s[i++];
    }
    if (st.what == 0) {
      bool ok = co_await lot_node{e, c};
      ev("run", kv("c", c), kv("ok", ok));
      if (!ok)
        break;
      continue;
    }
    ev("jump", kv("c", c), kv("x", st.what));
    dd::schedule_status r;
    if (st.what == 3) {
      vrt::untracked u;
      e.lost_ids.push_back(c);
      for (auto& [p, k] : *g_handles)
        if (k == c)
          e.lost.push_back(std::coroutine_handle<>::from_address(p));
    }
    switch (st.what) {
      case 1:
        if (st.ref) {
          dd::this_thread_executor_t x;
          dd::any_executor_ref ref(x);
          r = co_await dd::jump_on(ref);
        } else
          r = co_await dd::jump_on(dd::this_thread_executor);
        break;
      case 2:
        if (st.ref) {
          dd::new_thread_executor_t x;
          r = co_await dd::jump_on(dd::any_executor_ref(x));
        } else
          r = co_await dd::jump_on(dd::new_thread_executor);
        break;
      case 3:
        if (st.ref) {
          dd::noop_executor_t x;
          r = co_await dd::jump_on(dd::any_executor_ref(x));
        } else
          r = co_await dd::jump_on(dd::noop_executor);
        break;
      case 10:
      case 11:
        if (st.ref) {
          dd::any_executor_ref ref(e.boxes[st.what - 10]);
          dd::any_executor_ref copy = ref;
          r = co_await dd::jump_on(copy);
        } else
          r = co_await dd::jump_on(e.boxes[st.what - 10]);
        break;
      case 20:
        if (st.ref)
          r = co_await dd::jump_on(by_ref(*e.w));
        else
          r = co_await dd::jump_on(*e.w);
        break;
      case 21:
        if (st.ref) {
          dd::strand s(*e.q);
          dd::any_executor_ref ref(s);
          r = co_await dd::jump_on(ref);
        } else
          r = co_await dd::jump_on(*e.q);
        break;
      case 30:
        if (st.ref)
          r = co_await dd::jump_on(by_ref(*e.p));
        else
          r = co_await dd::jump_on(*e.p);
        break;
      case 31: {
        dd::strand s = e.p2->get_strand((dd::operation_hash_t)c);
        if (st.ref)
          r = co_await dd::jump_on(by_ref(s));
        else
          r = co_await dd::jump_on(s);
        break;
      }
    }
    bool ok = (bool)r;
    ev("run", kv("c", c), kv("ok", ok));
    if (!ok)
      break;
  }
  ev("fin", kv("c", c));
}

void start(env& e, const script* s) {
  int c = ++e.ids;
  ev("start", kv("c", c));
  walk(e, c, s);
  ev("back", kv("c", c));
}

const script* a_script(vrt::rng& R, int style, bool park_first) {
  script* s = new (vrt::halloc(sizeof(script))) script;
  vrt::untracked u;
  static const int all[] = {1, 2, 10, 11, 20, 21, 30, 31, 0, 1, 2, 10};
  static const int plain[] = {1, 2, 1, 10, 3};
  if (park_first)
    s->add({0, false});
  int n = R.below(5);
  for (int i = 0; i < n; i++)
    s->add({style == 0 ? all[R.below(12)] : plain[R.below(5)], R.chance(40)});
  for (size_t i = 0; i + 1 < s->n; i++)  // nothing comes after the no-op executor
    if (s->s[i].what == 3)
      s->n = i + 1;
  return s;
}

bool resume_some(env& e, vrt::rng& R) {
  dd::task_node* n = nullptr;
  {
    vrt::untracked u;
    box& b = e.boxes[R.below(2)];
    if (b.in.empty())
      return false;
    size_t i = (size_t)R.below((int)b.in.size());
    n = b.in[i];
    b.in.erase(b.in.begin() + (long)i);
  }
  e.handover();
  int c = id_of(n->task);
  bool ok = R.chance(80);
  std::coroutine_handle<> h = n->task;
  n->status = ok ? dd::schedule_errc::ok : dd::schedule_errc::cancelled;
  ev("resume", kv("c", c), kv("ok", ok));
  h.resume();
  ev("back", kv("c", c));
  return true;
}

// makes a list of what is parked and attaches it
void list(env& e, vrt::rng& R, bool plain) {
  std::vector<parked> l;
  {
    vrt::untracked u;
    if (R.chance(70))
      l = std::move(e.lot), e.lot.clear();
    else
      for (int k = R.below(4); k > 0 && !e.lot.empty(); k--) {
        l.push_back(e.lot.back());
        e.lot.pop_back();
      }
    for (size_t i = l.size(); i > 1; i--)
      std::swap(l[i - 1], l[(size_t)R.below((int)i)]);
  }
  e.handover();
  dd::task_node* top = nullptr;
  for (size_t i = l.size(); i-- > 0;) {
    l[i].n->next = top;
    top = l[i].n;
  }
  if (R.chance(50)) {
    vrt::ints a, b;
    int n = 0;
    for (auto* p = top; p; p = p->next)
      a.add(id_of(p->task));
    top = dd::reverse_list(top);
    for (auto* p = top; p && n < 100; p = p->next, n++)
      b.add(id_of(p->task));
    ev("rev", kv("a", a.str()), kv("b", b.str()));
  }
  static const int ex[] = {1, 2, 10, 11, 20, 21, 30, 31, 3};
  static const int exp[] = {1, 2, 10, 3, 1};
  int x = plain ? exp[R.below(5)] : ex[R.below(9)];
  bool ref = R.chance(40);
  vrt::ints a, st;
  bool used = R.chance(40);  // some of the nodes come from elsewhere, where they were told something
  for (auto* p = top; p; p = p->next) {
    int c = id_of(p->task);
    a.add(c);
    if (used && R.chance(50))
      p->status = (dd::schedule_errc)(1 + R.below(3));
    st.add(p->status == dd::schedule_errc::ok ? 1 : 0);
    if (x == 3) {
      vrt::untracked u;
      e.lost_ids.push_back(c);
      e.lost.push_back(p->task);
    }
  }
  ev("list_b", kv("x", x), kv("l", a.str()), kv("st", st.str()));
  auto go = [&](auto& exe) {
    if (ref) {
      dd::any_executor_ref r(exe);
      dd::attach_list(r, top);
    } else
      dd::attach_list(exe, top);
  };
  dd::this_thread_executor_t tt;
  dd::new_thread_executor_t nt;
  dd::noop_executor_t no;
  switch (x) {
    case 1:
      if (!ref)
        dd::attach_list(dd::this_thread_executor, top);
      else
        go(tt);
      break;
    case 2:
      if (!ref)
        dd::attach_list(dd::new_thread_executor, top);
      else
        go(nt);
      break;
    case 3:
      go(no);
      break;
    case 10:
    case 11:
      go(e.boxes[x - 10]);
      break;
    case 20:
      go(*e.w);
      break;
    case 21:
      if (!ref && R.chance(50))
        e.q->push_list(top);
      else
        go(*e.q);
      break;
    case 30:
      go(*e.p);
      break;
    default:
      go(*e.p2);
  }
  ev("list_e");
}

void act(env& e, vrt::rng& R, int n, bool plain) {
  for (int i = 0; i < n; i++) {
    int w = R.below(100);
    if (w < 55)
      start(e, a_script(R, plain, R.chance(50)));
    else if (w < 80)
      resume_some(e, R);
    else
      list(e, R, plain);
  }
}

void run(vrt::rng& R, bool plain, int threads, int n) {
  env* x = new (vrt::halloc(sizeof(env))) env;
  {
    vrt::untracked u;
    g_handles = new std::vector<std::pair<void*, int>>;
    for (int i = 0; i < 2; i++) {
      x->boxes[i].x = 10 + i;
      x->boxes[i].eager = R.chance(50) ? 0 : 60;
      x->boxes[i].e = x;
      x->boxes[i].r = vrt::rng{R.next()};
    }
  }
  int qt = -1;
  if (!plain) {
    ev("pool_b", kv("x", 20));
    x->w.emplace();
    ev("pool_e");
    ev("pool_b", kv("x", 30));
    x->p.emplace((size_t)(1 + R.below(3)));
    ev("pool_e");
    ev("pool_b", kv("x", 31));
    x->p2.emplace((size_t)(1 + R.below(2)));
    ev("pool_e");
    x->q.emplace();
    qt = vrt::spawn([=] {
      ev("works", kv("x", 21));
      dd::default_worker_job(*x->q);
      ev("works", kv("x", 0));
    });
  }
  std::vector<int> ids;
  for (int i = 1; i < threads; i++) {
    vrt::rng r{R.next()};
    int id = vrt::spawn([=] {
      vrt::rng q = r;
      act(*x, q, n, plain);
    });
    vrt::untracked u;
    ids.push_back(id);
  }
  act(*x, R, n, plain);
  for (int i : ids)
    vrt::join(i);
  // everything ends
  for (int round = 0; round < 60; round++) {
    bool some = false;
    while (resume_some(*x, R))
      some = true;
    vrt::wait_quiescent();
    x->handover();
    size_t lot, in;
    {
      vrt::untracked u;
      lot = x->lot.size();
      in = x->boxes[0].in.size() + x->boxes[1].in.size();
    }
    if (lot) {
      list(*x, R, plain);
      some = true;
    }
    if (!some && !in)
      break;
  }
  if (!plain) {
    for (int k = 0; k < 3; k++) {
      int i = (k + R.below(1)) % 3;
      ev("works", kv("x", i == 0 ? 20 : i == 1 ? 30 : 31));
      i == 0 ? x->w.reset() : i == 1 ? x->p.reset() : x->p2.reset();
      ev("works", kv("x", 0));
    }
    dd::task_node pill = dd::task_node::deadpill();
    x->q->push(&pill);
    vrt::join(qt);
    x->q.reset();
  }
  for (size_t i = 0; i < x->lost.size(); i++) {
    int c;
    std::coroutine_handle<> h;
    {
      vrt::untracked u;
      c = x->lost_ids[i];
      h = x->lost[i];
    }
    ev("drop", kv("c", c));
    h.destroy();
  }
  vrt::untracked u;
  delete g_handles;
  x->~env();
}

}  // namespace

SCENARIO(exec_plain) {
  run(R, true, 1 + R.below(2), 3 + R.below(8));
}
SCENARIO(exec_all) {
  run(R, false, 1 + R.below(2), 3 + R.below(6));
}
