#include "vrt/vstd.h"
#include "kelcoro/latch.hpp"
#include "kelcoro/thread_pool.hpp"
#include "kelcoro/kelcoro.hpp"
#include <memory>
#include <vector>

using vrt::ev;
using vrt::kv;

namespace {

enum exe_kind { here, on_pool, on_strand, on_worker, fresh, nested_any };

struct env {
  exe_kind k = here;
  std::unique_ptr<dd::thread_pool> pool;
  std::unique_ptr<dd::worker> wrk;
  std::unique_ptr<dd::strand> str;
  std::unique_ptr<dd::any_executor_ref> any;
  dd::this_thread_executor_t self_exe;
  dd::new_thread_executor_t new_exe;
  std::unique_ptr<dd::latch> l;
  std::vector<int> places;  // threads that belong to the executor
  bool mine[64] = {true};  // threads of the harness
  ptrdiff_t unit = 1;
  int data[24] = {};  // data[c] is written before count-down c
  int downs = 0;      // count-downs of the program
  int real = 0;       // those by more than zero
};

bool in_place(env& x) {
  vrt::untracked u;
  int t = vrt::self();
  switch (x.k) {
    case here:
    case nested_any:
      return true;
    case fresh:
      return t >= 64 || !x.mine[t];
    default:
      for (int p : x.places)
        if (p == t)
          return true;
      return false;
  }
}

struct inside {
  int w = 0, t = -1;
};

void ran(env& x, int w, const inside& in) {
  int inl = in.w == w && in.t == vrt::self();
  int sum = 0;
  for (int i = 0; i < x.downs; i++)
    sum += x.data[i];
  ev("run", kv("w", w), kv("inl", inl), kv("place", in_place(x)), kv("sum", sum));
}

// waits, then waits once more
dd::job waiter(env& x, int w, bool again, inside* in) {
  co_await x.l->wait();
  ran(x, w, *in);
  if (again) {
    *in = inside{w + 100, vrt::self()};
    ev("wait_b", kv("w", w + 100), kv("arr", 0));
    co_await x.l->wait();
    ran(x, w + 100, *in);
  }
}
dd::job arriver(env& x, int w, int n, bool again, inside* in) {
  co_await x.l->arrive_and_wait(n * x.unit);
  ran(x, w, *in);
  if (again) {
    *in = inside{w + 100, vrt::self()};
    ev("wait_b", kv("w", w + 100), kv("arr", 0));
    co_await x.l->wait();
    ran(x, w + 100, *in);
  }
}

struct op {
  int what, n, id;
  bool again;
};
enum { op_down, op_wait, op_arrive, op_ready };

void perform(env& x, const op& o) {
  switch (o.what) {
    case op_down:
      if (o.n > 0)
        x.data[o.id] = 1;
      ev("down_b", kv("c", o.id), kv("n", o.n));
      if (o.n == 1 && x.unit == 1)
        x.l->count_down();
      else
        x.l->count_down(o.n * x.unit);
      ev("down_e", kv("c", o.id));
      break;
    case op_wait:
    case op_arrive: {
      inside* in = (inside*)vrt::halloc(sizeof(inside));
      *in = inside{o.id, vrt::self()};
      ev("wait_b", kv("w", o.id), kv("arr", o.what == op_arrive));
      if (o.what == op_wait)
        waiter(x, o.id, o.again, in);
      else {
        if (o.n > 0)
          x.data[o.id] = 1;
        ev("down_b", kv("c", o.id), kv("n", o.n));
        arriver(x, o.id, o.n, o.again, in);
        ev("down_e", kv("c", o.id));
      }
      {
        vrt::untracked u;
        if (in->t == vrt::self())
          in->t = -1;
      }
      ev("wait_r", kv("w", o.id));
      break;
    }
    case op_ready: {
      ev("ready_b", kv("c", o.id));
      bool r = x.l->ready();
      ev("ready_e", kv("c", o.id), kv("ret", r));
      if (r) {
        int sum = 0;
        for (int i = 0; i < x.downs; i++)
          sum += x.data[i];
        ev("sum", kv("sum", sum));
      }
      break;
    }
  }
}

void program(vrt::rng& R, bool big) {
  env x;
  x.k = exe_kind(R.below(6));
  int units = R.below(5);
  if (big)
    x.unit = ptrdiff_t(1) << (R.chance(50) ? 8 * (1 + R.below(7)) : R.below(60));
  // split the units over count-downs; some count down nothing
  std::vector<op> ops;
  int rest = units, id = 0;
  while (rest > 0 || (id < 3 && R.chance(30))) {
    int n = rest ? 1 + R.below(rest) : 0;
    if (R.chance(10))
      n = 0;
    rest -= n;
    bool arr = R.chance(45);
    ops.push_back(op{arr ? op_arrive : op_down, n, id++, R.chance(40)});
    if (id > 10)
      break;
  }
  if (rest)
    ops.push_back(op{op_down, rest, id++, false});
  x.downs = id;
  for (auto& o : ops)
    x.real += o.n > 0;
  // a pending wait may end only when all units are counted down: hold back one sometimes
  int W = R.below(4);
  for (int i = 0; i < W; i++)
    ops.push_back(op{op_wait, 0, id++, R.chance(40)});
  for (int i = R.below(3); i > 0; i--)
    ops.push_back(op{op_ready, 0, id++, false});
  for (size_t i = ops.size(); i > 1; i--)
    std::swap(ops[i - 1], ops[R.below((int)i)]);
  int P = 1 + R.below(3);
  std::vector<std::vector<op>> prog(P);
  bool held = R.chance(40);
  std::vector<op> last;
  for (auto& o : ops) {
    if (held && o.what == op_down && o.n > 0 && last.empty())
      last.push_back(o);
    else
      prog[R.below(P)].push_back(o);
  }
  switch (x.k) {
    case on_pool:
      x.pool = std::make_unique<dd::thread_pool>(size_t(1 + R.below(2)));
      for (auto& t : x.pool->workers_range())
        x.places.push_back(t.get_id().n);
      break;
    case on_strand:
      x.pool = std::make_unique<dd::thread_pool>(size_t(1 + R.below(2)));
      x.str = std::make_unique<dd::strand>(x.pool->get_strand(R.below(3)));
      for (auto& t : x.pool->workers_range())
        x.places.push_back(t.get_id().n);
      break;
    case on_worker:
      x.wrk = std::make_unique<dd::worker>();
      x.places.push_back(x.wrk->get_id().n);
      break;
    default:
      break;
  }
  ptrdiff_t count = units * x.unit;
  if (x.k == here)
    x.l = std::make_unique<dd::latch>(count, x.self_exe);
  else if (x.k == on_pool)
    x.l = std::make_unique<dd::latch>(count, *x.pool);
  else if (x.k == on_strand)
    x.l = std::make_unique<dd::latch>(count, *x.str);
  else if (x.k == on_worker)
    x.l = std::make_unique<dd::latch>(count, *x.wrk);
  else if (x.k == fresh)
    x.l = std::make_unique<dd::latch>(count, x.new_exe);
  else {
    x.any = std::make_unique<dd::any_executor_ref>(x.self_exe);
    x.l = std::make_unique<dd::latch>(count, *x.any);
  }
  vrt::cfg_("count", units);
  vrt::cfg_("downs", x.real);
  std::vector<int> th;
  for (auto& p : prog)
    th.push_back(vrt::spawn([&x, &p] {
      {
        vrt::untracked u;
        x.mine[vrt::self()] = true;
      }
      for (auto& o : p)
        perform(x, o);
    }));
  for (int t : th)
    vrt::join(t);
  vrt::wait_quiescent();
  ev("quiet");
  for (auto& o : last)
    perform(x, o);
  perform(x, op{op_ready, 0, 50, false});
  perform(x, op{op_wait, 0, 51, true});
  vrt::wait_quiescent();
  ev("quiet");
  x.pool.reset();
  x.wrk.reset();
}

}  // namespace

SCENARIO(latch) {
  program(R, false);
}
SCENARIO(latch_big) {
  program(R, true);
}
