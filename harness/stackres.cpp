#include "vrt/vstd.h"
#include "kelcoro/stack_memory_resource.hpp"
#include "kelcoro/kelcoro.hpp"
#include <memory>
#include <optional>
#include <vector>
#include <cstring>

using vrt::ev;
using vrt::kv;

namespace {

struct blk {
  unsigned char* p;
  size_t n;
  unsigned char seed;
};

// a resource, and what has been taken from it; r == 0: gone
struct holder {
  int r = 0;
  std::optional<dd::stack_resource> s;
  std::vector<blk> live;
};

struct env {
  std::vector<holder> h;
  int next = 1;
  unsigned char seed = 1;
};

bool intact(const blk& b) {
  vrt::untracked u;
  // short blocks fully, long ones at both ends
  for (size_t i = 0; i < b.n; i = (i == 300 && b.n > 800) ? b.n - 300 : i + 1)
    if (b.p[i] != (unsigned char)(b.seed + i))
      return false;
  return true;
}
bool intact(const holder& h) {
  for (auto& b : h.live)
    if (!intact(b))
      return false;
  return true;
}
void fill(const blk& b) {
  vrt::untracked u;
  for (size_t i = 0; i < b.n; i = (i == 300 && b.n > 800) ? b.n - 300 : i + 1)
    b.p[i] = (unsigned char)(b.seed + i);
}

void create(env& x, holder& h, vrt::rng& R) {
  h.r = x.next++;
  size_t n = 0;
  switch (R.below(4)) {
    case 0:
      break;
    case 1:
      n = (size_t)R.below(5) * 16;
      break;
    case 2:
      n = (size_t)R.below(2000);
      break;
    default:
      n = 16 + (size_t)R.below(200);
  }
  // a span of no bytes may have an address
  void* p = n || R.chance(30) ? vrt::halloc(n + 16) : nullptr;
  int b = n ? vrt::where(p).b : 0;
  ev("create", kv("r", h.r), kv("b", b), kv("n", n));
  if (!p && R.chance(50))
    h.s.emplace();
  else
    h.s.emplace(std::span((unsigned char*)p, n));
}

// returns false if the system had no memory
bool allocate(env& x, holder& h, size_t n, bool fails = false) {
  ev("alloc_b", kv("r", h.r), kv("n", n));
  if (fails)
    vrt::fail_alloc(1);
  vrt::alloc_events(true);
  void* p;
  try {
    p = h.s->allocate(n);
  } catch (const std::bad_alloc&) {
    vrt::alloc_events(false);
    vrt::fail_alloc(0);
    ev("alloc_x");
    return false;
  }
  vrt::alloc_events(false);
  vrt::fail_alloc(0);
  vrt::place w = vrt::where(p);
  ev("alloc_e", kv("b", w.b), kv("o", w.off), kv("al", (uintptr_t)p % 16));
  vrt::untracked u;
  blk b{(unsigned char*)p, n, x.seed += 37};
  h.live.push_back(b);
  fill(b);
  return true;
}
void deallocate(holder& h) {
  blk b = h.live.back();
  bool ok = intact(b);
  {
    vrt::untracked u;
    h.live.pop_back();
  }
  vrt::alloc_events(true);
  h.s->deallocate(b.p, b.n);
  vrt::alloc_events(false);
  ev("dealloc", kv("r", h.r), kv("ok", ok));
}
void reuse(holder& h) {
  bool ok = intact(h);
  vrt::alloc_events(true);
  h.s->reuse_memory();
  vrt::alloc_events(false);
  {
    vrt::untracked u;
    h.live.clear();
  }
  ev("reuse", kv("r", h.r), kv("ok", ok));
}
void destroy(holder& h) {
  {
    vrt::untracked u;
    h.live.clear();
  }
  ev("destroy_b", kv("r", h.r));
  vrt::alloc_events(true);
  h.s.reset();
  vrt::alloc_events(false);
  ev("destroy_e", kv("r", h.r), kv("stays", 0));
  h.r = 0;
}

size_t some_size(vrt::rng& R, int style) {
  switch (style) {
    case 0:
      return 1 + (size_t)R.below(200);
    case 1:
      return 16 * (1 + (size_t)R.below(12));
    case 2:
      return R.chance(80) ? 1 + (size_t)R.below(64) : 500 + (size_t)R.below(5000);
    case 3:
      return (size_t)1 << R.below(14);
    case 4:
      return ((size_t)16 << R.below(8)) + (size_t)R.below(3) - 1;
    default:
      return R.chance(90) ? 100 : 100000;
  }
}

void run(env& x, vrt::rng& R, int steps) {
  int style = R.below(6);
  int lean = 30 + R.below(50);
  for (int i = 0; i < steps; i++) {
    holder& h = x.h[(size_t)R.below((int)x.h.size())];
    if (!h.r) {
      create(x, h, R);
      continue;
    }
    int what = R.below(100);
    if (what < lean)
      allocate(x, h, some_size(R, style), R.chance(4));
    else if (what < 84) {
      if (R.chance(15))  // all the way down
        while (!h.live.empty())
          deallocate(h);
      else if (!h.live.empty())
        deallocate(h);
    } else if (what < 89)
      reuse(h);
    else if (what < 92) {
      bool ok = intact(h);
      ev("look", kv("r", h.r), kv("ok", ok));
    } else if (what < 94)
      destroy(h);
    else {
      holder& g = x.h[(size_t)R.below((int)x.h.size())];
      if (&g == &h)
        continue;
      if (!g.r) {  // move construction
        g.r = x.next++;
        vrt::alloc_events(true);
        g.s.emplace(std::move(*h.s));
        vrt::alloc_events(false);
        ev("move", kv("r", h.r), kv("q", g.r));
      } else {  // what g had is given back
        ev("destroy_b", kv("r", g.r));
        vrt::alloc_events(true);
        *g.s = std::move(*h.s);
        vrt::alloc_events(false);
        ev("destroy_e", kv("r", g.r), kv("stays", 1));
        ev("assign", kv("r", h.r), kv("q", g.r));
      }
      vrt::untracked u;
      g.live = std::move(h.live);
      h.live.clear();
      if (R.chance(50))
        reuse(g);  // right after a move
      else if (R.chance(30))
        destroy(h);
    }
  }
  for (auto& h : x.h)
    if (h.r) {
      bool ok = intact(h);
      ev("look", kv("r", h.r), kv("ok", ok));
      if (R.chance(60))
        while (!h.live.empty())
          deallocate(h);
      destroy(h);
    }
}

}  // namespace

SCENARIO(stack_ops) {
  env* x = new (vrt::halloc(sizeof(env))) env;
  {
    vrt::untracked u;
    x->h.resize((size_t)(1 + R.below(3)));
  }
  run(*x, R, 10 + R.below(60));
  vrt::untracked u;
  x->~env();
}
