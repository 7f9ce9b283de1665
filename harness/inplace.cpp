#include "vrt/vstd.h"
#include <memory>
#include <string>
#include <vector>
#include <optional>
#include <exception>
#include "kelcoro/inplace_generator.hpp"
#include "kelcoro/kelcoro.hpp"

using vrt::ev;
using vrt::kv;

namespace {

struct my_exc {
  int v;
  std::string pad = "                                ";
};

struct payload {
  std::string s;
  payload(int v) : s(std::to_string(v) + "                    ") {
  }
  payload(const payload&) = default;
  payload& operator=(const payload&) = default;
  payload(payload&& o) noexcept : s(std::move(o.s)) {
    o.s = "-2";
  }
  payload& operator=(payload&& o) noexcept {
    s = std::move(o.s);
    o.s = "-2";
    return *this;
  }
};

struct guard {
  int c;
  explicit guard(int c) : c(c) {
  }
  guard(guard&& o) noexcept : c(std::exchange(o.c, 0)) {
  }
  ~guard() {
    if (c)
      ev("free", kv("c", c));
  }
};

struct env {
  vrt::rng& R;
  int co = 0, obj = 0, val = 0, exc = 0;
  int budget = 8;
  const void* addr = nullptr;
};

int read(const int& i) {
  return i;
}
int read(const payload& p) {
  return atoi(p.s.c_str());
}

template <typename Y>
dd::inplace_generator<Y> body(env& x, int c, int depth, guard);

template <typename Y>
struct object {
  using G = dd::inplace_generator<Y>;
  int id;
  std::optional<G> g;

  template <typename Got>
  void look(env& x, int by, Got&& it) {
    if (it == g->end()) {
      ev("step_e", kv("o", id), kv("by", by), kv("kind", "end"), kv("v", 0));
      return;
    }
    auto&& r = *it;
    bool same = x.addr == (const void*)std::addressof(r);
    ev("step_e", kv("o", id), kv("by", by), kv("kind", "val"), kv("v", read(r)));
    ev("same", kv("o", id), kv("ret", same));
  }
  void peek(env& x) {
    auto it = g->begin();
    ev("empty", kv("o", id), kv("ret", g->empty()));
    if (g->empty() != !*g)
      ev("wrong", kv("o", id));
    ev("at_end", kv("o", id), kv("ret", it == g->end()));
    if (it == g->end())
      return;
    ev("peek", kv("o", id), kv("v", read(*it)));
    if constexpr (!std::is_const_v<std::remove_reference_t<Y>>) {
      if (x.R.chance(30)) {
        int v = 100000 + ++x.val;
        if constexpr (std::is_same_v<std::decay_t<Y>, int>) {
          *it.operator->() = v;
        } else if (x.R.chance(50)) {
          payload taken = *it;
          v = -2;
        } else
          *it.operator->() = payload(v);
        ev("put", kv("o", id), kv("v", v));
        ev("peek", kv("o", id), kv("v", read(*it)));
      }
    }
  }

  object(env& x, int depth, int by) : id(++x.obj) {
    int c = ++x.co;
    --x.budget;
    ev("make", kv("o", id), kv("c", c));
    ev("step_b", kv("o", id), kv("by", by), kv("ch", 0));
    try {
      g.emplace(body<Y>(x, c, depth, guard(c)));
    } catch (my_exc& e) {
      ev("step_e", kv("o", id), kv("by", by), kv("kind", "exc"), kv("v", e.v));
      ev("dtor_b", kv("o", id));
      ev("dtor_e", kv("o", id));
      return;
    }
    look(x, by, g->begin());
  }
  object(env& x, object& from) : id(++x.obj) {
    ev("move", kv("o", from.id), kv("p", id));
    g.emplace(std::move(*from.g));
  }
  object(object&&) = delete;
  ~object() {
    if (!g)
      return;
    ev("dtor_b", kv("o", id));
    g.reset();
    ev("dtor_e", kv("o", id));
  }
  void carry(env& x) {
    object p(x, *this);
    peek(x);
    p.peek(x);
    if (x.R.chance(50)) {
      ev("swap", kv("o", id), kv("p", p.id));
      g->swap(*p.g);
    } else {
      ev("assign_b", kv("o", p.id), kv("p", id));
      *g = std::move(*p.g);
      ev("assign_e", kv("o", p.id), kv("p", id));
    }
    peek(x);
  }
  // looks at what is left
  void session(env& x, int by) {
    int left = x.R.chance(30) ? 1000 : x.R.below(5);
    peek(x);
    try {
      if (x.R.chance(30)) {
        bool first = true;
        for (auto it = g->begin(); it != g->end();) {
          if (!first)
            peek(x);
          first = false;
          if (left-- == 0)
            return;
          step(by);
          if (x.R.chance(50))
            ++it;
          else
            it++;
          look(x, by, it);
          if (x.R.chance(20))
            carry(x);  // the iterator goes with the sequence
        }
      } else if (x.R.chance(30)) {
        bool first = true;
        int n = 0;
        if (!g->empty() && left > 0) {
          for (auto&& r : *g) {
            if (!first) {
              bool same = x.addr == (const void*)std::addressof(r);
              ev("step_e", kv("o", id), kv("by", by), kv("kind", "val"), kv("v", read(r)));
              ev("same", kv("o", id), kv("ret", same));
            } else
              ev("peek", kv("o", id), kv("v", read(r)));
            first = false;
            if (++n == left)
              return;
            step(by);
          }
          ev("step_e", kv("o", id), kv("by", by), kv("kind", "end"), kv("v", 0));
        }
      } else
        while (left-- > 0 && !g->empty()) {
          auto it = g->begin();
          step(by);
          ++it;
          look(x, by, it);
          peek(x);
          if (x.R.chance(15))
            carry(x);
        }
    } catch (my_exc& e) {
      ev("step_e", kv("o", id), kv("by", by), kv("kind", "exc"), kv("v", e.v));
    }
    peek(x);
  }
  void step(int by) {
    ev("step_b", kv("o", id), kv("by", by), kv("ch", 0));
  }
};

template <typename Y>
dd::inplace_generator<Y> body(env& x, int c, int depth, guard) {
  ev("body_b", kv("c", c));
  int n = x.R.below(6);
  for (int i = 0; i < n; i++) {
    int r = x.R.below(100);
    if (r < 75 || depth > 2 || x.budget <= 0) {
      int v = ++x.val;
      if constexpr (std::is_reference_v<Y>) {
        std::remove_reference_t<Y> l(v);
        x.addr = &l;
        ev("y_b", kv("c", c), kv("v", v), kv("form", "ref"));
        if (r & 1)
          co_yield l;
        else
          co_yield dd::by_ref{l};
        ev("y_e", kv("c", c), kv("v", read(l)));
      } else
        switch (r % 5) {
          case 0: {
            Y l(v);
            x.addr = &l;
            ev("y_b", kv("c", c), kv("v", v), kv("form", "ref"));
            co_yield std::move(l);
            ev("y_e", kv("c", c), kv("v", read(l)));
            break;
          }
          case 1: {
            const Y l(v);
            x.addr = &l;
            ev("y_b", kv("c", c), kv("v", v), kv("form", "copy"));
            co_yield l;
            ev("y_e", kv("c", c), kv("v", read(l)));
            break;
          }
          case 2: {
            Y l(v);
            x.addr = &l;
            ev("y_b", kv("c", c), kv("v", v), kv("form", "copy"));
            co_yield l;
            ev("y_e", kv("c", c), kv("v", read(l)));
            break;
          }
          case 3: {
            Y l(v);
            x.addr = &l;
            ev("y_b", kv("c", c), kv("v", v), kv("form", "ref"));
            co_yield dd::by_ref{l};
            ev("y_e", kv("c", c), kv("v", read(l)));
            break;
          }
          default:
            x.addr = nullptr;
            ev("y_b", kv("c", c), kv("v", v), kv("form", "tmp"));
            co_yield Y(v);
            ev("y_e", kv("c", c), kv("v", v));
        }
    } else if (r < 92) {
      if constexpr (std::is_same_v<Y, int>) {
        if (x.R.chance(50)) {
          object<payload> o(x, depth + 1, c);
          if (o.g)
            o.session(x, c);
          continue;
        }
      }
      object<Y> o(x, depth + 1, c);
      if (o.g)
        o.session(x, c);
    } else if (r < 97) {
      int e = 500000 + ++x.exc;
      ev("body_x", kv("c", c), kv("x", e));
      throw my_exc{e};
    }
  }
  ev("body_e", kv("c", c));
}

template <typename Y>
void program(vrt::rng& R) {
  env& x = *new env{R};
  constexpr int by = 1000;
  {
    std::vector<std::unique_ptr<object<Y>>> os;
    int n = 3 + x.R.below(12);
    for (int i = 0; i < n; i++) {
      if (os.empty() || x.R.chance(25)) {
        x.budget = std::max(x.budget, 3);
        auto p = std::make_unique<object<Y>>(x, 0, by);
        if (p->g)
          os.push_back(std::move(p));
        continue;
      }
      size_t a = x.R.below(os.size()), b = x.R.below(os.size());
      object<Y>&o = *os[a], &p = *os[b];
      int r = x.R.below(100);
      if (r < 55) {
        o.session(x, by);
      } else if (r < 65) {
        os.push_back(std::make_unique<object<Y>>(x, o));
        o.peek(x);
        os.back()->peek(x);
      } else if (r < 75) {
        ev("swap", kv("o", o.id), kv("p", p.id));
        if (x.R.chance(50))
          swap(*o.g, *p.g);
        else
          o.g->swap(*p.g);
        o.peek(x);
        p.peek(x);
      } else if (r < 85) {
        if (&o != &p) {
          ev("assign_b", kv("o", o.id), kv("p", p.id));
          *p.g = std::move(*o.g);
          ev("assign_e", kv("o", o.id), kv("p", p.id));
          o.peek(x);
          p.peek(x);
        }
      } else
        os.erase(os.begin() + a);
    }
  }
  delete &x;
}

}  // namespace

SCENARIO(inplace) {
  switch (variant % 6) {
    case 0:
    case 1:
      program<int>(R);
      break;
    case 2:
    case 3:
      program<payload>(R);
      break;
    case 4:
      program<int&>(R);
      break;
    default:
      program<const int&>(R);
  }
}
