#include "vrt/vstd.h"
#include <memory>
#include <vector>
#include "kelcoro/nonowner_lockfree_stack.hpp"
#include "kelcoro/executor_interface.hpp"

using vrt::ev;
using vrt::kv;

namespace {

struct node {
  node* next = nullptr;
  int id = 0;
};
using stack = dd::nonowner_lockfree_stack<node>;

void push(stack& s, node* n) {
  vrt::ints l;
  l.add(n->id);
  ev("call", kv("op", "push"), kv("l", l.str()));
  s.push(n);
  ev("ret", kv("l", "[]"));
}
void push_stack(stack& s, node* n) {
  vrt::ints l;
  for (node* i = n; i; i = i->next)
    l.add(i->id);
  ev("call", kv("op", "push"), kv("l", l.str()));
  s.push_stack(n);
  ev("ret", kv("l", "[]"));
}
node* pop(stack& s) {
  ev("call", kv("op", "pop"), kv("l", "[]"));
  node* n = s.try_pop_all();
  vrt::ints l;
  int guard = 0;
  for (node* i = n; i && guard++ < 100; i = i->next)
    l.add(i->id);
  ev("ret", kv("l", l.str()));
  return n;
}

}  // namespace

// threads push own nodes, pop lists, push back single nodes or whole rests of lists
SCENARIO(lf) {
  int P = 2 + R.below(2);
  stack s;
  std::vector<std::unique_ptr<node>> all;
  std::vector<int> th;
  int per = 1 + R.below(3);
  int ops = 2 + R.below(3);
  int next_id = 1;
  for (int p = 0; p < P; p++) {
    // the nodes are the user's memory; they outlive the stack's use
    std::vector<node*> mine;
    for (int i = 0; i < per; i++) {
      node* n = all.emplace_back(new node).get();
      n->id = next_id++;
      mine.push_back(n);
    }
    th.push_back(vrt::spawn([&s, mine, ops, seed = R.next()]() mutable {
      vrt::rng R{seed};
      for (int o = 0; o < ops; o++) {
        int w = R.below(10);
        if (w < 5 && !mine.empty()) {
          node* n = mine.back();
          mine.pop_back();
          // what 'next' holds before a push does not matter
          if (R.chance(50))
            n->next = nullptr;
          push(s, n);
        } else if (w < 7 && !mine.empty()) {
          int c = 1 + R.below((int)mine.size());
          node* l = nullptr;
          for (int i = 0; i < c; i++) {
            node* n = mine.back();
            mine.pop_back();
            n->next = l;
            l = n;
          }
          push_stack(s, l);
        } else {
          node* n = pop(s);
          if (n && R.chance(30)) {  // everything goes back
            push_stack(s, n);
            continue;
          }
          while (n) {
            mine.push_back(n);
            n = n->next;
          }
        }
      }
    }));
  }
  for (int t : th)
    vrt::join(t);
  if (R.chance(30))
    push_stack(s, nullptr);
  pop(s);
  pop(s);
}

// many nodes: long lists are spliced, order is kept
SCENARIO(lf_big) {
  stack s;
  std::vector<std::unique_ptr<node>> all;
  std::vector<int> th;
  int next_id = 1;
  for (int p = 0; p < 2; p++) {
    std::vector<node*> mine;
    for (int i = 0; i < 20; i++) {
      node* n = all.emplace_back(new node).get();
      n->id = next_id++;
      mine.push_back(n);
    }
    th.push_back(vrt::spawn([&s, mine, seed = R.next()]() mutable {
      vrt::rng R{seed};
      while (!mine.empty()) {
        if (R.chance(70)) {
          push(s, mine.back());
          mine.pop_back();
          continue;
        }
        int c = 1 + R.below((int)mine.size());
        node* l = nullptr;
        for (int i = 0; i < c; i++) {
          mine.back()->next = l;
          l = mine.back();
          mine.pop_back();
        }
        push_stack(s, l);
        if (R.chance(40)) {
          node* n = pop(s);
          if (n)
            push_stack(s, n);
        }
      }
    }));
  }
  for (int t : th)
    vrt::join(t);
  pop(s);
}
