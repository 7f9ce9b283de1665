// the body of a channel session; G, x, o, by as in csession
  using Y = yield_of<G>;
  int left = x.R.chance(30) ? 1000 : 1 + x.R.below(4);
  int how = x.R.below(3);
  int exc = 0;
  if (how == 2) {
    for (;;) {
      step(o, by);
      auto* p = co_await o.g->next();
      if (!p) {
        no_more(o, by);
        break;
      }
      struct one {
        std::remove_reference_t<Y>* p;
        Y&& operator*() {
          return static_cast<Y&&>(*p);
        }
        auto* operator->() {
          return p;
        }
      } it{p};
      got(x, o, by, it);
      looks(x, o, it);
      if (--left == 0)
        break;
      carry(x, o);
    }
    auto take = [&](object<G>& from) {
      if (std::exception_ptr e = from.g->take_exception()) {
        try {
          std::rethrow_exception(e);
        } catch (my_exc& m) {
          exc = m.v;
        }
        if (x.R.chance(30) && from.g->take_exception())
          ev("wrong", kv("o", from.id));
      }
    };
    int place = x.R.below(6);
    if (place == 0)
      carry(x, o, false);  // there may be an exception to tell
    if (place == 1) {
      object<G> p(x, o);
      take(p);
      ev("sess_e", kv("o", p.id), kv("x", exc));
      exc = 0;
      ev("swap", kv("o", o.id), kv("p", p.id));
      o.g->swap(*p.g);
    }
    take(o);
  } else {
    step(o, by);
    try {
      if (how == 1) {
        bool left_early = false;
        co_foreach(Y && r, *o.g) {
          struct one {
            std::remove_reference_t<Y>* p;
            Y&& operator*() {
              return static_cast<Y&&>(*p);
            }
            auto* operator->() {
              return p;
            }
          } it{std::addressof(r)};
          got(x, o, by, it);
          looks(x, o, it);
          if (--left == 0) {
            left_early = true;
            break;
          }
          step(o, by);
        }
        if (!left_early)
          no_more(o, by);
      } else {
        auto it = co_await o.g->begin();
        for (;;) {
          if (it == o.g->end()) {
            no_more(o, by);
            break;
          }
          got(x, o, by, it);
          looks(x, o, it);
          if (--left == 0)
            break;
          if (&it.owner() != &*o.g)
            ev("wrong", kv("o", o.id));
          carry(x, o);
          if (x.R.chance(10)) {  // one step of it is made as another object, from an iterator made there
            object<G> q(x, o);
            int qexc = 0;
            bool over = false;
            try {
              dd::channel_iterator<Y> there(*q.g);
              step(q, by);
              (void)(co_await ++there);
              over = there == q.g->end();
              if (over)
                no_more(q, by);
              else
                got(x, q, by, there);
            } catch (my_exc& e) {
              qexc = e.v;
            }
            ev("sess_e", kv("o", q.id), kv("x", qexc));
            ev("swap", kv("o", o.id), kv("p", q.id));
            o.g->swap(*q.g);
            if (over || --left == 0)
              break;
          }
          step(o, by);
          (void)(co_await ++it);
        }
      }
    } catch (my_exc& e) {
      if (how == 1)  // the loop was over, its iterator told so
        no_more(o, by);
      exc = e.v;
    }
  }
  ev("sess_e", kv("o", o.id), kv("x", exc));
