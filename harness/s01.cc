// S01: scope guards.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/raii.h"

using namespace pbt;

namespace {
struct Thrown {};

using Guard = utl::finally<std::function<void()>>;

// what the guards do, in order
struct Log {
  std::vector<int> done;
};

// scopes nest as the recursion does; the expected order is that of a stack
struct Scopes {
  Case& c;
  Log log;
  std::vector<int> want;
  int next = 0;
  int budget;

  // runs a scope with some guards in it, returns false if it was left by an exception
  void scope(int const depth) {
    auto pending = std::vector<int>{};  // model: actions due at the end, bottom first
    struct Unwind {
      ~Unwind() {
        for (auto i = s->size(); i != 0; --i) w->push_back((*s)[i - 1]);
      }
      std::vector<int>* s;
      std::vector<int>* w;
    };
    auto expected = Unwind{&pending, &want};
    guards(depth, pending);
  }
  void guards(int const depth, std::vector<int>& pending) {
    if (--budget <= 0) return;
    auto const id = next;
    switch (c.draw(9)) {
      case 0: return;
      case 1: {  // the macro
        ++next;
        c.note(std::string(static_cast<std::size_t>(depth), ' '), "UTL_FINALLY ", id);
        pending.push_back(id);
        UTL_FINALLY(([&, id] { log.done.push_back(id); }))
        guards(depth, pending);
        return;
      }
      case 2: {  // an action of its own kind, temporary
        ++next;
        c.note(std::string(static_cast<std::size_t>(depth), ' '), "make_finally(temporary) ", id);
        pending.push_back(id);
        auto const g = utl::make_finally([&, id] { log.done.push_back(id); });
        guards(depth, pending);
        return;
      }
      case 3: {  // an action that lives elsewhere
        ++next;
        c.note(std::string(static_cast<std::size_t>(depth), ' '), "make_finally(named) ", id);
        pending.push_back(id);
        auto fn = [&, id] { log.done.push_back(id); };
        auto const g = utl::make_finally(fn);
        guards(depth, pending);
        return;
      }
      case 4: {  // a resource
        ++next;
        c.note(std::string(static_cast<std::size_t>(depth), ' '), "make_raii(value) ", id);
        pending.push_back(id);
        auto r = utl::make_raii(int{id}, [&](int const x) { log.done.push_back(x); });
        CHECK_EQ(r.get(), id);
        CHECK_EQ(static_cast<int>(r), id, "conversion");
        guards(depth, pending);
        CHECK_EQ(r.get(), id);
        return;
      }
      case 5: {  // a resource that lives elsewhere: changes are seen by the action
        ++next;
        c.note(std::string(static_cast<std::size_t>(depth), ' '), "make_raii(reference) ", id);
        pending.push_back(id);
        auto res = -1;
        auto const r = utl::make_raii(res, [&](int& x) { log.done.push_back(x); x = -2; });
        res = id;
        guards(depth, pending);
        return;
      }
      case 6: {  // a resource that is given up
        ++next;
        c.note(std::string(static_cast<std::size_t>(depth), ' '), "make_raii(released) ", id);
        auto r = utl::make_raii(int{id}, [&](int const x) { log.done.push_back(x); });
        auto const keep = c.flip();
        if (keep) pending.push_back(id);
        r.omit_destruct_ = !keep;
        c.label_if(!keep, "released resource");
        guards(depth, pending);
        return;
      }
      case 7: {  // move-only resource
        ++next;
        c.note(std::string(static_cast<std::size_t>(depth), ' '), "make_raii(unique_ptr) ", id);
        pending.push_back(id);
        auto r = utl::make_raii(std::make_unique<int>(id), [&](std::unique_ptr<int>& x) { log.done.push_back(x == nullptr ? -1 : *x); x = nullptr; });
        CHECK_EQ(*r.get(), id);
        guards(depth, pending);
        return;
      }
      case 8: {  // an inner scope, which may be left by an exception
        c.label("nested scope");
        try {
          scope(depth + 1);
        } catch (Thrown const&) {
          c.label("scope left by an exception");
        }
        CHECK_EQ(log.done, want, "behind an inner scope");
        guards(depth, pending);
        return;
      }
      default:
        c.note(std::string(static_cast<std::size_t>(depth), ' '), "throw");
        throw Thrown{};
    }
  }
};
}  // namespace

PROP(nested_scopes, 5) {
  auto s = Scopes{c, {}, {}, 0, static_cast<int>(2 + c.more(25))};
  try {
    s.scope(0);
  } catch (Thrown const&) {
    c.label("scope left by an exception");
  }
  CHECK_EQ(s.log.done, s.want, "actions in order");
  c.nontrivial(s.next >= 2);
}

// guards that are moved and assigned
PROP(moves, 5) {
  auto done = std::vector<int>{};
  auto want = std::vector<int>{};
  {
    auto slots = std::array<std::unique_ptr<Guard>, 4>{};
    auto model = std::array<int, 4>{-1, -1, -1, -1};  // action held, -1: none
    auto next = 0;
    auto const n = 1 + c.more(25);
    auto moves = 0;
    for (auto i = std::size_t{0}; i != n; ++i) {
      auto const a = c.below(4), b = c.below(4);
      switch (c.draw(4)) {
        case 0:
          if (slots[a] != nullptr) break;
          c.note("g", a, " = new guard ", next);
          slots[a] = std::make_unique<Guard>([&done, id = next] { done.push_back(id); });
          model[a] = next++;
          break;
        case 1:
          if (slots[a] != nullptr || slots[b] == nullptr) break;
          c.note("g", a, " constructed from g", b);
          slots[a] = std::make_unique<Guard>(std::move(*slots[b]));
          model[a] = std::exchange(model[b], -1);
          ++moves;
          break;
        case 2:
          if (slots[a] == nullptr || slots[b] == nullptr) break;
          c.note("g", a, " = move(g", b, ")");
          *slots[a] = std::move(*slots[b]);
          if (a != b) {
            if (model[a] != -1) want.push_back(model[a]);
            model[a] = std::exchange(model[b], -1);
          } else {
            c.label("self-assignment");
          }
          ++moves;
          break;
        case 3:
          if (slots[a] == nullptr) break;
          c.note("g", a, " assigned a new guard ", next);
          *slots[a] = Guard{[&done, id = next] { done.push_back(id); }};
          if (model[a] != -1) want.push_back(model[a]);
          model[a] = next++;
          ++moves;
          break;
        default:
          if (slots[a] == nullptr) break;
          c.note("~g", a);
          slots[a] = nullptr;
          if (model[a] != -1) want.push_back(model[a]);
          model[a] = -1;
          break;
      }
      CHECK_EQ(done, want, "actions so far");
    }
    c.nontrivial(moves >= 1 && next >= 2);
    for (auto i = slots.size(); i != 0; --i) {
      slots[i - 1] = nullptr;
      if (model[i - 1] != -1) want.push_back(model[i - 1]);
    }
  }
  CHECK_EQ(done, want, "actions in the end");
}

// guards inside of destructors that run because of an exception, with further
// exceptions thrown and caught in there
namespace {
struct Inner {
  Case& c;
  std::vector<int>& done;
  std::vector<int>& want;
  int depth;
  ~Inner() {
    auto const id = depth * 10;
    auto const kind = c.draw(3);
    c.note(std::string(static_cast<std::size_t>(depth), ' '), "destructor, kind ", kind);
    try {
      auto const g = utl::make_finally([this, id] { done.push_back(id); });
      UTL_FINALLY(([this, id] { done.push_back(id + 1); }))
      auto const r = utl::make_raii(id + 2, [this](int const x) { done.push_back(x); });
      if (depth < 4 && c.flip()) {
        auto const deeper = Inner{c, done, want, depth + 1};
        if (kind != 0) throw Thrown{};
      } else if (kind != 0) {
        throw Thrown{};
      }
    } catch (Thrown const&) {
      c.label("exception during unwinding");
    }
    for (auto const k : {2, 1, 0}) want.push_back(id + k);
    ok = ok && done == want;
  }
  static inline bool ok = true;
};
}  // namespace
PROP(unwinding, 1) {
  auto done = std::vector<int>{};
  auto want = std::vector<int>{};
  Inner::ok = true;
  try {
    auto const i = Inner{c, done, want, 0};
    if (c.flip()) throw Thrown{};
  } catch (Thrown const&) {
  }
  c.nontrivial();
  CHECK_EQ(done, want, "actions in order");
  CHECK(Inner::ok, "an action ran too late");
}

// a guard that is returned from a function or kept in a container
PROP(handed_over, 2) {
  auto count = std::vector<int>(8);
  auto const n = 1 + c.below(8);
  auto const stop = c.below(n + 1);
  c.note(n, " guards returned from a function, exception behind ", stop);
  c.nontrivial(n >= 2);
  auto const make = [&](std::size_t const i, bool const by_move) {
    auto g = utl::make_finally([&count, i] { ++count[i]; });
    if (by_move) {
      auto h = std::move(g);
      return h;
    }
    return g;
  };
  try {
    auto v = std::vector<decltype(make(0, false))>{};
    for (auto i = std::size_t{0}; i != n; ++i) {
      v.push_back(make(i, c.flip()));  // growth moves the guards
      for (auto const k : count) CHECK_EQ(k, 0, "an action ran early");
      if (i == stop) throw Thrown{};
    }
  } catch (Thrown const&) {
    c.label("left by an exception");
  }
  for (auto i = std::size_t{0}; i != count.size(); ++i) CHECK_EQ(count[i], i < n && i <= stop ? 1 : 0, "runs of action ", i);
}
