// S03: generators.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/generator.h"

using namespace pbt;

namespace {
struct Boom {
  int id;
};

// what a coroutine does: the values it yields, then whether it ends by an exception
struct Script {
  std::vector<int> values;
  bool throws = false;
};

// what happened to one coroutine
struct Frame {
  int reached = 0;  // resumed this many times
  int alive = 0;
};
// counts the local variables of coroutines
struct Local {
  explicit Local(Frame& f) : f_{&f} { ++f_->alive; }
  Local(Local const&) = delete;
  Local& operator=(Local const&) = delete;
  ~Local() { --f_->alive; }
  Frame* f_;
};

template <typename T>
T make(int const v) {
  if constexpr (std::is_same_v<T, std::string>) return "value number " + std::to_string(v);
  else if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return std::make_unique<int>(v);
  else return static_cast<T>(v);
}
template <typename T>
int number(T const& t) {
  if constexpr (std::is_same_v<T, std::string>) {
    CHECK(t.starts_with("value number "), "not a yielded value: ", quote(t));
    return std::stoi(t.substr(13));
  } else if constexpr (std::is_same_v<T, std::unique_ptr<int>>) {
    CHECK(t != nullptr, "an empty pointer was delivered");
    return *t;
  } else {
    return static_cast<int>(t);
  }
}

template <typename T>
utl::generator<T> run(Script const& s, Frame& f, int const id) {
  auto const local = Local{f};
  auto const text = std::make_unique<std::string>("a local variable of the coroutine");
  for (auto i = std::size_t{0}; i != s.values.size(); ++i) {
    ++f.reached;
    if constexpr (!std::is_same_v<T, std::unique_ptr<int>>) {
      if (i % 2 == 1) {  // yields a named object, which keeps its value
        auto v = make<T>(s.values[i]);
        co_yield v;
        if (v != make<T>(s.values[i])) throw std::logic_error{"the yielded variable changed"};
        continue;
      }
    }
    co_yield make<T>(s.values[i]);
  }
  ++f.reached;
  if (text->size() != 33) throw std::logic_error{"a local variable changed"};
  if (s.throws) throw Boom{id};
}

// one generator, as it must be
struct Model {
  int id = -1;
  std::size_t pos = 0;  // values taken
  bool peeked = false;  // the next value has been asked for
  bool ended = false;
  bool usable = true;
};

template <typename T>
void history(Case& c) {
  constexpr auto const kGens = 3U;
  auto scripts = std::deque<Script>{};
  auto frames = std::deque<Frame>{};
  auto expected = std::deque<int>{};  // resumptions
  auto ops = 0, taken = 0;
  {
    auto g = std::array<std::optional<utl::generator<T>>, kGens>{};
    auto m = std::array<Model, kGens>{};
    auto const n = 2 + c.more(40);
    for (auto i = std::size_t{0}; i != n; ++i) {
      auto const a = c.below(kGens), b = c.below(kGens);
      auto& x = m[a];
      auto const usable = g[a] && x.usable;
      auto const op = c.draw(9);
      ++ops;
      auto what = std::string{};
      auto const say = [&](auto const&... p) {
        what = cat(p...);
        c.note(what);
      };
      // the coroutine is asked for its next value: what happens?
      auto const& s = usable ? scripts[static_cast<std::size_t>(x.id)] : Script{};
      auto const at_end = usable && x.pos == s.values.size();
      switch (op) {
        case 0:
        case 1: {
          if (g[a]) break;
          auto sc = Script{};
          for (auto k = c.more(8); k != 0; --k) sc.values.push_back(static_cast<int>(c.below(100)));
          sc.throws = c.chance(1, 4);
          scripts.push_back(sc);
          frames.emplace_back();
          expected.push_back(0);
          auto const id = static_cast<int>(scripts.size() - 1);
          say("g", a, " = generator ", id, " of ", str(sc.values), sc.throws ? " then throw" : "");
          g[a].emplace(run<T>(scripts.back(), frames.back(), id));
          x = Model{id};
          c.label_if(sc.values.empty(), "empty generator");
          c.label_if(sc.throws, "generator that throws");
          break;
        }
        case 2:
        case 3: {  // is there another value
          if (!usable) break;
          say("bool(g", a, ")");
          auto have = false, threw = false;
          try {
            have = static_cast<bool>(*g[a]);
          } catch (Boom const& e) {
            threw = true;
            CHECK_EQ(e.id, x.id, "exception of another coroutine");
          }
          if (!x.ended && !x.peeked) {
            ++expected[static_cast<std::size_t>(x.id)];
            if (at_end) x.ended = true;
            else x.peeked = true;
            CHECK_EQ(threw, at_end && s.throws, "the coroutine's exception, ", what);
          } else {
            CHECK(!threw, "an exception for the second time, ", what);
          }
          CHECK_EQ(have, !x.ended, what);
          break;
        }
        case 4:
        case 5:
        case 6: {  // the next value
          if (!usable || x.ended || (at_end && !s.throws)) break;
          say("g", a, "()");
          auto threw = false;
          auto value = T{};
          try {
            value = (*g[a])();
          } catch (Boom const& e) {
            threw = true;
            CHECK_EQ(e.id, x.id, "exception of another coroutine");
          }
          if (!x.peeked) ++expected[static_cast<std::size_t>(x.id)];
          CHECK_EQ(threw, at_end, "the coroutine's exception, ", what);
          if (threw) {
            x.ended = true;
            break;
          }
          CHECK_EQ(number(value), s.values[x.pos], what, " value ", x.pos);
          ++x.pos;
          x.peeked = false;
          ++taken;
          break;
        }
        case 7: {  // all the rest
          if (!usable || !c.chance(1, 3)) break;
          say("g", a, ".to_vec()");
          auto threw = false;
          auto v = std::vector<T>{};
          try {
            v = g[a]->to_vec();
          } catch (Boom const&) {
            threw = true;
          }
          auto const throws = !x.ended && s.throws;
          CHECK_EQ(threw, throws, "the coroutine's exception, ", what);
          if (!threw) {
            auto have = std::vector<int>{};
            for (auto const& y : v) have.push_back(number(y));
            auto const want = std::vector<int>(s.values.begin() + static_cast<std::ptrdiff_t>(x.ended ? s.values.size() : x.pos), s.values.end());
            CHECK_EQ(have, want, what);
          }
          if (!x.ended) expected[static_cast<std::size_t>(x.id)] = static_cast<int>(s.values.size()) + 1;
          x.pos = s.values.size();
          x.ended = true;
          x.peeked = false;
          c.label("to_vec");
          break;
        }
        case 8: {  // moved
          if (!g[b] || !m[b].usable || a == b) break;
          if (g[a]) {
            say("g", a, " = move(g", b, ")");
            *g[a] = std::move(*g[b]);
            c.label("move assignment");
          } else {
            say("g", a, " constructed from g", b);
            g[a].emplace(std::move(*g[b]));
            c.label("move construction");
          }
          c.label_if(m[b].peeked, "moved with a value in it");
          m[a] = m[b];
          m[b].usable = false;
          break;
        }
        default:
          if (!g[a]) break;
          say("~g", a);
          c.label_if(usable && !x.ended && x.pos != 0, "dropped half way");
          c.label_if(usable && !x.ended && x.pos == 0 && !x.peeked, "dropped before the start");
          g[a].reset();
          break;
      }
      for (auto k = std::size_t{0}; k != frames.size(); ++k) {
        CHECK_EQ(frames[k].reached, expected[k], "resumptions of coroutine ", k, ", ", what);
        CHECK(frames[k].alive == 0 || frames[k].alive == 1, "locals of coroutine ", k, ": ", frames[k].alive, ", ", what);
      }
      for (auto k = std::size_t{0}; k != kGens; ++k) {
        if (!g[k] || !m[k].usable || m[k].ended) continue;
        auto const id = static_cast<std::size_t>(m[k].id);
        CHECK_EQ(frames[id].alive, expected[id] == 0 ? 0 : 1, "the locals of coroutine ", id, ", ", what);
      }
    }
  }
  for (auto k = std::size_t{0}; k != frames.size(); ++k) CHECK_EQ(frames[k].alive, 0, "locals of coroutine ", k, " left");
  c.nontrivial(ops >= 3 && taken >= 2);
}

// a tree, walked by a coroutine that asks coroutines
struct Node {
  int value;
  std::unique_ptr<Node> left, right;
};
utl::generator<int> walk(Node const* n, int& open) {
  ++open;
  struct Close {
    ~Close() { --*o; }
    int* o;
  } const close{&open};
  if (n == nullptr) co_return;
  auto l = walk(n->left.get(), open);
  while (l) co_yield l();
  co_yield n->value;
  for (auto r = walk(n->right.get(), open); r;) co_yield r();
}
std::unique_ptr<Node> tree(Case& c, std::vector<int>& order, int const depth) {
  if (depth == 0 || c.chance(1, 3)) return nullptr;
  auto n = std::make_unique<Node>();
  n->left = tree(c, order, depth - 1);
  n->value = static_cast<int>(c.below(1000));
  order.push_back(n->value);
  n->right = tree(c, order, depth - 1);
  return n;
}
}  // namespace

PROP(histories, 8) {
  switch (c.draw(3)) {
    case 0: return history<int>(c);
    case 1: return history<std::string>(c);
    case 2: return history<std::unique_ptr<int>>(c);
    default: return history<double>(c);
  }
}

PROP(recursive, 2) {
  auto order = std::vector<int>{};
  auto const t = tree(c, order, static_cast<int>(1 + c.below(7)));
  auto const stop = c.chance(1, 3) ? c.below(order.size() + 1) : order.size();
  c.note("tree of ", order.size(), " nodes, dropped behind ", stop);
  c.nontrivial(order.size() >= 2);
  auto open = 0;
  {
    auto g = walk(t.get(), open);
    auto have = std::vector<int>{};
    while (have.size() < stop && g) have.push_back(g());
    CHECK_EQ(have, std::vector<int>(order.begin(), order.begin() + static_cast<std::ptrdiff_t>(stop)), "nodes in order");
    if (stop == order.size()) CHECK(!g, "more nodes");
  }
  CHECK_EQ(open, 0, "coroutines left open");
}

// an endless generator gives as many values as are taken
PROP(endless, 1) {
  auto const n = c.below(200);
  auto const start = c.any_int<unsigned>(), inc = c.any_int<unsigned>();
  auto produced = std::size_t{0};
  auto const count = [](unsigned x, unsigned const d, std::size_t& k) -> utl::generator<unsigned> {
    for (;; x += d) { ++k; co_yield x; }
  };
  auto g = count(start, inc, produced);
  CHECK_EQ(produced, 0U, "ran before the first value was asked for");
  for (auto i = std::size_t{0}; i != n; ++i) {
    if (c.flip()) CHECK(static_cast<bool>(g));
    CHECK_EQ(g(), start + static_cast<unsigned>(i) * inc, "value ", i);
    CHECK_EQ(produced, i + 1, "ran ahead");
  }
  c.nontrivial(n >= 2);
}
