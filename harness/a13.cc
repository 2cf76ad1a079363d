// A13: match calls the first handler for the object's class, overloaded the
// handler for the alternative.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/match.h"
#include "utl/overloaded.h"

using namespace pbt;

namespace {
struct Base { virtual ~Base() = default; int id = 0; };
struct A : Base {};
struct B : Base {};
struct C : A {};
struct Other { virtual ~Other() = default; };
struct D : B, Other {};
constexpr auto kTypes = 5;
std::unique_ptr<Base> make(int const t) {
  switch (t) {
    case 0: return std::make_unique<Base>();
    case 1: return std::make_unique<A>();
    case 2: return std::make_unique<B>();
    case 3: return std::make_unique<C>();
    default: return std::make_unique<D>();
  }
}
// is an object of class t also one of class h?  (h == 5: Other)
bool is_a(int const t, int const h) {
  switch (h) {
    case 0: return true;
    case 1: return t == 1 || t == 3;
    case 2: return t == 2 || t == 4;
    case 3: return t == 3;
    case 4: return t == 4;
    default: return t == 4;
  }
}
template <int H>
struct Class { using type = Base; };
template <> struct Class<1> { using type = A; };
template <> struct Class<2> { using type = B; };
template <> struct Class<3> { using type = C; };
template <> struct Class<4> { using type = D; };
template <> struct Class<5> { using type = Other; };

struct Calls { std::vector<std::pair<int, int>> v; void const* obj = nullptr; };
template <int H>
auto handler(Calls& calls, int const pos) {
  return [&calls, pos](typename Class<H>::type* p) -> int {
    calls.v.emplace_back(pos, H);
    calls.obj = dynamic_cast<void*>(p);
    return pos * 10 + H;
  };
}
// every list of one to three handlers
template <int... H>
int run(Base* p, Calls& calls) {
  auto pos = 0;
  return [&]<std::size_t... I>(std::index_sequence<I...>) { (void)pos; return utl::match(p, handler<H>(calls, static_cast<int>(I))...); }(std::make_index_sequence<sizeof...(H)>{});
}
using Run = int (*)(Base*, Calls&);
template <int I>
constexpr Run one() { return &run<I>; }
template <int I>
constexpr Run two() { return &run<I / 6, I % 6>; }
template <int I>
constexpr Run three() { return &run<I / 36, I / 6 % 6, I % 6>; }
auto const ones = []<std::size_t... I>(std::index_sequence<I...>) { return std::array<Run, sizeof...(I)>{one<I>()...}; }(std::make_index_sequence<6>{});
auto const twos = []<std::size_t... I>(std::index_sequence<I...>) { return std::array<Run, sizeof...(I)>{two<I>()...}; }(std::make_index_sequence<36>{});
auto const threes = []<std::size_t... I>(std::index_sequence<I...>) { return std::array<Run, sizeof...(I)>{three<I>()...}; }(std::make_index_sequence<216>{});
}  // namespace

PROP(first_matching_handler, 4) {
  auto const t = c.range(0, kTypes - 1);
  auto const n = c.range(1, 3);
  auto h = std::vector<int>{};
  for (auto i = 0; i != n; ++i) h.push_back(c.range(0, 5));
  c.note("object of class ", t, ", handlers ", str(h));
  c.nontrivial(n >= 2);
  auto const obj = make(t);
  auto e = -1;
  for (auto i = 0; i != n && e == -1; ++i) if (is_a(t, h[static_cast<std::size_t>(i)])) e = i;
  c.label_if(e == -1, "no handler");
  auto calls = Calls{};
  auto const run = n == 1 ? ones[static_cast<std::size_t>(h[0])] : n == 2 ? twos[static_cast<std::size_t>(h[0] * 6 + h[1])] : threes[static_cast<std::size_t>(h[0] * 36 + h[1] * 6 + h[2])];
  auto result = -1;
  auto thrown = false;
  try {
    result = run(obj.get(), calls);
  } catch (std::exception const&) {
    thrown = true;
  }
  CHECK_EQ(thrown, e == -1);
  if (e == -1) {
    CHECK(calls.v.empty(), "a handler for another class was called");
  } else {
    auto const k = h[static_cast<std::size_t>(e)];
    CHECK_EQ(calls.v, (std::vector<std::pair<int, int>>{{e, k}}));
    CHECK_EQ(result, e * 10 + k);
    CHECK(calls.obj == dynamic_cast<void*>(obj.get()), "another object");
  }
}

// what a handler throws reaches the caller, and no other handler is asked
PROP(throwing_handlers, 2) {
  auto const t = c.range(0, kTypes - 1);
  auto const throws = c.range(0, 2), what = c.range(0, 4);
  auto const obj = make(t);
  auto const e = t == 1 || t == 3 ? 0 : t == 2 || t == 4 ? 1 : 2;
  c.note("object of class ", t, ", handler ", throws, " throws ", what);
  c.nontrivial(e == throws);
  auto calls = std::vector<int>{};
  auto const h = [&](int const i) {
    calls.push_back(i);
    if (i == throws) {
      switch (what) {
        case 0: throw std::bad_cast{};
        case 1: throw std::runtime_error{"x"};
        case 2: throw i;
        case 3: { Base b; (void)dynamic_cast<A&>(b); break; }
        default: throw std::out_of_range{"y"};
      }
    }
    return i;
  };
  auto caught = -1, result = -1;
  try {
    result = utl::match(obj.get(), [&](A*) { return h(0); }, [&](B*) { return h(1); }, [&](Base*) { return h(2); });
  } catch (std::bad_cast const&) {
    caught = 0;
  } catch (std::out_of_range const&) {
    caught = 4;
  } catch (std::runtime_error const&) {
    caught = 1;
  } catch (int const) {
    caught = 2;
  }
  CHECK_EQ(calls, std::vector<int>{e});
  CHECK_EQ(caught, e == throws ? (what == 3 ? 0 : what) : -1);
  CHECK_EQ(result, e == throws ? -1 : e);
}

PROP(alternatives, 3) {
  using V = std::variant<int, std::string, double, std::vector<int>>;
  auto vs = std::vector<V>(c.more(20));
  auto e = std::string{};
  auto only = 0L;
  auto count = std::size_t{0};
  for (auto& v : vs) {
    switch (c.draw(3)) {
      case 0: { auto const x = c.range(-9, 9); v = x; e += "i" + std::to_string(x); only += x; ++count; break; }
      case 1: v = c.text(c.len(5), "xyz"); e += "s" + std::get<std::string>(v); break;
      case 2: v = 0.5 * c.range(0, 9); e += "d"; break;
      default: v = std::vector<int>(c.below(5)); e += "v" + std::to_string(std::get<3>(v).size()); break;
    }
  }
  c.note("expected ", e);
  c.nontrivial(vs.size() >= 2);
  auto got = std::string{};
  auto sum = 0L;
  auto calls = std::size_t{0};
  for (auto const& v : vs) {
    std::visit(utl::overloaded{[&](int const& x) { got += "i" + std::to_string(x); }, [&](std::string const& s) { got += "s" + s; },
                               [&](double const&) { got += "d"; }, [&](std::vector<int> const& x) { got += "v" + std::to_string(x.size()); }},
               v);
    // alternatives without a handler are ignored
    std::visit(utl::overloaded{[&](int const& x) { sum += x; ++calls; }}, v);
  }
  CHECK_EQ(got, e);
  CHECK_EQ(sum, only, "only the numbers");
  CHECK_EQ(calls, count);
}

// no object, constant objects, handlers that are objects with a state
PROP(other_ways_to_match, 2) {
  auto const t = c.range(0, kTypes - 1);
  auto const kind = c.draw(5);
  c.note("object of class ", t, ", kind ", kind);
  c.nontrivial(kind != 0);
  auto const obj = make(t);
  auto const e = t == 1 || t == 3 ? 1 : t == 2 || t == 4 ? 2 : 0;
  auto calls = std::vector<int>{};
  switch (kind) {
    case 0: {  // a null pointer is no object of any class
      Base* const none = nullptr;
      auto thrown = false;
      try {
        switch (c.draw(2)) {
          case 0: utl::match(none, [&](Base*) { calls.push_back(0); }); break;
          case 1: utl::match(none, [&](A*) { calls.push_back(1); }, [&](Base*) { calls.push_back(0); }); break;
          default: utl::match(none, [&](A*) { calls.push_back(1); }, [&](B*) { calls.push_back(2); }, [&](Base*) { calls.push_back(0); }); break;
        }
      } catch (std::exception const&) {
        thrown = true;
      }
      CHECK(thrown, "a null pointer was accepted");
      CHECK(calls.empty(), "a handler was called without object");
      break;
    }
    case 1: {
      Base const* const p = obj.get();
      utl::match(p, [&](A const* x) { CHECK(static_cast<Base const*>(x) == p); calls.push_back(1); }, [&](B const* x) { CHECK(static_cast<Base const*>(x) == p); calls.push_back(2); },
                 [&](Base const* x) { CHECK(x == p); calls.push_back(0); });
      CHECK_EQ(calls, std::vector<int>{e}, "constant objects");
      break;
    }
    case 2: {  // a handler changes the object, and it changes itself
      auto a = [&, n = 0](A* x) mutable { x->id += 10; return ++n; };
      auto b = [&, n = 0](B* x) mutable { x->id += 20; return ++n; };
      auto z = [&, n = 0](Base* x) mutable { x->id += 30; return ++n; };
      auto const times = c.range(1, 4);
      for (auto i = 1; i <= times; ++i) CHECK_EQ(utl::match(obj.get(), a, b, z), i, "calls of the same handler");
      CHECK_EQ(obj->id, times * (e == 1 ? 10 : e == 2 ? 20 : 30), "changes of the object");
      break;
    }
    case 3: {  // results that are no numbers
      auto const r = utl::match(obj.get(), [](A*) { return std::make_unique<std::string>("a"); }, [](B*) { return std::make_unique<std::string>("b"); },
                                [](Base*) { return std::make_unique<std::string>("base"); });
      CHECK_EQ(*r, std::string{e == 1 ? "a" : e == 2 ? "b" : "base"}, "result");
      break;
    }
    case 4: {  // every object of a list finds its own handler
      auto list = std::vector<std::unique_ptr<Base>>{};
      auto want = std::vector<int>{};
      for (auto i = c.more(12); i != 0; --i) {
        auto const k = c.range(0, kTypes - 1);
        list.push_back(make(k));
        want.push_back(k == 1 || k == 3 ? 1 : k == 2 || k == 4 ? 2 : 0);
      }
      for (auto const& o : list) utl::match(o.get(), [&](A*) { calls.push_back(1); }, [&](B*) { calls.push_back(2); }, [&](Base*) { calls.push_back(0); });
      CHECK_EQ(calls, want, "handlers");
      break;
    }
    default: {  // another base of the object, from its side
      auto d = D{};
      Other* const o = &d;
      auto const r = utl::match(o, [](A*) { return 1; }, [](B*) { return 2; }, [](Other*) { return 3; });
      CHECK_EQ(r, 2, "a class beside the pointer's own");
      auto plain = Other{};
      CHECK_EQ(utl::match(&plain, [](A*) { return 1; }, [](Other*) { return 3; }), 3);
      break;
    }
  }
}

// an overloaded object keeps the state of its handlers and passes results on
PROP(overloaded_objects, 1) {
  using V = std::variant<int, std::string, long>;
  auto vs = std::vector<V>(c.more(20));
  auto ints = 0L, longs = 0L;
  auto text = std::string{};
  for (auto& v : vs) {
    switch (c.draw(2)) {
      case 0: { auto const x = c.range(-9, 9); v = x; ints += x; break; }
      case 1: { v = c.text(c.len(5), "xyz"); text += std::get<std::string>(v); break; }
      default: { auto const x = static_cast<long>(c.range(100, 900)); v = x; longs += x; break; }
    }
  }
  c.note(vs.size(), " values");
  c.nontrivial(vs.size() >= 2);
  auto i = 0L, l = 0L;
  auto s = std::string{};
  auto f = utl::overloaded{[&](int const x) { i += x; return 1; }, [&](std::string const& x) { s += x; return 2; }, [&](long const x) { l += x; return 3; }};
  for (auto const& v : vs) {
    auto const r = std::visit([&](auto const& x) { return f(x); }, v);
    CHECK_EQ(r, v.index() == 0 ? 1 : v.index() == 1 ? 2 : 3, "result");
  }
  CHECK_EQ(i, ints, "int");
  CHECK_EQ(l, longs, "long");
  CHECK_EQ(s, text, "string");
  // by value, by reference and moved values
  auto moved = std::vector<std::string>{};
  auto const other = utl::overloaded{[&](std::string&& x) { moved.push_back(std::move(x)); }, [](int&) {}};
  for (auto& v : vs) if (auto* const x = std::get_if<std::string>(&v)) other(std::move(*x));
  CHECK_EQ(std::accumulate(moved.begin(), moved.end(), std::string{}), text, "moved strings");
}
