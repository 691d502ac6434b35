// C30 standard algorithms, C31 running out of memory, C32 cost of sharing and growing
#include "arrworld.h"
#include "placed.h"
#include "Stream.h"
#include <numeric>
#include <fcntl.h>
#include <unistd.h>
#include <functional>
#include <stdexcept>
#include <map>
#include <set>
#include <sstream>
#include <forward_list>
#include <list>
#include <deque>

// ---- C30: iterators under standard algorithms ----------------------------------
// C: the container, M: the model (std::string or std::vector), E: conversion of an element
template <class C> struct Io;
template <> struct Io<BS> {
  typedef SS V; typedef char T;
  static V list(Src& g) { return g.bytesOver2("abcdeAB\0\x80\xff", g.draw(3) ? 12 : 60, 1500); }
  static BS make(Src& g, const V& m) { if (g.draw(3) == 0) { BS t("<" + m + ">"); return t.substring(1, (ssize_t)m.size()); } return BS(m); }
  static V get(const BS& s) { return val(s); }
  static char el(Src& g) { return "abcdeAB\0\x80\xff"[g.draw(10)]; }
  static char conv(const char& c) { return c; }
  static char real(const char& c) { return c; }
  static char next(char c) { return (char)(c + 1); }
  static bool odd(char c) { return c & 1; }
  static SS show(const V& v) { return q(v); }
};
template <> struct Io<bd::Array<int>> {
  typedef std::vector<int> V; typedef int T;
  static V list(Src& g) { V v; size_t n = g.len2(g.draw(3) ? 10 : 40, 1100); for (size_t i = 0; i < n; ++i) v.push_back(i < 100 ? (int)g.draw(9) - 3 : v[i - 61] + 1); return v; }
  static bd::Array<int> make(Src& g, const V& m) { bd::Array<int> a; if (g.draw(3) == 0) { a << 77; for (int x : m) a << x; a << 78; return a.subarray(1, (ssize_t)m.size()); } for (int x : m) a << x; return a; }
  static V get(const bd::Array<int>& a) { V v; for (size_t i = 0; i < a.length(); ++i) v.push_back(a[i]); return v; }
  static int el(Src& g) { return (int)g.draw(9) - 3; }
  static int conv(const int& c) { return c; }
  static int real(const int& c) { return c; }
  static int next(int c) { return c + 1; }
  static bool odd(int c) { return c & 1; }
  static SS show(const V& v) { SS s; for (int x : v) s += std::to_string(x) + " "; return "[" + s.substr(0, 200) + "]"; }
};
template <> struct Io<bd::Array<BS>> {
  typedef std::vector<SS> V; typedef SS T;
  static SS el(Src& g) { return g.bytesOver("abA", g.draw(4) ? 2 : 40); }
  static V list(Src& g) { V v; size_t n = g.len2(g.draw(3) ? 8 : 30, 300); for (size_t i = 0; i < n; ++i) v.push_back(i < 60 ? el(g) : v[i - 37] + "x"); return v; }
  static bd::Array<BS> make(Src& g, const V& m) { bd::Array<BS> a; if (g.draw(3) == 0) { a << BS("77"); for (auto& x : m) a << BS(x); a << BS("78"); return a.subarray(1, (ssize_t)m.size()); } for (auto& x : m) a << BS(x); return a; }
  static V get(const bd::Array<BS>& a) { V v; for (size_t i = 0; i < a.length(); ++i) v.push_back(val(a[i])); return v; }
  static SS conv(const BS& c) { return val(c); }
  static BS real(const SS& c) { return BS(c); }
  static SS next(const SS& c) { return c + "+"; }
  static bool odd(const SS& c) { return c.size() & 1; }
  static SS show(const V& v) { SS s; for (auto& x : v) s += q(x, 12) + " "; return "[" + s.substr(0, 200) + "]"; }
};
// A source that can be read once, like std::istream_iterator.
template <class E> struct Once {
  typedef std::input_iterator_tag iterator_category; typedef E value_type; typedef ptrdiff_t difference_type; typedef const E* pointer; typedef const E& reference;
  std::shared_ptr<std::pair<std::vector<E>, size_t>> src;   // null: the end
  struct Hold { E e; const E& operator*() const { return e; } };
  bool end() const { return !src || src->second == src->first.size(); }
  const E& operator*() const { return src->first[src->second]; }
  Once& operator++() { ++src->second; return *this; }
  Hold operator++(int) { Hold h{**this}; ++src->second; return h; }
  bool operator==(const Once& o) const { return end() == o.end(); }
  bool operator!=(const Once& o) const { return end() != o.end(); }
};
template <class C> static void c30(Src& g) {
  typedef Io<C> I;
  typedef typename I::V V;
  typedef typename I::T T;
  typedef typename C::value_type E;
  V m = I::list(g);
  C c(I::make(g, m));
  std::vector<std::pair<C, V>> keep;   // copies that must not change
  auto odd = [](const E& e) { return I::odd(I::conv(e)); };
  auto oddM = [](const T& e) { return I::odd(e); };
  auto same = [&](const char* what) {
    V r = I::get(c);
    REQUIRE(r == m, "%s gives %s, expected %s", what, I::show(r).c_str(), I::show(m).c_str());
    for (auto& k : keep) { V x = I::get(k.first); REQUIRE(x == k.second, "%s changed a copy to %s, it was %s", what, I::show(x).c_str(), I::show(k.second).c_str()); }
  };
  g.note("start with %s", I::show(m).c_str());
  unsigned n = 0, wrote = 0;
  do {
    if (g.draw(2) == 0 && keep.size() < 3) {
      if (g.draw(2)) { g.note("keep a copy"); keep.emplace_back(c, m); }
      else { size_t a = g.draw(m.size() + 1), b = g.draw(m.size() - a + 1); g.note("keep a window %zu+%zu", a, b); C w(c(a, b)); keep.emplace_back(w, V(m.begin() + a, m.begin() + a + b)); }
    }
    size_t L = m.size(), a = g.draw(L + 1), b = a + g.draw(L - a + 1);
    const C& cc = c;
    bool sh = c.isShared() && L;
    switch (g.draw(28)) {
      case 0: g.note("sort [%zu,%zu)", a, b); std::sort(c.begin() + a, c.begin() + b, [](const E& x, const E& y) { return I::conv(x) < I::conv(y); }); std::sort(m.begin() + a, m.begin() + b, [](const T& x, const T& y) { return x < y; }); same("std::sort"); wrote += sh; break;
      case 1: g.note("stable_sort"); std::stable_sort(c.begin(), c.end(), [&](const E& x, const E& y) { return odd(x) < odd(y); }); std::stable_sort(m.begin(), m.end(), [&](const T& x, const T& y) { return oddM(x) < oddM(y); }); same("std::stable_sort"); wrote += sh; break;
      case 2: g.note("reverse [%zu,%zu)", a, b); std::reverse(c.begin() + a, c.begin() + b); std::reverse(m.begin() + a, m.begin() + b); same("std::reverse"); wrote += sh; break;
      case 3: { size_t k = a + g.draw(b - a + 1); g.note("rotate [%zu,%zu,%zu)", a, k, b); auto i0 = c.begin(); auto it = std::rotate(i0 + a, i0 + k, i0 + b); auto im = std::rotate(m.begin() + a, m.begin() + k, m.begin() + b); REQUIRE(it - i0 == im - m.begin(), "rotate returned a wrong position"); same("std::rotate"); wrote += sh; break; }
      case 4: { g.note("unique + resize"); auto it = std::unique(c.begin(), c.end()); size_t k = it - c.begin(); c.resize(k); m.erase(std::unique(m.begin(), m.end()), m.end()); same("std::unique"); wrote += sh; break; }
      case 5: { g.note("remove_if + resize"); auto it = std::remove_if(c.begin(), c.end(), odd); c.resize(it - c.begin()); m.erase(std::remove_if(m.begin(), m.end(), oddM), m.end()); same("std::remove_if"); wrote += sh; break; }
      case 6: g.note("transform"); std::transform(c.begin(), c.end(), c.begin(), [](const E& e) { return I::real(I::next(I::conv(e))); }); std::transform(m.begin(), m.end(), m.begin(), [](const T& e) { return I::next(e); }); same("std::transform"); wrote += sh; break;
      case 7: { g.note("stable_partition"); std::stable_partition(c.begin(), c.end(), odd); std::stable_partition(m.begin(), m.end(), oddM); same("std::stable_partition"); wrote += sh; break; }
      case 8: { T e = I::el(g); g.note("fill [%zu,%zu)", a, b); std::fill(c.begin() + a, c.begin() + b, I::real(e)); std::fill(m.begin() + a, m.begin() + b, e); same("std::fill"); wrote += sh; break; }
      case 9: { T e = I::el(g), f = I::el(g); g.note("replace all"); std::replace(c.begin(), c.end(), E(I::real(e)), E(I::real(f))); std::replace(m.begin(), m.end(), e, f); same("std::replace"); wrote += sh; break; }
      case 10: { V x = I::list(g); if (m.size() + x.size() > 4000) break; g.note("back_inserter of %zu items", x.size()); std::transform(x.begin(), x.end(), std::back_inserter(c), [](const T& e) { return I::real(e); }); m.insert(m.end(), x.begin(), x.end()); same("std::back_inserter"); wrote += sh; break; }
      case 11: { V x = I::list(g); if (x.size() > 200 || m.size() > 4000) break; g.note("inserter at %zu of %zu items", a, x.size()); std::transform(x.begin(), x.end(), std::inserter(c, c.begin() + a), [](const T& e) { return I::real(e); }); m.insert(m.begin() + a, x.begin(), x.end()); same("std::inserter"); wrote += sh; break; }
      case 12: { g.note("copy out [%zu,%zu)", a, b); std::vector<E> o(cc.begin() + a, cc.begin() + b); REQUIRE(o.size() == b - a, "wrong size"); for (size_t i = 0; i < o.size(); ++i) REQUIRE(I::conv(o[i]) == m[a + i], "copied element %zu differs", i); break; }
      case 13: { g.note("find/count"); T e = I::el(g); E re(I::real(e)); REQUIRE(std::find(cc.begin(), cc.end(), re) - cc.begin() == std::find(m.begin(), m.end(), e) - m.begin(), "std::find differs"); REQUIRE(std::count(cc.begin(), cc.end(), re) == std::count(m.begin(), m.end(), e), "std::count differs"); REQUIRE(std::find_if(cc.rbegin(), cc.rend(), odd) - cc.rbegin() == std::find_if(m.rbegin(), m.rend(), oddM) - m.rbegin(), "reverse std::find_if differs"); break; }
      case 14: { g.note("search"); V x(m.begin() + a, m.begin() + b); C y(I::make(g, x)); const C& yc = y; REQUIRE(std::search(cc.begin(), cc.end(), yc.begin(), yc.end()) - cc.begin() == std::search(m.begin(), m.end(), x.begin(), x.end()) - m.begin(), "std::search differs"); break; }
      case 15: { g.note("range for"); V o; for (const auto& e : cc) o.push_back(I::conv(e)); REQUIRE(o == m, "range for shows %s", I::show(o).c_str()); V o2; for (auto& e : c) o2.push_back(I::conv(e)); REQUIRE(o2 == m, "mutable range for shows %s", I::show(o2).c_str()); break; }
      case 16: { g.note("range for writing"); for (auto& e : c) e = I::real(I::next(I::conv(e))); for (auto& e : m) e = I::next(e); same("writing through a range for"); wrote += sh; break; }
      case 17: { g.note("construct from [%zu,%zu) of itself", a, b); C y(cc.begin() + a, cc.begin() + b); V x = I::get(y); V w(m.begin() + a, m.begin() + b); REQUIRE(x == w, "constructed from a range: %s, expected %s", I::show(x).c_str(), I::show(w).c_str()); keep.emplace_back(y, w); if (keep.size() > 4) keep.erase(keep.begin()); break; }
      case 18: { V x = I::list(g); C y(I::make(g, x)); size_t k = std::min(x.size(), L); g.note("swap_ranges of %zu", k); C y2(y); std::swap_ranges(c.begin(), c.begin() + k, y.begin()); V x2 = x; std::swap_ranges(m.begin(), m.begin() + k, x.begin()); same("std::swap_ranges"); REQUIRE(I::get(y) == x, "the other range differs"); REQUIRE(I::get(y2) == x2, "swap_ranges changed a copy"); wrote += sh; break; }
      case 19: { g.note("copy_backward"); if (a == b) break; size_t room = L - b; size_t d = g.draw(room + 1); auto i0 = c.begin(); std::copy_backward(i0 + a, i0 + b, i0 + b + d); std::copy_backward(m.begin() + a, m.begin() + b, m.begin() + b + d); same("std::copy_backward"); wrote += sh; break; }
      case 20: { g.note("reverse iterators sort"); std::sort(c.rbegin(), c.rend(), [](const E& x, const E& y) { return I::conv(x) < I::conv(y); }); std::sort(m.rbegin(), m.rend(), [](const T& x, const T& y) { return x < y; }); same("std::sort over reverse iterators"); wrote += sh; break; }
      case 21: { g.note("next_permutation"); if (L > 1) { auto cmp = [](const E& x, const E& y) { return I::conv(x) < I::conv(y); }; bool r = std::next_permutation(c.begin(), c.end(), cmp); bool rm = std::next_permutation(m.begin(), m.end(), [](const T& x, const T& y) { return x < y; }); REQUIRE(r == rm, "next_permutation returned %d", r); same("std::next_permutation"); wrote += sh; } break; }
      case 22: { g.note("iterator arithmetic"); auto it = cc.begin(); REQUIRE(cc.end() - it == (ptrdiff_t)L && cc.cend() - cc.cbegin() == (ptrdiff_t)L && cc.crend() - cc.crbegin() == (ptrdiff_t)L, "distance wrong"); if (a < L) { REQUIRE(I::conv(it[a]) == m[a] && I::conv(*(cc.end() - (L - a))) == m[a] && I::conv(cc.rbegin()[L - 1 - a]) == m[a] && I::conv(c.begin()[a]) == m[a] && I::conv(*std::prev(c.end(), L - a)) == m[a] && I::conv(c.rbegin()[L - 1 - a]) == m[a], "element %zu differs through iterators", a); } break; }
      case 23: { g.note("merge into a new one"); V x = I::list(g), y = m; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); C p(I::make(g, x)), r(I::make(g, y)), o; const C &pc = p, &rc = r; std::merge(pc.begin(), pc.end(), rc.begin(), rc.end(), std::back_inserter(o), [](const E& u, const E& w) { return I::conv(u) < I::conv(w); }); V om; std::merge(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(om), [](const T& u, const T& w) { return u < w; }); V got = I::get(o); REQUIRE(got == om, "std::merge gives %s, expected %s", I::show(got).c_str(), I::show(om).c_str()); break; }
      case 24: { g.note("iter_swap / swap of elements"); if (L < 2) break; size_t x = g.draw(L), y = g.draw(L); auto i0 = c.begin(); if (g.draw(2)) std::iter_swap(i0 + x, i0 + y); else { using std::swap; swap(i0[x], i0[y]); } std::swap(m[x], m[y]); same("swapping two elements"); wrote += sh; break; }
      case 25: case 26: { // ranges of every iterator category
        V x = I::list(g);
        if (x.size() > 300 || m.size() > 4000) break;
        std::vector<E> xs; for (auto& e : x) xs.push_back(I::real(e));
        unsigned cat = (unsigned)g.draw(6);
        bool build = g.draw(3) == 0;
        static const char* N[] = {"single-pass", "forward_list", "list", "deque", "pointer", "move_iterator"};
        g.note("%s from a %s range of %zu", build ? "construct" : "insert", N[cat], xs.size());
        std::forward_list<E> fl(xs.begin(), xs.end()); std::list<E> li(xs.begin(), xs.end()); std::deque<E> dq(xs.begin(), xs.end());
        Once<E> o, oe; o.src = std::make_shared<std::pair<std::vector<E>, size_t>>(xs, 0);
        const E* pb = xs.data();
        if (build) {
          C y(cat == 0 ? C(o, oe) : cat == 1 ? C(fl.begin(), fl.end()) : cat == 2 ? C(li.cbegin(), li.cend()) : cat == 3 ? C(dq.rbegin(), dq.rend()) : cat == 4 ? C(pb, pb + xs.size()) : C(std::make_move_iterator(xs.begin()), std::make_move_iterator(xs.end())));
          if (cat == 3) std::reverse(x.begin(), x.end());
          V got = I::get(y);
          REQUIRE(got == x, "constructed from a %s range: %s, expected %s", N[cat], I::show(got).c_str(), I::show(x).c_str());
          keep.emplace_back(y, x); if (keep.size() > 4) keep.erase(keep.begin());
        } else {
          auto at = cc.cbegin() + a;
          typename C::iterator r;
          switch (cat) { case 0: r = c.insert(at, o, oe); break; case 1: r = c.insert(at, fl.begin(), fl.end()); break; case 2: r = c.insert(at, li.cbegin(), li.cend()); break; case 3: r = c.insert(at, dq.rbegin(), dq.rend()); break; case 4: r = c.insert(at, pb, pb + xs.size()); break; default: r = c.insert(at, std::make_move_iterator(xs.begin()), std::make_move_iterator(xs.end())); }
          if (cat == 3) std::reverse(x.begin(), x.end());
          m.insert(m.begin() + a, x.begin(), x.end());
          REQUIRE(r == c.begin() + a, "inserting a %s range returned a wrong position", N[cat]);
          same("inserting a range");
          wrote += sh;
        }
        break; }
      default: { g.note("generate"); size_t k = 0; T e = I::el(g); std::generate(c.begin() + a, c.begin() + b, [&] { return k++ & 1 ? I::real(e) : I::real(I::next(e)); }); k = 0; std::generate(m.begin() + a, m.begin() + b, [&] { return k++ & 1 ? e : I::next(e); }); same("std::generate"); wrote += sh; break; }
    }
    same("a read-only algorithm");
  } while (g.more(6) && ++n < 30);
  if (wrote) g.nontrivial();
}
PROPERTY("C30.string", "standard algorithms over Strings", c30<BS>, 1000000, 20000000, false, "chains of standard algorithms over iterators of Strings with copies and windows kept aside; non-trivial when one wrote through iterators of a String sharing its storage");
PROPERTY("C30.array-int", "standard algorithms over Array<int>", c30<bd::Array<int>>, 450000, 20000000, false, "as C30.string");
PROPERTY("C30.array-String", "standard algorithms over Array<String>", c30<bd::Array<BS>>, 200000, 10000000, false, "as C30.string");

// ---- C31: running out of memory -------------------------------------------------
// Runs f with a generated allocation failing; true when f completed.
struct Oom {
  Src& g;
  unsigned hits = 0;
  explicit Oom(Src& g_) : g(g_) {}
  template <class F> bool operator()(const char* what, F f) {
    long k = g.draw(3) ? (long)g.draw(3) : (long)g.draw(9);
    bool sticky = g.draw(2);
    g.note("  allocation %ld%s fails", k, sticky ? " and later" : "");
    pbt::mem::failSticky = sticky;
    pbt::mem::failed = 0;
    pbt::mem::failAfter = k;
    bool done = false;
    try { f(); done = true; }
    catch (const std::bad_alloc&) { }
    catch (const pbt::Fail&) { pbt::mem::failAfter = -1; throw; }
    catch (const std::exception& e) { pbt::mem::failAfter = -1; pbt::fail("%s threw %s instead of bad_alloc", what, e.what()); }
    pbt::mem::failAfter = -1;
    if (!done) { ++hits; REQUIRE(pbt::mem::failed, "%s reported bad_alloc although no allocation failed", what); }
    return done;
  }
};
// A value that an object may have after a failure: its old one or, when the operation replaces everything, none.
static void c31s(Src& g) {
  long b0 = pbt::mem::liveBlocks(), y0 = pbt::mem::liveBytes();
  unsigned hits = 0;
  {
    StrWorld w(g, g.draw(8) ? 100 : 3000);
    w.addNew();
    unsigned n = 0;
    while (g.more(14) && n++ < 60) {
      if (w.v.empty()) w.addNew();
      unsigned i = w.any(), j = w.any();
      switch (g.draw(5)) {  // some history without failures
        case 0: w.addCopy(i); break;
        case 1: w.addSub(i); break;
        case 2: w.window(i); break;
        case 3: if (g.draw(3) == 0) w.addNew(); break;
        default: break;
      }
      if (w.v.empty()) continue;
      i = w.any(); j = w.any();
      BS& s = w.S(i);
      SS& m = w.M(i);
      if (m.size() > 20000) { s.clear(); m.clear(); }
      SS t = w.text(), tn = t;
      for (auto& c : tn) if (!c) c = '0';
      BS ts(t), tj(w.S(j));
      const SS mj = w.M(j);
      size_t pos = w.posFor(m.size()), p = m.empty() ? 0 : g.draw(m.size());
      char c = (char)g.draw(256);
      SS want = m;
      bool whole = false;  // the operation replaces everything
      Oom oom(g);
      bool r = true;
      BS made;
      SS madeWant;
      bool makes = false;
      switch (g.draw(29)) {
        case 28: { size_t k = g.len(600); g.note("#%u.resize(%zu)", i, k); r = oom("resize", [&] { s.resize(k); }); size_t L0 = m.size(); want.resize(k, 'r'); if (r) { REQUIRE(s.length() == k, "resize(%zu) gave length %zu", k, s.length()); for (size_t x = L0; x < k; ++x) s[x] = 'r'; } break; }
        case 0: g.note("#%u += char", i); r = oom("append", [&] { s += c; }); want += c; break;
        case 1: g.note("#%u += C string", i); r = oom("append", [&] { s += tn.c_str(); }); want += tn; break;
        case 2: g.note("#%u += #%u", i, j); r = oom("append", [&] { s += w.S(j); }); want += mj; break;
        case 3: g.note("#%u.insert(%zu, char)", i, pos); r = oom("insert", [&] { s.insert(pos, c); }); want.insert(pos, SS(1, c)); break;
        case 4: g.note("#%u.insert(%zu, C string)", i, pos); r = oom("insert", [&] { s.insert(pos, tn.c_str()); }); want.insert(pos, tn); break;
        case 5: g.note("#%u.insert(%zu, #%u)", i, pos, j); r = oom("insert", [&] { s.insert(pos, w.S(j)); }); want.insert(pos, mj); break;
        case 6: { size_t k = 1 + g.draw(t.size() + 2); g.note("#%u.insert(%zu, String, %zu)", i, pos, k); r = oom("insert", [&] { s.insert(pos, ts, k); }); want = ref::insert(m, pos, t, k); break; }
        case 7: g.note("#%u.replace(%zu, char)", i, pos); r = oom("replace", [&] { s.replace(pos, c); }); want = ref::replace(m, pos, SS(1, c)); break;
        case 8: g.note("#%u.replace(%zu, C string)", i, pos); r = oom("replace", [&] { s.replace(pos, tn.c_str()); }); want = ref::replace(m, pos, tn); break;
        case 9: g.note("#%u.replace(%zu, #%u)", i, pos, j); r = oom("replace", [&] { s.replace(pos, w.S(j)); }); want = ref::replace(m, pos, mj); break;
        case 10: { size_t k = g.len(600); g.note("#%u.resize(%zu, char)", i, k); r = oom("resize", [&] { s.resize(k, c); }); want.resize(k, c); break; }
        case 11: { size_t k = g.len(600); g.note("#%u.reserve(%zu)", i, k); r = oom("reserve", [&] { s.reserve(k); }); if (r) REQUIRE(s.capacity() >= k, "reserve(%zu) left capacity %zu", k, s.capacity()); break; }
        case 12: if (m.empty()) break; g.note("#%u[%zu] = char", i, p); r = oom("element write", [&] { s[p] = c; }); want[p] = c; break;
        case 13: if (m.empty()) break; g.note("*(#%u.begin() + %zu) = char", i, p); r = oom("begin", [&] { *(s.begin() + p) = c; }); want[p] = c; break;
        case 14: if (m.empty()) break; g.note("#%u.mdata()/front()/back()", i); r = oom("mdata", [&] { s.mdata()[p] = c; }); want[p] = c; break;
        case 15: g.note("#%u = C string", i); whole = true; r = oom("assignment", [&] { s = tn.c_str(); }); want = tn; break;
        case 16: g.note("#%u = std::string", i); whole = true; r = oom("assignment", [&] { s = t; }); want = t; break;
        case 17: g.note("#%u = initializer list", i); whole = true; r = oom("assignment", [&] { s = {'k', 'l', 'm'}; }); want = "klm"; break;
        case 18: g.note("#%u = #%u(...)", i, j); { ssize_t a = (ssize_t)g.draw(mj.size() + 1), l = (ssize_t)g.draw(mj.size() + 1); r = oom("substring assignment", [&] { s = w.S(j)(a, l); }); want = ref::substr(mj, a, l == -1 ? -1 : l); } break;
        case 19: g.note("#%u + #%u", i, j); makes = true; r = oom("concatenation", [&] { made = s + w.S(j); }); madeWant = m + mj; break;
        case 20: { int k = (int)g.draw(4); g.note("#%u * %d", i, k); makes = true; r = oom("repetition", [&] { made = s * k; }); for (int x = 0; x < k; ++x) madeWant += m; break; }
        case 21: g.note("String(C string)"); makes = true; r = oom("construction", [&] { made = BS(tn.c_str()); }); madeWant = tn; break;
        case 22: g.note("String(data, n)"); makes = true; r = oom("construction", [&] { made = BS(t.data(), t.size()); }); madeWant = t; break;
        case 23: { size_t k = g.len(200); g.note("String(%zu x char)", k); makes = true; r = oom("construction", [&] { made = BS(k, c); }); madeWant = SS(k, c); break; }
        case 24: { g.note("#%u split and join", i); BS sp(' '); if (m.size() > 300) break; bd::Array<BS> parts; r = oom("split", [&] { parts = s.split(sp); }); if (!r) break; r = oom("join", [&] { made = parts.join(sp); }); break; }
        case 25: { g.note("#%u.sub", i); if (m.empty()) break; BS a(SS(1, m[p])), b("xyz"); makes = true; r = oom("sub", [&] { made = s.sub(a, b); }); for (char x : m) if (x == m[p]) madeWant += "xyz"; else madeWant += x; break; }
        case 26: { g.note("dup/std::string/printf"); char* d = nullptr; oom("dup", [&] { d = s.dup(); }); delete[] d; BS o; bool ok = oom("printf", [&] { o = BS::printf("%s", tn.c_str()); }); expect(o, ok ? tn : SS(), "printf"); SS o2; ok = oom("std::string", [&] { o2 = s; }); if (ok) REQUIRE(o2 == m, "std::string conversion shows %s", q(o2).c_str()); hits += oom.hits; r = true; break; }
        default: g.note("#%u += #%u (temporary)", i, j); { BS tmp(tj); r = oom("append", [&] { s.append(std::move(tmp)); }); want += mj; }
      }
      if (makes) { expect(made, r ? madeWant : SS(), "the result"); want = m; }
      else if (!r) {
        SS now = val(s);
        if (whole && now.empty() && !m.empty()) { g.label("left-empty"); want = SS(); }
        else want = m;
      }
      if (!r) ++hits;
      m = want;
      w.verify(r ? "completed operation" : "operation without memory");
      expect(ts, t, "an argument"); expect(tj, mj, "an argument");
    }
    while (!w.v.empty()) { w.destroy(w.any()); w.verify("destruction"); }
  }
  BALANCE(pbt::mem::liveBlocks() == b0 && pbt::mem::liveBytes() == y0, "%ld blocks, %ld bytes still allocated at the end", pbt::mem::liveBlocks() - b0, pbt::mem::liveBytes() - y0);
  if (hits) g.nontrivial();
}
PROPERTY("C31.string", "Strings without memory", c31s, 150000, 20000000, false, "histories over a pool of Strings with generated allocations failing; non-trivial when at least one operation ran out of memory");

template <class T> static void c31a(Src& g) {
  typedef ArrWorld<T> W;
  typedef bd::Array<T> A;
  typedef typename W::M M;
  typedef typename W::VM VM;
  typedef El<T> E;
  g_err[0] = 0;
  long b0 = pbt::mem::liveBlocks(), y0 = pbt::mem::liveBytes(), live0 = g_live;
  unsigned hits = 0;
  {
    W w(g, g.draw(8) ? 20 : 100);
    w.addNew();
    unsigned n = 0;
    while (g.more(12) && n++ < 50) {
      if (w.v.empty()) w.addNew();
      switch (g.draw(5)) {
        case 0: w.addCopy(w.any()); break;
        case 1: w.addSub(w.any()); break;
        case 2: w.window(w.any()); break;
        case 3: if (g.draw(3) == 0) w.addNew(); break;
        default: break;
      }
      if (w.v.empty()) continue;
      unsigned i = w.any(), j = w.any();
      A& x = w.a(i);
      VM& m = w.m(i);
      if (m.size() > 1500) { x.clear(); m.clear(); }
      size_t L = m.size(), pos = g.draw(3) ? g.draw(L + 1) : L, p = L ? g.draw(L) : 0;
      M e = E::gen(g);
      T te(E::make(g, e));
      VM s = w.genList(6);
      A ts(w.fromList(s));
      std::vector<T> vv; for (auto& y : s) vv.push_back(E::make(g, y));
      const VM mj = w.m(j);
      VM want = m, madeWant;
      bool whole = false, makes = false, r = true, partial = false;
      A made;
      Oom oom(g);
      switch (g.draw(21)) {
        case 20: { size_t k = g.draw(3) ? L + g.draw(30) : g.draw(L + 1); g.note("#%u resize(%zu)", i, k); r = oom("resize", [&] { x.resize(k); }); if (k < want.size()) want.resize(k); else if (r) w.fillNew(x, L, k, want); break; }
        case 0: case 1: g.note("#%u push_back", i); { T t2(te); bool mv = g.draw(2); r = oom("push_back", [&] { if (mv) x.push_back(std::move(t2)); else x << te; }); } want.push_back(e); break;
        case 2: g.note("#%u push_front", i); r = oom("push_front", [&] { x.push_front(te); }); want.insert(want.begin(), e); break;
        case 3: g.note("#%u insert(%zu, item)", i, pos); r = oom("insert", [&] { x.insert(pos, te); }); want.insert(want.begin() + pos, e); break;
        case 4: g.note("#%u insert(iterator %zu, item)", i, pos); r = oom("insert", [&] { x.insert(x.cbegin() + pos, te); }); want.insert(want.begin() + pos, e); break;
        case 5: g.note("#%u insert(iterator %zu, %zu items)", i, pos, s.size()); r = oom("insert", [&] { x.insert(x.cbegin() + pos, vv.begin(), vv.end()); }); want.insert(want.begin() + pos, s.begin(), s.end()); break;
        case 6: g.note("#%u insert(%zu, #%u)", i, pos, j); r = oom("insert", [&] { x.insert(pos, w.a(j)); }); want.insert(want.begin() + pos, mj.begin(), mj.end()); break;
        case 7: g.note("#%u insert(%zu, temporary)", i, pos); { A t2(ts); r = oom("insert", [&] { x.insert(pos, std::move(t2)); }); } want.insert(want.begin() + pos, s.begin(), s.end()); break;
        case 8: g.note("#%u += #%u", i, j); r = oom("append", [&] { x += w.a(j); }); want.insert(want.end(), mj.begin(), mj.end()); break;
        case 9: g.note("#%u replace(%zu, item)", i, pos); r = oom("replace", [&] { x.replace(pos, te); }); if (pos == L) want.push_back(e); else want[pos] = e; break;
        case 10: g.note("#%u replace(%zu, %zu items)", i, pos, s.size()); r = oom("replace", [&] { x.replace(pos, ts); }); for (size_t k = 0; k < s.size(); ++k) { if (pos + k < want.size()) want[pos + k] = s[k]; else want.push_back(s[k]); } break;
        case 11: { size_t k = L + g.draw(30); g.note("#%u resize(%zu, item)", i, k); r = oom("resize", [&] { x.resize(k, te); }); want.resize(k, e); break; }
        case 12: if (!L) break; g.note("#%u[%zu] = item", i, p); r = oom("element write", [&] { x[p] = te; }); want[p] = e; break;
        case 13: if (!L) break; g.note("*(#%u.begin() + %zu) = item", i, p); r = oom("begin", [&] { *(x.begin() + p) = te; }); want[p] = e; break;
        case 14: { size_t k = g.len(200); g.note("#%u reserve(%zu)", i, k); r = oom("reserve", [&] { x.reserve(k); }); if (r) REQUIRE(x.capacity() >= k, "reserve(%zu) left capacity %zu", k, x.capacity()); break; }
        case 15: { g.note("#%u = initializer list", i); whole = true; std::initializer_list<T> il = {te, te}; r = oom("assignment", [&] { x = il; }); want.assign(2, e); break; }
        case 16: g.note("#%u + #%u", i, j); makes = true; r = oom("concatenation", [&] { made = x + w.a(j); }); madeWant = m; madeWant.insert(madeWant.end(), mj.begin(), mj.end()); break;
        case 17: { size_t k = g.draw(40); g.note("Array(%zu x item)", k); makes = true; r = oom("construction", [&] { made = A(k, te); }); madeWant.assign(k, e); break; }
        case 18: g.note("Array(iterators)"); makes = true; r = oom("construction", [&] { made = A(vv.begin(), vv.end()); }); madeWant = s; break;
        default: g.note("Array(items, n)"); makes = true; r = oom("construction", [&] { made = A(static_cast<const T*>(vv.data()), vv.size()); }); madeWant = s; break;
      }
      (void)partial;
      if (makes) { W::expectA(made, r ? madeWant : VM(), "the result"); want = m; }
      else if (!r) { if (whole && x.length() == 0 && L) { g.label("left-empty"); want.clear(); } else want = m; }
      if (!r) ++hits;
      m = want;
      w.verify(r ? "completed operation" : "operation without memory");
      W::expectA(ts, s, "an argument");
    }
    while (!w.v.empty()) { w.destroy(w.any()); w.verify("destruction"); }
  }
  REQUIRE(!g_err[0], "%s", g_err);
  BALANCE(g_live == live0, "%ld more elements were constructed than destroyed", g_live - live0);
  BALANCE(pbt::mem::liveBlocks() == b0 && pbt::mem::liveBytes() == y0, "%ld blocks, %ld bytes still allocated at the end", pbt::mem::liveBlocks() - b0, pbt::mem::liveBytes() - y0);
  if (hits) g.nontrivial();
}
PROPERTY("C31.array-int", "Array<int> without memory", c31a<int>, 100000, 10000000, false, "as C31.string, over Arrays");
PROPERTY("C31.array-Tracked", "Array of a class type without memory", c31a<Tracked>, 80000, 10000000, false, "as C31.string, over Arrays");
PROPERTY("C31.array-String", "Array<String> without memory", c31a<BS>, 60000, 8000000, false, "as C31.string, over Arrays");
PROPERTY("C31.array-nested", "Array<Array<String>> without memory", c31a<bd::Array<BS>>, 30000, 4000000, false, "as C31.string, over Arrays");

// ---- C33: elements that cannot be copied right now --------------------------------
// The k-th copy or default construction throws; moving never does (Thr), or is copying (ThrCopy).
static long g_throwAfter = -1;
static unsigned g_thrown = 0;
struct CopyError : std::runtime_error { CopyError() : std::runtime_error("copy") {} };
static void mayThrow() { if (g_throwAfter >= 0 && g_throwAfter-- == 0) { ++g_thrown; throw CopyError(); } }
struct Thr {
  Tracked t;
  Thr() : t((mayThrow(), 0)) {}
  Thr(int x) : t(x) {}
  Thr(const Thr& o) : t((mayThrow(), o.t)) {}
  Thr(Thr&& o) noexcept : t(std::move(o.t)) {}
  Thr& operator=(const Thr& o) { mayThrow(); t = o.t; return *this; }
  Thr& operator=(Thr&& o) noexcept { t = std::move(o.t); return *this; }
  bool operator==(const Thr& o) const { return t == o.t; }
  bool operator!=(const Thr& o) const { return !(t == o.t); }
};
struct ThrCopy {
  Tracked t;
  ThrCopy() : t((mayThrow(), 0)) {}
  ThrCopy(int x) : t(x) {}
  ThrCopy(const ThrCopy& o) : t((mayThrow(), o.t)) {}
  ThrCopy& operator=(const ThrCopy& o) { mayThrow(); t = o.t; return *this; }
  bool operator==(const ThrCopy& o) const { return t == o.t; }
  bool operator!=(const ThrCopy& o) const { return !(t == o.t); }
};
namespace std {
template <> struct hash<Thr> { size_t operator()(const Thr& x) const noexcept { return hash<Tracked>()(x.t); } };
template <> struct hash<ThrCopy> { size_t operator()(const ThrCopy& x) const noexcept { return hash<Tracked>()(x.t); } };
}
template <class T> struct ElThr {
  typedef int M;
  static M gen(Src& g) { return 1 + (int)g.draw(8); }
  static T make(Src&, const M& m) { return T(m); }
  static M get(const T& t) { t.t.ok("an element that is not alive is read"); return t.t.v; }
  static SS show(const M& m) { return std::to_string(m); }
};
template <> struct El<Thr> : ElThr<Thr> {};
template <> struct El<ThrCopy> : ElThr<ThrCopy> {};

template <class T> static void c33(Src& g) {
  typedef ArrWorld<T> W;
  typedef bd::Array<T> A;
  typedef typename W::M M;
  typedef typename W::VM VM;
  typedef El<T> E;
  const bool nothrowMove = std::is_nothrow_move_constructible<T>::value;
  g_err[0] = 0;
  g_throwAfter = -1;
  long b0 = pbt::mem::liveBlocks(), y0 = pbt::mem::liveBytes(), live0 = g_live;
  unsigned hits = 0;
  {
    W w(g, g.draw(8) ? 20 : 100);
    w.addNew();
    unsigned n = 0;
    while (g.more(12) && n++ < 50) {
      if (w.v.empty()) w.addNew();
      switch (g.draw(5)) {
        case 0: w.addCopy(w.any()); break;
        case 1: w.addSub(w.any()); break;
        case 2: w.window(w.any()); break;
        case 3: if (g.draw(3) == 0) w.addNew(); break;
        default: break;
      }
      if (w.v.empty()) continue;
      unsigned i = w.any(), j = w.any();
      A& x = w.a(i);
      VM& m = w.m(i);
      if (m.size() > 1500) { x.clear(); m.clear(); }
      size_t L = m.size(), pos = g.draw(3) ? g.draw(L + 1) : L, p = L ? g.draw(L) : 0;
      M e = E::gen(g);
      T te(E::make(g, e));
      VM s = w.genList(6);
      A ts(w.fromList(s));
      std::vector<T> vv; for (auto& y : s) vv.push_back(E::make(g, y));
      const VM mj = w.m(j);
      VM want = m, madeWant;
      // strong: the Array keeps its value; else it is only required to be usable
      bool strong = false, makes = false, r = true;
      A made;
      unsigned op = (unsigned)g.draw(25);
      unsigned thr0 = g_thrown;
      long k0 = g.draw(3) ? (long)g.draw(4) : (long)g.draw(2 * L + 12);
      auto run = [&](const char* what, std::function<void()> f) -> bool {
        g.note("  (%s) copy %ld throws", what, k0);
        g_throwAfter = k0;
        bool done = false;
        try { f(); done = true; }
        catch (const CopyError&) { }
        catch (const pbt::Fail&) { g_throwAfter = -1; throw; }
        catch (const std::exception& ex) { g_throwAfter = -1; pbt::fail("%s threw %s instead of the element's exception", what, ex.what()); }
        g_throwAfter = -1;
        REQUIRE(done == (g_thrown == thr0), "%s %s although copying an element %s", what, done ? "completed" : "failed", done ? "failed" : "did not fail");
        return done;
      };
      switch (op) {
        case 24: { size_t k = g.draw(3) ? L + g.draw(30) : g.draw(L + 1); g.note("#%u resize(%zu)", i, k); strong = nothrowMove; r = run("resize", [&] { x.resize(k); }); if (k < want.size()) want.resize(k); else if (r) w.fillNew(x, L, k, want); break; }
        case 0: case 1: { g.note("#%u push_back", i); T t2(te); bool mv = g.draw(2); strong = nothrowMove; r = run("push_back", [&] { if (mv) x.push_back(std::move(t2)); else x << te; }); want.push_back(e); break; }
        case 2: g.note("#%u push_front", i); strong = nothrowMove && !L; r = run("push_front", [&] { x.push_front(te); }); want.insert(want.begin(), e); break;
        case 3: g.note("#%u insert(%zu, item)", i, pos); strong = nothrowMove && pos == L; r = run("insert", [&] { x.insert(pos, te); }); want.insert(want.begin() + pos, e); break;
        case 4: g.note("#%u insert(iterator %zu, item)", i, pos); strong = nothrowMove && pos == L; r = run("insert", [&] { x.insert(x.cbegin() + pos, te); }); want.insert(want.begin() + pos, e); break;
        case 5: g.note("#%u insert(iterator %zu, %zu items)", i, pos, s.size()); r = run("insert", [&] { x.insert(x.cbegin() + pos, vv.begin(), vv.end()); }); want.insert(want.begin() + pos, s.begin(), s.end()); break;
        case 6: g.note("#%u insert(%zu, #%u)", i, pos, j); r = run("insert", [&] { x.insert(pos, w.a(j)); }); want.insert(want.begin() + pos, mj.begin(), mj.end()); break;
        case 7: { g.note("#%u insert(%zu, temporary)", i, pos); A t2(ts); r = run("insert", [&] { x.insert(pos, std::move(t2)); }); want.insert(want.begin() + pos, s.begin(), s.end()); break; }
        case 8: g.note("#%u += #%u", i, j); strong = nothrowMove; r = run("append", [&] { x += w.a(j); }); want.insert(want.end(), mj.begin(), mj.end()); break;
        case 9: g.note("#%u replace(%zu, item)", i, pos); strong = nothrowMove; r = run("replace", [&] { x.replace(pos, te); }); if (pos == L) want.push_back(e); else want[pos] = e; break;
        case 10: g.note("#%u replace(%zu, %zu items)", i, pos, s.size()); r = run("replace", [&] { x.replace(pos, ts); }); for (size_t k = 0; k < s.size(); ++k) { if (pos + k < want.size()) want[pos + k] = s[k]; else want.push_back(s[k]); } break;
        case 11: { size_t k = L + g.draw(30); g.note("#%u resize(%zu, item)", i, k); strong = nothrowMove; r = run("resize", [&] { x.resize(k, te); }); want.resize(k, e); break; }
        case 12: if (!L) break; g.note("#%u[%zu] = item", i, p); strong = nothrowMove; r = run("element write", [&] { x[p] = te; }); want[p] = e; break;
        case 13: if (!L) break; g.note("#%u.begin()", i); strong = true; r = run("begin", [&] { x.begin(); }); break;
        case 14: { size_t k = g.len(200); g.note("#%u reserve(%zu)", i, k); strong = nothrowMove || x.isShared() || x.capacity() < k; r = run("reserve", [&] { x.reserve(k); }); if (r) REQUIRE(x.capacity() >= k, "reserve(%zu) left capacity %zu", k, x.capacity()); break; }
        case 15: { g.note("#%u = initializer list", i); std::initializer_list<T> il = {te, te}; r = run("assignment", [&] { x = il; }); want.assign(2, e); break; }
        case 16: g.note("#%u + #%u", i, j); makes = true; r = run("concatenation", [&] { made = x + w.a(j); }); madeWant = m; madeWant.insert(madeWant.end(), mj.begin(), mj.end()); break;
        case 17: { size_t k = g.draw(40); g.note("Array(%zu x item)", k); makes = true; r = run("construction", [&] { made = A(k, te); }); madeWant.assign(k, e); break; }
        case 18: g.note("Array(iterators)"); makes = true; r = run("construction", [&] { made = A(vv.begin(), vv.end()); }); madeWant = s; break;
        case 19: g.note("Array(items, n)"); makes = true; r = run("construction", [&] { made = A(static_cast<const T*>(vv.data()), vv.size()); }); madeWant = s; break;
        case 20: { if (!L) break; g.note("#%u shift", i); strong = true; T got(-1); r = run("shift", [&] { T t2(x.shift()); got.t.v = t2.t.v; }); if (r) REQUIRE(got.t.v == m.front(), "shift gave %d, expected %d", got.t.v, m.front()); else strong = nothrowMove; want.erase(want.begin()); break; }
        case 21: { if (!L) break; g.note("#%u pop", i); strong = true; T got(-1); r = run("pop", [&] { T t2(x.pop()); got.t.v = t2.t.v; }); if (r) REQUIRE(got.t.v == m.back(), "pop gave %d, expected %d", got.t.v, m.back()); else strong = nothrowMove; want.pop_back(); break; }
        case 22: { g.note("#%u from an initializer list", i); makes = true; std::initializer_list<T> il = {te, te, te}; r = run("construction", [&] { made = A(il); }); madeWant.assign(3, e); break; }
        default: { if (!L) break; g.note("#%u.mdata()/front()/back()", i); strong = true; unsigned k = (unsigned)g.draw(3); r = run("front", [&] { if (k == 0) x.mdata(); else if (k == 1) x.front(); else x.back(); }); }
      }
      if (makes) { W::expectA(made, r ? madeWant : VM(), "the result"); want = m; }
      else if (!r) {
        if (strong) { want = m; g.label("kept"); }
        else { want = W::get(x); g.label("usable"); REQUIRE(want.size() <= L + s.size() + mj.size() + 2, "after a failed operation the Array has %zu items", want.size()); }
      }
      if (!r) ++hits;
      m = want;
      w.verify(r ? "completed operation" : "operation which could not copy an element");
      W::expectA(ts, s, "an argument");
      if (i != j) REQUIRE(W::get(w.a(j)) == mj, "an argument changed");
    }
    while (!w.v.empty()) { w.destroy(w.any()); w.verify("destruction"); }
  }
  REQUIRE(!g_err[0], "%s", g_err);
  BALANCE(g_live == live0, "%ld more elements were constructed than destroyed", g_live - live0);
  BALANCE(pbt::mem::liveBlocks() == b0 && pbt::mem::liveBytes() == y0, "%ld blocks, %ld bytes still allocated at the end", pbt::mem::liveBlocks() - b0, pbt::mem::liveBytes() - y0);
  if (hits) g.nontrivial();
}
PROPERTY("C33.moves", "elements which may fail to copy but move", c33<Thr>, 80000, 10000000, false, "histories over a pool of Arrays, a generated copy or default construction of an element throwing; non-trivial when at least one operation failed");
PROPERTY("C33.copies", "elements which can only be copied and may fail to", c33<ThrCopy>, 80000, 10000000, false, "as C33.moves");

// tables and Streams
static void c31t(Src& g) {
  long b0 = pbt::mem::liveBlocks(), y0 = pbt::mem::liveBytes();
  unsigned hits = 0;
  {
    typedef bd::HashTable<BS, BS> H;
    H h;
    std::map<SS, SS> m;
    bd::Stream st;
    SS sm;
    size_t sp = 0;
    unsigned n = 0;
    while (g.more(16) && n++ < 60) {
      Oom oom(g);
      SS k = g.bytesOver("ab", 3), v = g.bytes(20);
      BS kk(k), vv(v), kcopy(kk), vcopy(vv);
      bool has = m.count(k) > 0, r = true;
      switch (g.draw(9)) {
        case 0: case 1: { bool res = false; g.note("insert %s", q(k).c_str()); r = oom("insert", [&] { res = h.insert(kk, vv); }); if (r) { REQUIRE(res == !has, "insert returned %d", res); if (!has) m[k] = v; } break; }
        case 2: { g.note("[%s] =", q(k).c_str()); r = oom("subscript", [&] { h[kk] = vv; }); if (r) m[k] = v; break; }
        case 3: { g.note("remove %s", q(k).c_str()); bool res = false; r = oom("remove", [&] { res = h.remove(kk); }); if (r) { REQUIRE(res == has, "remove returned %d", res); m.erase(k); } break; }
        case 4: { g.note("copy"); std::unique_ptr<H> c; r = oom("copy", [&] { c.reset(new H(h)); }); if (r) REQUIRE(c->size() == m.size(), "copy has %zu entries", c->size()); break; }
        case 5: case 6: { g.note("puts %s", q(v).c_str()); if (sp > sm.size()) break; r = oom("puts", [&] { st.puts(vv); }); if (r) { sm = ref::replace(sm, sp, v); sp += v.size(); } break; }
        case 7: { g.note("read"); st.seek(0, SEEK_SET); sp = 0; size_t want = g.draw(30); BS got; char d = g.draw(2) ? '\0' : 'a'; r = oom("read", [&] { got = st.read(want, d); }); sp = st.tell(); if (r) { REQUIRE(val(got) == sm.substr(0, got.length()) && sp == got.length(), "read shows %s", q(val(got)).c_str()); } REQUIRE(sp <= sm.size(), "position %zu past the data", sp); break; }
        default: { g.note("reserve"); size_t want = g.len(5000); r = oom("reserve", [&] { st.reserve(want); }); }
      }
      hits += oom.hits;
      REQUIRE(h.size() == m.size(), "the table has %zu entries, expected %zu", h.size(), m.size());
      const H& c = h;
      for (auto& kv : m) { BS x(kv.first); REQUIRE(c.contains(x) && val(c.getValue(x)) == kv.second, "key %s has value %s, expected %s", q(kv.first).c_str(), q(val(c.getValue(x))).c_str(), q(kv.second).c_str()); }
      REQUIRE(st.length() == sm.size() && st.tell() == sp, "the Stream has length %zu at %zu, expected %zu at %zu", st.length(), st.tell(), sm.size(), sp);
      bd::Stream sc(st); sc.seek(0, SEEK_SET); BS all(sc.read(sm.size() + 1)); expect(all, sm, "the Stream's data");
      expect(kcopy, k, "an argument"); expect(vcopy, v, "an argument");
    }
  }
  BALANCE(pbt::mem::liveBlocks() == b0 && pbt::mem::liveBytes() == y0, "%ld blocks, %ld bytes still allocated at the end", pbt::mem::liveBlocks() - b0, pbt::mem::liveBytes() - y0);
  if (hits) g.nontrivial();
}
PROPERTY("C31.table-stream", "tables and Streams without memory", c31t, 25000, 6000000, false, "as C31.string, over a HashTable and a Stream");

// loading a file into a Stream
static unsigned fdCount() { unsigned n = 0; for (int i = 0; i < 64; ++i) if (fcntl(i, F_GETFD) != -1) ++n; return n; }
static bool isMapped(const SS& name) {
  FILE* f = fopen("/proc/self/maps", "r");
  char line[4400];
  bool r = false;
  while (f && fgets(line, sizeof line, f)) if (strstr(line, name.c_str())) r = true;
  if (f) fclose(f);
  return r;
}
static void c31load(Src& g) {
  SS base = "/load." + std::to_string(getpid()), path = pbt::scratch() + base;
  SS data = g.draw(3) ? g.bytes(2000) : SS(g.len2(3000, 40000), 'x') + g.bytes(20), old = g.bytes(30);
  { int fd = open(path.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600); REQUIRE(fd >= 0, "harness: open"); REQUIRE(write(fd, data.data(), data.size()) == (ssize_t)data.size(), "harness: write"); close(fd); }
  BS name(path);
  name.c_str();
  unsigned fds = fdCount();
  long b0 = pbt::mem::liveBlocks(), y0 = pbt::mem::liveBytes();
  {
    struct S : bd::Stream { bool isLoading() const { return loading; } } st;
    if (g.draw(2)) st << BS(old); else old.clear();
    bool byName = g.draw(2);
    int fd = byName ? -1 : open(path.c_str(), O_RDONLY), ret = 0;
    g.note("load %zu bytes %s", data.size(), byName ? "by name" : "by descriptor");
    Oom oom(g);
    bool r = oom("loadFile", [&] { ret = byName ? st.loadFile(name) : st.loadFile(fd); });
    if (fd >= 0) { REQUIRE(fcntl(fd, F_GETFD) != -1, "loadFile closed the descriptor it was given"); close(fd); }
    REQUIRE(fdCount() == fds, "%u descriptors open after loading without memory, %u before", fdCount(), fds);
    REQUIRE(!isMapped(base), "the file is still mapped after loading without memory");
    REQUIRE(!st.isLoading(), "the Stream still says it is loading");
    BS all(st);
    if (r && ret == 0) { expect(all, data, "loaded data"); REQUIRE(st.tell() == 0, "position %zu after loading", st.tell()); }
    else {
      REQUIRE(!r || pbt::mem::failed, "loadFile returned %d although nothing failed", ret);
      REQUIRE(all.isEmpty() || same(all, old), "after a failed load the Stream holds %s", q(val(all)).c_str());
      g.nontrivial();
      st.clear();
      REQUIRE((byName = true, st.loadFile(name)) == 0 && same(BS(st), data), "loading again after the failure does not work");
    }
  }
  unlink(path.c_str());
  BALANCE(pbt::mem::liveBlocks() == b0 && pbt::mem::liveBytes() == y0, "%ld blocks, %ld bytes still allocated at the end", pbt::mem::liveBlocks() - b0, pbt::mem::liveBytes() - y0);
}
PROPERTY("C31.load", "loading a file without memory", c31load, 8000, 1000000, false, "contents, prior Stream states and failing allocations; non-trivial when the load failed");

// requests that no memory can satisfy
static size_t hugeCount(Src& g, size_t el) {
  size_t n;
  switch (g.draw(5)) {
    case 0: n = (size_t)-1 - g.draw(3); break;
    case 1: n = (size_t)-1 - g.draw(3000); break;
    case 2: n = (size_t)1 << (32 + g.draw(32)); n += (size_t)g.range(-3, 3); break;
    case 3: n = (size_t)-1 / el - 2 + g.draw(6); break;        // bytes around the largest number
    default: n = (size_t)PTRDIFF_MAX / el - 2 + g.draw(6); break;
  }
  return std::max(n, (size_t)1 << 31);
}
struct Refuse {  // true when f completed
  template <class F> bool operator()(const char* what, F f) {
    pbt::mem::failed = 0;
    pbt::mem::refuseAbove = (size_t)1 << 26;
    bool done = false;
    try { f(); done = true; }
    catch (const std::bad_alloc&) { }
    catch (const std::length_error&) { }
    catch (const pbt::Fail&) { pbt::mem::refuseAbove = 0; throw; }
    catch (const std::exception& e) { pbt::mem::refuseAbove = 0; pbt::fail("%s threw %s", what, e.what()); }
    pbt::mem::refuseAbove = 0;
    return done;
  }
};
static void c31hugeString(Src& g) {
  long b0 = pbt::mem::liveBlocks(), y0 = pbt::mem::liveBytes();
  {
    SS m = g.bytes(40);
    const SS m0 = m;
    Placed p = place(g, m);
    BS& s = p.s;
    Refuse ref;
    size_t n = hugeCount(g, 1);
    unsigned op = (unsigned)g.draw(7);
    g.note("operation %u for %zu", op, n);
    BS made;
    switch (op) {
      case 0: REQUIRE(!ref("reserve", [&] { s.reserve(n); }), "reserve(%zu) reported success with a capacity of %zu", n, s.capacity()); break;
      case 1: REQUIRE(!ref("resize", [&] { s.resize(n); }), "resize(%zu) reported success, the length is %zu", n, s.length()); break;
      case 2: REQUIRE(!ref("resize", [&] { s.resize(n, 'x'); }), "resize(%zu, char) reported success, the length is %zu", n, s.length()); break;
      case 3: REQUIRE(!ref("construction", [&] { made = BS(n); }), "String(%zu) reported success with a capacity of %zu", n, made.capacity()); break;
      case 4: REQUIRE(!ref("construction", [&] { made = BS(n, 'x'); }), "String(%zu, char) reported success, the length is %zu", n, made.length()); break;
      case 5: { if (m.empty()) break; int k = 0x7fffffff - (int)g.draw(4); REQUIRE(!ref("repetition", [&] { made = s * k; }), "%zu characters * %d reported success, the length is %zu", m.size(), k, made.length()); break; }
      default: {
        bd::Stream st; if (g.draw(2)) st << BS(m); else m.clear();
        REQUIRE(!ref("Stream::reserve", [&] { st.reserve(n); }), "Stream::reserve(%zu) reported success with a capacity of %zu", n, st.capacity());
        expect(BS(st), m, "Stream after a refused reserve");
        st.seek(0, SEEK_SET); st << BS("zz"); REQUIRE(st.length() == std::max<size_t>(m.size(), 2), "a Stream is not usable after a refused reserve");
        m = m0; break; }
    }
    expect(made, "", "the result of a refused construction");
    expect(s, m, "String after a refused request");
    keepOK(p, m, "after a refused request");
    s += "tail"; expect(s, m + "tail", "String edited after a refused request");
    expect(p.keep, p.keepText, "a sharer after a refused request");
    g.nontrivial();
  }
  BALANCE(pbt::mem::liveBlocks() == b0 && pbt::mem::liveBytes() == y0, "%ld blocks, %ld bytes still allocated at the end", pbt::mem::liveBlocks() - b0, pbt::mem::liveBytes() - y0);
}
template <class T> static void c31hugeArray(Src& g) {
  typedef ArrWorld<T> W;
  typedef bd::Array<T> A;
  g_err[0] = 0;
  long b0 = pbt::mem::liveBlocks(), y0 = pbt::mem::liveBytes(), live0 = g_live;
  {
    W w(g, 8);
    auto m = w.genList(6);
    typename W::M e = El<T>::gen(g);
    T te(El<T>::make(g, e));
    A x(w.fromList(m)), other;
    if (g.draw(2)) other = x;
    auto mo = other.length() ? m : decltype(m)();
    size_t n = hugeCount(g, sizeof(T));
    unsigned op = (unsigned)g.draw(5);
    g.note("operation %u for %zu", op, n);
    A made;
    Refuse ref;
    switch (op) {
      case 0: REQUIRE(!ref("reserve", [&] { x.reserve(n); }), "reserve(%zu) reported success with a capacity of %zu", n, x.capacity()); break;
      case 1: REQUIRE(!ref("resize", [&] { x.resize(n); }), "resize(%zu) reported success, the length is %zu", n, x.length()); break;
      case 2: REQUIRE(!ref("resize", [&] { x.resize(n, te); }), "resize(%zu, item) reported success, the length is %zu", n, x.length()); break;
      case 3: REQUIRE(!ref("construction", [&] { made = A(n); }), "Array(%zu) reported success with a capacity of %zu", n, made.capacity()); break;
      default: REQUIRE(!ref("construction", [&] { made = A(n, te); }), "Array(%zu, item) reported success, the length is %zu", n, made.length()); break;
    }
    W::expectA(made, decltype(m)(), "the result of a refused construction");
    W::expectA(x, m, "Array after a refused request");
    x << te; auto want = m; want.push_back(e);
    W::expectA(x, want, "Array edited after a refused request");
    W::expectA(other, mo, "a sharer after a refused request");
    g.nontrivial();
  }
  REQUIRE(!g_err[0], "%s", g_err);
  BALANCE(g_live == live0, "%ld more elements were constructed than destroyed", g_live - live0);
  BALANCE(pbt::mem::liveBlocks() == b0 && pbt::mem::liveBytes() == y0, "%ld blocks, %ld bytes still allocated at the end", pbt::mem::liveBlocks() - b0, pbt::mem::liveBytes() - y0);
}
PROPERTY("C31.huge-string", "impossible requests on Strings and Streams", c31hugeString, 40000, 3000000, false, "placed Strings and Streams asked for sizes no memory has, up to the largest number; non-trivial always");
PROPERTY("C31.huge-array-int", "impossible requests on Array<int>", c31hugeArray<int>, 20000, 2000000, false, "as C31.huge-string, over Arrays");
PROPERTY("C31.huge-array-Tracked", "impossible requests on Arrays of a class type", c31hugeArray<Tracked>, 15000, 2000000, false, "as C31.huge-string, over Arrays");
PROPERTY("C31.huge-array-String", "impossible requests on Array<String>", c31hugeArray<BS>, 15000, 2000000, false, "as C31.huge-string, over Arrays");

// ---- C32: what sharing and growing cost ---------------------------------------------
template <class C> struct Big;
template <> struct Big<BS> {
  static char el(size_t i) { return "abcdefg xyz\t\n"[i % 13]; }
  static const char* name() { return "String"; }
};
template <> struct Big<bd::Array<int>> { static int el(size_t i) { return (int)i * 3; } static const char* name() { return "Array<int>"; } };
template <> struct Big<bd::Array<Tracked>> { static Tracked el(size_t i) { return Tracked((int)i); } static const char* name() { return "Array of objects"; } };
struct Meter {
  unsigned long bytes = 0, births = 0;
  template <class F> Meter(F f) {
    unsigned long b0 = pbt::mem::allocBytes, t0 = g_births;
    f();
    bytes = pbt::mem::allocBytes - b0; births = g_births - t0;
  }
};
// operations that have to be cheap whatever the size
template <class C> static void cheap(Src& g, const char* what, const Meter& m) {
  (void)g;
  REQUIRE(m.bytes <= 2048, "%s allocated %lu bytes", what, m.bytes);
  REQUIRE(m.births <= 64, "%s made %lu elements", what, m.births);
}
template <class C> static void only(Src& g, std::vector<std::unique_ptr<C>>& v, unsigned i) {
  C& a = *v[i];
  if (a.length() < 200) return;
  switch (g.draw(6)) {
    case 0: { g.note("shift #%u", i); cheap<C>(g, "shift", Meter([&] { a.shift(); })); break; }
    case 1: { g.note("pop #%u", i); cheap<C>(g, "pop", Meter([&] { a.pop(); })); break; }
    case 2: { g.note("#%u++", i); cheap<C>(g, "postfix ++", Meter([&] { a++; })); break; }
    case 3: { g.note("#%u--", i); cheap<C>(g, "postfix --", Meter([&] { a--; --a; })); break; }
    case 4: { g.note("#%u -= n", i); int k = (int)g.draw(100); cheap<C>(g, "-= n", Meter([&] { a -= k; })); break; }
    default: { g.note("compare #%u", i); const C& o = *v[g.draw(v.size())]; int x = 0; cheap<C>(g, "comparison", Meter([&] { x += (a == o) + (a != o) + a.equals(o, 5); })); C* p = nullptr; cheap<C>(g, "subarray", Meter([&] { p = new C(a.subarray(5, 20)); })); v.emplace_back(p); }
  }
}
template <> void only<BS>(Src& g, std::vector<std::unique_ptr<BS>>& v, unsigned i) {
  BS& s = *v[i];
  switch (g.draw(9)) {
    case 5: { g.note("#%u ++, --, += and -=", i); if (s.length() < 200) break; size_t a = g.draw(40), b = g.draw(40); cheap<BS>(g, "dropping at the ends", Meter([&] { ++s; --s; s += a; s -= b; })); break; }
    case 6: { g.note("postfix #%u++ and #%u--", i, i); if (s.length() < 200) break; cheap<BS>(g, "postfix ++ and --", Meter([&] { s++; s--; })); break; }
    case 7: { // pieces share the text
      char d = s.length() > 5 ? s[5].get() : 'x';
      size_t k = 0, lim = g.draw(3) ? (size_t)-1 : 1 + g.draw(4);
      if (g.draw(2) && s.length()) { d = '#'; unsigned c = 1 + (unsigned)g.draw(3); g.note("%u marks in #%u", c, i); while (c--) s[g.draw(s.length())] = '#'; }
      g.note("split #%u by %s into at most %zd pieces", i, q(SS(1, d)).c_str(), (ssize_t)lim);
      Meter m([&] { bd::Array<BS> pieces(s.split(BS(d), lim)); k = pieces.length(); });
      REQUIRE(m.bytes <= 8 * (k + 4) * sizeof(BS) + 1024, "splitting %zu characters into %zu pieces allocated %lu bytes", s.length(), k, m.bytes);
      break; }
    case 8: { g.note("search #%u", i); const BS& o = *v[g.draw(v.size())]; size_t x = 0; const BS& cs = s; cheap<BS>(g, "searching", Meter([&] { x += cs.find(o) + cs.rfind(BS("zz")) + cs.find(BS("\n\na")); })); break; }
    case 0: { g.note("newsplit of #%u", i); BS r; cheap<BS>(g, "newsplit", Meter([&] { r = newsplit(s, s.length() > 3 ? s[3].get() : ' '); })); v.emplace_back(new BS(std::move(r))); break; }
    case 1: { g.note("trim #%u", i); cheap<BS>(g, "trim", Meter([&] { s.trim(); })); break; }
    case 2: { g.note("chomp #%u", i); cheap<BS>(g, "chomp", Meter([&] { s.chomp(); })); break; }
    case 3: { g.note("compare #%u", i); const BS& o = *v[g.draw(v.size())]; int x = 0; cheap<BS>(g, "comparison", Meter([&] { x += s.compare(o) + (s == o) + (s < o); })); break; }
    default: { g.note("Stream over #%u", i); size_t k = g.draw(s.length() + 1); size_t got = 0;
      cheap<BS>(g, "reading from a Stream by size", Meter([&] { bd::Stream st(s); bd::Stream st2(st); got = st2.read(k).length() + st.length(); }));
      REQUIRE(got == k + s.length(), "Stream read %zu", got); }
  }
}
template <class C> static void c32share(Src& g) {
  g_err[0] = 0;
  typedef Big<C> B;
  size_t N = 8000 + g.draw(8000);
  std::vector<std::unique_ptr<C>> v;
  v.reserve(64);
  v.emplace_back(new C());
  { size_t extra = g.draw(3) ? 0 : g.draw(100); C& c = *v[0]; c.reserve(N + extra); for (size_t i = 0; i < N; ++i) c.push_back(B::el(i)); }
  g.note("%s of %zu elements", B::name(), N);
  unsigned n = 0, ops = 0;
  while (g.more(14) && n++ < 60 && v.size() < 40) {
    unsigned i = (unsigned)g.draw(v.size()), j = (unsigned)g.draw(v.size());
    C& c = *v[i];
    const C& cc = c;
    size_t L = c.length();
    if (L >= 4000) ++ops;
    switch (g.draw(14)) {
      case 0: { g.note("copy #%u", i); C* p = nullptr; cheap<C>(g, "copying", Meter([&] { p = new C(c); })); v.emplace_back(p); break; }
      case 1: { ssize_t a = (ssize_t)g.draw(L + 1), l = (ssize_t)g.draw(L + 1); g.note("window #%u", i); C* p = nullptr; bool k = g.draw(2); cheap<C>(g, "taking a window", Meter([&] { p = k ? new C(cc(a, l)) : new C(c(a, l)); })); v.emplace_back(p); break; }
      case 2: { g.note("#%u = #%u", i, j); cheap<C>(g, "assignment", Meter([&] { c = *v[j]; })); break; }
      case 3: { g.note("move #%u", i); const void* d = cc.data(); C* p = nullptr; cheap<C>(g, "moving", Meter([&] { p = new C(std::move(c)); })); v.emplace_back(p); REQUIRE(p->data() == d, "moving did not keep the storage"); v.erase(v.begin() + i); break; }
      case 4: { g.note("slice #%u", i); size_t a = L ? g.draw(std::min<size_t>(L, 50)) : 0; cheap<C>(g, "slice", Meter([&] { c.slice((ssize_t)a, -1); })); break; }
      case 5: { g.note("++/pop_back #%u", i); if (L < 2) break; cheap<C>(g, "dropping at the ends", Meter([&] { c.slice(1); c.pop_back(); })); break; }
      case 6: { g.note("clear #%u", i); if (g.draw(3) || v.size() < 2) break; cheap<C>(g, "clear", Meter([&] { c.clear(); })); break; }
      case 7: { g.note("swap #%u #%u", i, j); using std::swap; cheap<C>(g, "swap", Meter([&] { swap(c, *v[j]); })); break; }
      case 8: { g.note("read #%u", i); size_t x = 0; cheap<C>(g, "reading", Meter([&] { for (auto it = cc.begin(); it != cc.end(); ++it) x += (*it == cc[0]); x += cc.hash() & 1; if (L) x += (cc.at(L - 1) == cc.back()); x += cc.rbegin() != cc.rend(); if (L) x += cc.find(cc[L - 1]) == 0; })); break; }
      case 9: { g.note("shrink #%u", i); if (!L) break; size_t k = L - 1 - g.draw(std::min<size_t>(L, 20)); cheap<C>(g, "shrinking", Meter([&] { c.resize(k); })); break; }
      case 10: { if (v.size() < 2) break; g.note("destroy #%u", i); v.erase(v.begin() + i); break; }
      case 11: { // writing detaches once, then happens in place
        if (!L) break;
        unsigned k = 2 + (unsigned)g.draw(300);
        g.note("%u writes to #%u", k, i);
        auto e = B::el(7);
        Meter m([&] { for (unsigned x = 0; x < k; ++x) { size_t p = (x * 31) % L; switch (x % 4) { case 0: c[p] = e; break; case 1: c.write(p, e); break; case 2: *(c.begin() + p) = e; break; default: c.mdata()[p] = e; } } });
        REQUIRE(m.bytes <= 6 * L * sizeof(e) + 4096, "%u single element writes to %zu elements allocated %lu bytes", k, L, m.bytes);
        REQUIRE(m.births <= 6 * L + 4 * k + 64, "%u single element writes to %zu elements made %lu elements", k, L, m.births);
        break; }
      case 12: { // the last owner writes in place
        if (L < 2 || v.size() < 2 || g.draw(3)) break;
        g.note("destroy all but #%u, then write to it", i);
        std::unique_ptr<C> keep(std::move(v[i]));
        v.clear();
        v.push_back(std::move(keep));
        C& o = *v[0];
        size_t p = g.draw(o.length());
        auto e = B::el(3);
        unsigned how = (unsigned)g.draw(4);
        cheap<C>(g, "writing to the only owner", Meter([&] { switch (how) { case 0: o[p] = e; break; case 1: o.write(p, e); break; case 2: *(o.begin() + p) = e; break; default: o.mdata()[p] = e; } }));
        break; }
      default: only<C>(g, v, i);
    }
  }
  if (ops >= 3) g.nontrivial();
}
PROPERTY("C32.share-string", "cost of sharing Strings", c32share<BS>, 70000, 2000000, false, "operations that share or only look, over objects of 8000 and more elements, with the allocator and element constructions metered; non-trivial when at least three hit large objects");
PROPERTY("C32.share-array-int", "cost of sharing Array<int>", c32share<bd::Array<int>>, 50000, 1000000, false, "as C32.share-string");
PROPERTY("C32.share-array-object", "cost of sharing Arrays of objects", c32share<bd::Array<Tracked>>, 15000, 300000, false, "as C32.share-string");

template <class C> static void oneMore(Src& g, C& c, size_t i, unsigned how) {
  auto e = Big<C>::el(i);
  (void)g;
  switch (how) {
    case 0: c.push_back(e); break;
    case 1: c.append(e); break;
    case 2: c.insert(c.length(), e); break;
    case 3: c.resize(c.length() + 1, e); break;
    case 4: { C t; t.push_back(e); c.append(t); break; }
    case 5: c.insert(c.cend(), e); break;
    default: c.replace(c.length(), e);
  }
}
template <class C> static void c32grow(Src& g) {
  g_err[0] = 0;
  typedef Big<C> B;
  C c;
  size_t n = 2500 + g.draw(3000);
  unsigned how = (unsigned)g.draw(7);
  bool reserved = g.draw(3) == 0;
  size_t drop = g.draw(3) == 0 ? g.draw(20) : 0;  // start behind a window
  for (size_t i = 0; i < drop; ++i) c.push_back(B::el(i));
  if (drop) c.slice((ssize_t)g.draw(drop));
  size_t L0 = c.length();
  g.note("%s of %zu elements + %zu in steps of kind %u%s", B::name(), L0, n, how, reserved ? ", reserved" : "");
  auto e0 = B::el(0);
  if (reserved) c.reserve(L0 + n);
  const void* d = nullptr;
  Meter m([&] {
    for (size_t i = 0; i < n; ++i) { oneMore(g, c, i, how); if (i == 0) d = c.data(); }
  });
  REQUIRE(c.length() == L0 + n, "length %zu after %zu steps", c.length(), n);
  // the small container of step kind 4 is paid separately
  unsigned long own = how == 4 ? n * (40ul * sizeof(e0) + 512) : 0;
  if (reserved) {
    g.label("reserved");
    REQUIRE(m.bytes <= own + 256, "%zu steps into reserved room allocated %lu bytes", n, m.bytes);
    REQUIRE(c.data() == d, "storage moved although room was reserved");
    REQUIRE(m.births <= n * 40, "%zu steps into reserved room made %lu elements", n, m.births);
  } else {
    REQUIRE(m.bytes <= own + 20 * n * sizeof(e0) + 8192, "%zu steps allocated %lu bytes", n, m.bytes);
    REQUIRE(m.births <= n * 60 + 1000, "%zu steps made %lu elements", n, m.births);
  }
  if (n > 1000) g.nontrivial();
}
PROPERTY("C32.grow-string", "cost of growing a String", c32grow<BS>, 30000, 1000000, false, "thousands of single steps of one kind onto an empty, windowed or reserved object, allocation metered; non-trivial when there were more than 1000");
PROPERTY("C32.grow-array-int", "cost of growing an Array<int>", c32grow<bd::Array<int>>, 20000, 500000, false, "as C32.grow-string");
PROPERTY("C32.grow-array-object", "cost of growing an Array of objects", c32grow<bd::Array<Tracked>>, 10000, 200000, false, "as C32.grow-string");
static void c32stream(Src& g) {
  bd::Stream st;
  size_t n = 2500 + g.draw(3000);
  BS x(g.draw(2) ? "a" : "line of text\n");
  g.note("%zu puts of %zu bytes", n, (size_t)x.length());
  Meter m([&] { for (size_t i = 0; i < n; ++i) st.puts(x); });
  REQUIRE(st.length() == n * x.length(), "length %zu", st.length());
  REQUIRE(m.bytes <= 20 * n * x.length() + 65536, "%zu writes of %zu bytes allocated %lu bytes", n, (size_t)x.length(), m.bytes);
  g.nontrivial();
}
PROPERTY("C32.grow-stream", "cost of growing a Stream", c32stream, 10000, 200000, false, "thousands of writes, allocation metered; every case counts");

// Table operations on Strings are only constant-time while the hashes of different texts differ.
static void c32hash(Src& g) {
  std::set<std::string> keys;
  std::string pre = g.bytes(24), post = g.bytes(24);
  size_t n = 200 + g.draw(2000);
  if (g.draw(8) == 0) {  // keys that differ only after, or before, much they have in common
    n = 150; g.label("long-keys");
    if (g.draw(3)) pre = g.exactly(g.longLen(8000), "abc");
    if (g.draw(3)) post = g.exactly(g.longLen(8000), "abc");
  }
  unsigned kind = (unsigned)g.draw(4);
  uint64_t x = g.u64();
  for (size_t i = 0; i < n; ++i) {
    std::string k;
    switch (kind) {
      case 0: k = std::to_string(i); break;
      case 1: { x = x * 6364136223846793005ull + 1442695040888963407ull; unsigned l = 4 + (x >> 60); for (unsigned j = 0; j < l; ++j) { x = x * 6364136223846793005ull + 1442695040888963407ull; k += (char)('a' + (x >> 40) % 26); } break; }
      case 2: { char b[32]; snprintf(b, sizeof b, "%08zx", i * 2654435761u % 4294967295u); k = b; break; }
      default: k = "user" + std::to_string(i) + "@host" + std::to_string(i * 7 % 1000); break;
    }
    keys.insert(pre + k + post);
  }
  g.note("%zu keys of kind %u between %s and %s", keys.size(), kind, q(pre).c_str(), q(post).c_str());
  std::set<size_t> hs;
  for (auto& k : keys) hs.insert(std::hash<BS>()(BS(k)));
  REQUIRE(hs.size() * 10 >= keys.size() * 8, "%zu different texts have only %zu hashes", keys.size(), hs.size());
  std::set<size_t> ha;
  for (auto& k : keys) { bd::Array<int> a; for (char c : k) a.push_back(c); ha.insert(std::hash<bd::Array<int>>()(a)); }
  REQUIRE(ha.size() * 10 >= keys.size() * 8, "%zu different Arrays have only %zu hashes", keys.size(), ha.size());
  g.nontrivial();
}
PROPERTY("C32.hash", "hashes of different texts differ", c32hash, 2000, 100000, false, "hundreds of keys of a common shape between generated prefixes and suffixes; every case counts");
