// A pool of bd::Arrays with a std::vector model each, and the operations on them.
#ifndef ARRWORLD_H
#define ARRWORLD_H
#include "strworld.h"

// ---- an element type that watches its own lifetime ---------------------------
static long g_live = 0;
static unsigned long g_births = 0;
static char g_err[200];
static void lifeErr(const char* what, const void* p) { if (!g_err[0]) snprintf(g_err, sizeof g_err, "%s (%p)", what, p); }
struct Tracked {
  volatile uint32_t magic;
  const void* volatile self;
  int v;
  static const uint32_t LIVE = 0x11FE11FE, DEAD = 0xDEADDEAD;
  void born() { magic = LIVE; self = this; ++g_live; ++g_births; }
  void ok(const char* what) const { if (magic != LIVE || self != this) lifeErr(what, this); }
  Tracked() : v(0) { born(); }
  Tracked(int x) : v(x) { born(); }
  Tracked(const Tracked& o) : v(o.v) { o.ok("copy constructed from an element that is not alive"); born(); }
  Tracked(Tracked&& o) noexcept : v(o.v) { o.ok("move constructed from an element that is not alive"); o.v = -999; born(); }
  Tracked& operator=(const Tracked& o) { ok("assignment to an element that is not alive"); o.ok("assignment from an element that is not alive"); v = o.v; return *this; }
  Tracked& operator=(Tracked&& o) noexcept { ok("assignment to an element that is not alive"); o.ok("assignment from an element that is not alive"); if (&o != this) { v = o.v; o.v = -999; } return *this; }
  ~Tracked() { ok("an element that is not alive is destroyed"); magic = DEAD; self = nullptr; --g_live; }
  bool operator==(const Tracked& o) const { ok("comparison of an element that is not alive"); o.ok("comparison with an element that is not alive"); return v == o.v; }
  bool operator!=(const Tracked& o) const { return !(*this == o); }
};
namespace std { template <> struct hash<Tracked> { size_t operator()(const Tracked& t) const noexcept { t.ok("hash of an element that is not alive"); return (size_t)t.v; } }; }

// ---- how to make, read and show the elements of each kind ---------------------
template <class T> struct El;
template <> struct El<int> {
  typedef int M;
  static M gen(Src& g) { return g.draw(4) ? (int)g.draw(6) : (int)g.u64(); }
  static int make(Src&, const M& m) { return m; }
  static M get(const int& t) { return t; }
  static SS show(const M& m) { return std::to_string(m); }
};
template <> struct El<Tracked> {
  typedef int M;
  static M gen(Src& g) { return (int)g.draw(8); }
  static Tracked make(Src&, const M& m) { return Tracked(m); }
  static M get(const Tracked& t) { t.ok("an element that is not alive is read"); return t.v; }
  static SS show(const M& m) { return std::to_string(m); }
};
template <> struct El<BS> {
  typedef SS M;
  static M gen(Src& g) { return g.bytes(g.draw(10) ? 6 : 60); }
  static BS make(Src& g, const M& m) {
    if (g.draw(3) == 0) { BS t(SS("<") + m + ">"); return t.substring(1, (int)m.size() == 0 ? 0 : (ssize_t)m.size()); }
    return BS(m);
  }
  static M get(const BS& t) { return val(t); }
  static SS show(const M& m) { return q(m, 20); }
};
template <> struct El<bd::Array<BS>> {
  typedef std::vector<SS> M;
  static M gen(Src& g) { M m; unsigned n = (unsigned)g.draw(4); for (unsigned i = 0; i < n; ++i) m.push_back(g.bytes(4)); return m; }
  static bd::Array<BS> make(Src& g, const M& m) { bd::Array<BS> a; for (auto& x : m) a.push_back(BS(x)); return a; }
  static M get(const bd::Array<BS>& t) { M m; for (size_t i = 0; i < t.length(); ++i) m.push_back(val(t[i])); return m; }
  static SS show(const M& m) { SS s = "["; for (auto& x : m) s += q(x, 10) + " "; return s + "]"; }
};

// Array(const T*) up to a zero: only numbers have one
template <class T> static bd::Array<T>* upToZero(const T*) { return nullptr; }
static inline bd::Array<int>* upToZero(const int* p) { return new bd::Array<int>(p); }
template <class T> struct ArrWorld {
  typedef bd::Array<T> A;
  typedef typename El<T>::M M;
  typedef std::vector<M> VM;
  typedef El<T> E;
  struct Slot { std::unique_ptr<A> a; VM m; };
  static const unsigned MAXA = 6;
  Src& g;
  std::vector<Slot> v;
  size_t maxLen;
  unsigned sharedOps = 0, edits = 0, wins = 0;
  size_t huge = 0;  // when set, lists are often of hugeLen(huge)
  explicit ArrWorld(Src& g_, size_t mx) : g(g_), maxLen(mx) { v.reserve(MAXA + 1); }

  unsigned any() { return (unsigned)g.draw(v.size()); }
  A& a(unsigned i) { return *v[i].a; }
  VM& m(unsigned i) { return v[i].m; }
  static SS show(const VM& x) { SS s = "["; for (size_t i = 0; i < x.size() && i < 20; ++i) s += (i ? ", " : "") + E::show(x[i]); return s + (x.size() > 20 ? ", ...]" : "]"); }
  static VM get(const A& x) {
    VM r;
    REQUIRE(x.length() < (1u << 24), "implausible length %zu", x.length());
    for (size_t i = 0; i < x.length(); ++i) r.push_back(E::get(x[i]));
    return r;
  }
  static void expectA(const A& x, const VM& w, const char* what) {
    VM r = get(x);
    REQUIRE(r == w, "%s: got %s, expected %s", what, show(r).c_str(), show(w).c_str());
  }
  void verify(const char* what) {
    for (unsigned i = 0; i < v.size(); ++i) {
      const A& x = *v[i].a;
      const VM& w = v[i].m;
      VM r = get(x);
      REQUIRE(r == w, "after %s: Array #%u is %s, expected %s", what, i, show(r).c_str(), show(w).c_str());
      REQUIRE(x.size() == w.size() && x.isEmpty() == w.empty() && (!x) == w.empty() && bool(x) == !w.empty(), "after %s: size/isEmpty/bool disagree on #%u", what, i);
    }
    REQUIRE(!g_err[0], "after %s: %s", what, g_err);
  }
  void verifyCounts(const char* what) {
    for (unsigned i = 0; i < v.size(); ++i) {
      const void* d = v[i].a->data();
      const void* b = d ? pbt::mem::blockOf(d) : nullptr;
      if (!b) continue;
      size_t c = 0;
      for (unsigned j = 0; j < v.size(); ++j) if (v[j].a->data() && pbt::mem::blockOf(v[j].a->data()) == b) ++c;
      REQUIRE(v[i].a->rcount() == c, "after %s: Array #%u reports %zu references, %zu Arrays share its storage", what, i, v[i].a->rcount(), c);
      REQUIRE(v[i].a->isShared() == (c > 1), "after %s: isShared wrong on #%u", what, i);
    }
  }
  VM genList(size_t mx) { VM r; size_t n = g.len(mx); if (huge && g.draw(3) == 0) { n = g.hugeLen(huge); g.label("huge-list"); M e[7]; for (auto& x : e) x = E::gen(g); r.reserve(n); for (size_t i = 0; i < n; ++i) r.push_back(e[(i ^ (i >> 7)) % 7]); return r; } if (n > 60 && g.draw(4)) n = g.draw(20); if (g.draw(200) == 199) { n = g.longLen(std::is_same<M, std::vector<SS>>::value ? 200 : 1100); g.label("long-list"); } for (size_t i = 0; i < n; ++i) r.push_back(i < 64 || i + 1 == n ? E::gen(g) : r[i - 29]); return r; }
  A fromList(const VM& w) { A x; for (auto& e : w) x.push_back(E::make(g, e)); return x; }

  std::unique_ptr<A> make(VM& w) {
    std::unique_ptr<A> r;
    switch (g.draw(9)) {
      case 0: r.reset(new A()); w.clear(); g.note("Array()"); break;
      case 1: { size_t n = g.len2(40, 1100); r.reset(new A(n)); w.clear(); g.note("Array(capacity %zu)", n); break; }
      case 2: { size_t n = g.len2(40, 1100); M e = E::gen(g); r.reset(new A(n, E::make(g, e))); w.assign(n, e); g.note("Array(%zu x %s)", n, E::show(e).c_str()); g.label("ctor-fill"); break; }
      case 3: { M e[3] = {E::gen(g), E::gen(g), E::gen(g)};
        if (g.draw(2)) { r.reset(new A({E::make(g, e[0]), E::make(g, e[1]), E::make(g, e[2])})); w.assign(e, e + 3); }
        else { std::initializer_list<T> il = {E::make(g, e[0])}; r.reset(new A(il)); w.assign(e, e + 1); }
        g.note("Array(initializer list %s)", show(w).c_str()); g.label("ctor-init-list"); break; }
      case 4: { w = genList(30); std::vector<T> s; for (auto& e : w) s.push_back(E::make(g, e)); r.reset(new A(s.begin(), s.end())); g.note("Array(iterators over %s)", show(w).c_str()); g.label("ctor-iterators"); break; }
      case 5: { w = genList(30); std::vector<T> s; for (auto& e : w) s.push_back(E::make(g, e)); r.reset(new A(static_cast<const T*>(s.data()), s.size())); g.note("Array(%s, %zu)", show(w).c_str(), s.size()); g.label("ctor-carray"); break; }
      case 6: if (std::is_same<T, int>::value) { w = genList(30); std::vector<T> s; for (auto& e : w) s.push_back(E::make(g, e)); s.push_back(T()); r.reset(upToZero(static_cast<const T*>(s.data()))); size_t z = 0; while (!(s[z] == T())) ++z; w.resize(z); g.note("Array(%s up to the zero)", show(w).c_str()); g.label("ctor-zero"); break; }
      // fall through
      default: { w = genList(g.draw(10) ? 12 : maxLen); r.reset(new A(fromList(w))); g.note("Array built by push_back %s", show(w).c_str()); break; }
    }
    return r;
  }
  void room() { if (v.size() >= MAXA) destroy(any()); }
  void destroy(unsigned i) { g.note("destroy #%u", i); v.erase(v.begin() + i); }
  void add(std::unique_ptr<A> x, const VM& w) { Slot s; s.a = std::move(x); s.m = w; v.push_back(std::move(s)); }
  void addNew() { room(); VM w; auto x = make(w); g.note("  is #%zu", v.size()); add(std::move(x), w); }
  void addCopy(unsigned i) {
    VM w = m(i);
    std::unique_ptr<A> x;
    if (g.draw(6) == 0) {
      g.note("#%zu = move of #%u", v.size(), i); g.label("move-construct");
      x.reset(new A(std::move(a(i))));
      m(i) = get(a(i));  // unspecified but valid
      if (v.size() >= MAXA) v.erase(v.begin() + i);
    } else { g.note("#%zu = copy of #%u", v.size(), i); x.reset(new A(a(i))); room(); }
    add(std::move(x), w);
  }
  static VM sub(const VM& w, int64_t st, int64_t ln) {
    int64_t L = (int64_t)w.size();
    if (st >= L) return VM();
    if (st < 0) st = std::max<int64_t>(0, st + L);
    int64_t rest = L - st;
    if (ln == -1) ln = rest; else if (ln < 0) ln = std::max<int64_t>(0, rest + ln);
    ln = std::min(ln, rest);
    return VM(w.begin() + st, w.begin() + st + ln);
  }
  void genWin(unsigned i, int64_t& st, int64_t& ln) {
    int64_t L = (int64_t)m(i).size();
    st = g.draw(4) ? (int64_t)g.draw(L + 1) : g.range(-L - 2, L + 2);
    ln = g.draw(4) ? (int64_t)g.draw(L + 1) : g.range(-L - 2, L + 2);
  }
  void addSub(unsigned i) {
    int64_t st, ln; genWin(i, st, ln);
    VM w = sub(m(i), st, ln);
    g.note("#%zu = window (%ld, %ld) of #%u", v.size(), (long)st, (long)ln, i);
    std::unique_ptr<A> x;
    switch (g.draw(4)) {
      case 0: x.reset(new A(a(i).subarray(st, ln))); break;
      case 1: { const A& c = a(i); x.reset(new A(c(st, ln))); break; }
      case 2: x.reset(new A(a(i)(st, ln).get())); break;
      default: { x.reset(new A(a(i))); x->slice(st, ln); }
    }
    room();
    add(std::move(x), w);
  }
  void addConcat(unsigned i, unsigned j) {
    if (m(i).size() + m(j).size() > std::max<size_t>(2000, 2 * huge)) return;
    VM w = m(i); w.insert(w.end(), m(j).begin(), m(j).end());
    g.note("#%zu = #%u + #%u", v.size(), i, j);
    std::unique_ptr<A> x(new A(g.draw(3) ? a(i) + a(j) : A(a(i)) + A(a(j))));
    room();
    add(std::move(x), w);
  }
  void assign(unsigned i, unsigned j) {
    if (a(i).isShared()) ++sharedOps;
    switch (g.draw(7)) {
      case 0: case 1: g.note("#%u = #%u", i, j); a(i) = a(j); m(i) = VM(m(j)); break;
      case 2: { g.note("#%u = move(#%u)", i, j); VM w = m(j); a(i) = std::move(a(j)); if (i != j) { m(i) = w; m(j) = get(a(j)); } else { REQUIRE(get(a(i)) == w || a(i).isEmpty(), "self move left something else"); m(i) = get(a(i)); } g.label("move-assign"); break; }
      case 3: { g.note("swap #%u #%u", i, j); using std::swap; if (i == j) break; swap(a(i), a(j)); std::swap(m(i), m(j)); g.label("swap"); break; }
      case 4: { VM w = genList(6); g.note("#%u = temporary %s", i, show(w).c_str()); a(i) = fromList(w); m(i) = w; break; }
      case 5: { M x = E::gen(g), y = E::gen(g); g.note("#%u = {%s, %s}", i, E::show(x).c_str(), E::show(y).c_str()); a(i) = {E::make(g, x), E::make(g, y)}; m(i) = VM{x, y}; g.label("assign-init-list"); break; }
      default: g.note("clear #%u", i); a(i).clear(); m(i).clear();
    }
  }
  void window(unsigned i) {
    A& x = a(i);
    VM& w = m(i);
    if (!w.empty()) { ++wins; if (x.isShared()) { ++sharedOps; g.label("window-shared"); } }
    switch (g.draw(8)) {
      case 0: if (!w.empty()) { g.note("#%u shift", i); T t(x.shift()); REQUIRE(E::get(t) == w[0], "shift returned %s, expected %s", E::show(E::get(t)).c_str(), E::show(w[0]).c_str()); w.erase(w.begin()); } break;
      case 1: if (!w.empty()) { g.note("#%u pop", i); T t(x.pop()); REQUIRE(E::get(t) == w.back(), "pop returned %s, expected %s", E::show(E::get(t)).c_str(), E::show(w.back()).c_str()); w.pop_back(); } break;
      case 2: if (!w.empty()) { g.note("#%u >> item", i); T t; x >> t; REQUIRE(E::get(t) == w.back(), ">> gave %s, expected %s", E::show(E::get(t)).c_str(), E::show(w.back()).c_str()); w.pop_back(); } break;
      case 3: if (!w.empty()) { g.note("#%u pop_back", i); x.pop_back(); w.pop_back(); } break;
      case 4: { int64_t st, ln; genWin(i, st, ln); g.note("#%u slice(%ld, %ld)", i, (long)st, (long)ln); x.slice(st, ln); w = sub(w, st, ln); break; }
      case 5: { size_t n = g.draw(w.size() + 1); g.note("#%u resize(%zu) down", i, n); x.resize(n); w.resize(n); break; }
      default: opWindow(i, std::integral_constant<bool, std::is_same<T, int>::value>());
    }
  }
  // += n is ambiguous for Array<int> (and so ++): only the forms that compile
  void opWindow(unsigned i, std::true_type) { post(i); }
  void opWindow(unsigned i, std::false_type) {
    A& x = a(i);
    VM& w = m(i);
    switch (g.draw(5)) {
      case 0: { g.note("++#%u", i); const A& r = ++x; REQUIRE(&r == &x, "++ does not return the Array"); if (!w.empty()) w.erase(w.begin()); break; }
      case 1: { int n = (int)g.draw(w.size() + 3); g.note("#%u += %d", i, n); x += n; w.erase(w.begin(), w.begin() + std::min<size_t>(n, w.size())); break; }
      case 2: { int n = (int)g.draw(w.size() + 3); g.note("#%u -= %d", i, n); x -= n; w.erase(w.end() - std::min<size_t>(n, w.size()), w.end()); break; }
      default: post(i);
    }
  }
  void post(unsigned i) {
    A& x = a(i);
    VM& w = m(i);
    if (w.empty()) return;
    switch (g.draw(5)) {
      case 0: { g.note("--#%u", i); const A& r = --x; REQUIRE(&r == &x, "-- does not return the Array"); w.pop_back(); break; }
      case 1: { g.note("#%u++", i); A r(x++); expectA(r, VM(1, w.front()), "postfix ++"); w.erase(w.begin()); break; }
      case 2: { g.note("#%u--", i); A r(x--); expectA(r, VM(1, w.back()), "postfix --"); w.pop_back(); break; }
      case 3: { g.note("Array(#%u)++", i); A r(A(x)++); expectA(r, VM(1, w.front()), "postfix ++ of a temporary"); break; }
      default: { g.note("Array(#%u)--", i); A r(A(x)--); expectA(r, VM(1, w.back()), "postfix -- of a temporary"); }
    }
  }
  // things that only look, or work on temporaries: nothing changes
  void look(unsigned i) {
    A& x = a(i);
    const A& c = x;
    const VM& w = m(i);
    switch (g.draw(12)) {
      case 0: { g.note("iterate #%u", i); size_t k = 0; for (auto& e : c) { REQUIRE(k < w.size() && E::get(e) == w[k], "iteration shows the wrong item at %zu", k); ++k; } REQUIRE(k == w.size(), "iteration visits %zu of %zu items", k, w.size()); break; }
      case 1: { g.note("iterate #%u backwards", i); size_t k = w.size(); for (auto it = c.rbegin(); it != c.rend(); ++it) { REQUIRE(k > 0 && E::get(*it) == w[k - 1], "reverse iteration shows the wrong item"); --k; } REQUIRE(k == 0, "reverse iteration stops early"); break; }
      case 2: { g.note("iterate #%u (mutable)", i); size_t k = 0; for (auto it = x.begin(), e = x.end(); it != e; ++it) { REQUIRE(k < w.size() && E::get(*it) == w[k], "iteration shows the wrong item at %zu", k); ++k; } REQUIRE(k == w.size(), "iteration visits %zu of %zu items", k, w.size()); break; }
      case 3: { g.note("iterate #%u backwards (mutable)", i); size_t k = w.size(); for (auto it = x.rbegin(), e = x.rend(); it != e; ++it) { REQUIRE(k > 0 && E::get(*it) == w[k - 1], "reverse iteration shows the wrong item"); --k; } REQUIRE(k == 0, "reverse iteration stops early"); break; }
      case 4: { if (w.empty()) break; g.note("front/back of #%u", i); REQUIRE(E::get(c.front()) == w.front() && E::get(c.back()) == w.back(), "front or back wrong"); if (g.draw(2)) REQUIRE(E::get(x.front()) == w.front() && E::get(x.back()) == w.back(), "front or back wrong"); break; }
      case 5: { if (w.empty()) break; int64_t st, ln; genWin(i, st, ln); VM s = sub(w, st, ln); if (s.empty()) break;
        bool sh = g.draw(2); g.note("#%u.subarray(%ld, %ld).%s()", i, (long)st, (long)ln, sh ? "shift" : "pop"); g.label("temporary-pop");
        T t(sh ? x.subarray(st, ln).shift() : x.subarray(st, ln).pop());
        REQUIRE(E::get(t) == (sh ? s.front() : s.back()), "taking from a temporary gave %s", E::show(E::get(t)).c_str()); break; }
      case 6: { VM s = genList(5); if (s.empty()) break; g.note("temporary pop/shift"); T t(g.draw(2) ? T(fromList(s).pop()) : T(fromList(VM(s.rbegin(), s.rend())).shift())); REQUIRE(E::get(t) == s.back(), "taking from a temporary gave %s", E::show(E::get(t)).c_str()); break; }
      case 7: { size_t n = g.draw(4) ? w.size() + g.draw(20) : g.draw(w.size() + 1); g.note("#%u reserve(%zu)", i, n); if (g.draw(4) == 0) x.reserve(n, 1.5); else x.reserve(n); REQUIRE(x.capacity() >= n, "reserve(%zu) left a capacity of %zu", n, x.capacity()); g.label("reserve"); break; }
      case 8: { if (w.empty()) break; size_t k = g.draw(w.size()); g.note("read #%u[%zu]", i, k); REQUIRE(E::get(c[k]) == w[k] && E::get(c.at(k)) == w[k] && E::get(c.read(k)) == w[k] && E::get(x[k].get()) == w[k] && E::get(c.data()[k]) == w[k], "read of item %zu", k); break; }
      case 9: { if (w.empty()) break; g.note("mdata of #%u", i); T* p = x.mdata(); REQUIRE(E::get(p[w.size() - 1]) == w.back(), "mdata shows the wrong last item"); break; }
      case 10: { unsigned j = any(); eq(i, j); break; }
      default: { g.note("hash #%u", i); hashes(i); }
    }
  }
  void hashes(unsigned i) {
    size_t h = a(i).hash();
    A fresh;
    for (auto& e : m(i)) fresh.push_back(E::make(g, e));
    REQUIRE(h == fresh.hash(), "hash of #%u %s is %zu, a fresh equal Array has %zu", i, show(m(i)).c_str(), h, fresh.hash());
    REQUIRE(h == std::hash<A>()(a(i)), "std::hash differs from hash()");
  }
  void eq(unsigned i, unsigned j) {
    const A &x = a(i), &y = a(j);
    bool e = m(i) == m(j);
    g.note("#%u == #%u", i, j);
    REQUIRE((x == y) == e && (x != y) == !e && x.equals(y) == e, "equality of %s and %s: == %d, != %d, equals %d", show(m(i)).c_str(), show(m(j)).c_str(), x == y, x != y, x.equals(y));
    if (e) REQUIRE(x.hash() == y.hash(), "equal Arrays %s hash differently", show(m(i)).c_str());
    if (m(i).size() == m(j).size()) {
      size_t n = g.draw(m(i).size() + 2);
      bool en = std::equal(m(i).begin(), m(i).begin() + std::min(n, m(i).size()), m(j).begin());
      REQUIRE(x.equals(y, n) == en, "equals limited to %zu of %s and %s is %d", n, show(m(i)).c_str(), show(m(j)).c_str(), x.equals(y, n));
    }
  }
  void edit(unsigned i, unsigned j) {
    A& x = a(i);
    VM& w = m(i);
    ++edits;
    if (x.isShared() && !w.empty()) { ++sharedOps; g.label("edit-shared"); }
    if (w.size() > 3000) { x.clear(); w.clear(); g.note("clear #%u", i); return; }
    size_t L = w.size();
    size_t pos = g.draw(3) ? g.draw(L + 1) : (g.draw(2) ? L : 0);
    switch (g.draw(22)) {
      case 0: case 1: { M e = E::gen(g); g.note("#%u push_back %s", i, E::show(e).c_str()); T t(E::make(g, e)); switch (g.draw(4)) { case 0: x.push_back(t); break; case 1: x << t; break; case 2: x.append(t); break; default: x.push_back(std::move(t)); } w.push_back(e); break; }
      case 2: { M e = E::gen(g); g.note("#%u push_front %s", i, E::show(e).c_str()); T t(E::make(g, e)); if (g.draw(2)) x.push_front(t); else x.push_front(std::move(t)); w.insert(w.begin(), e); break; }
      case 3: { M e = E::gen(g); g.note("#%u insert(%zu, %s)", i, pos, E::show(e).c_str()); T t(E::make(g, e)); if (g.draw(2)) x.insert(pos, t); else x.insert(pos, std::move(t)); w.insert(w.begin() + pos, e); break; }
      case 4: { M e = E::gen(g); g.note("#%u insert(iterator at %zu, %s)", i, pos, E::show(e).c_str()); T t(E::make(g, e)); auto it = g.draw(2) ? x.insert(x.cbegin() + pos, t) : x.insert(x.cbegin() + pos, std::move(t)); w.insert(w.begin() + pos, e); REQUIRE(it - x.begin() == (ptrdiff_t)pos, "insert returned the wrong iterator"); g.label("insert-iterator"); break; }
      case 5: { VM s = genList(8); g.note("#%u insert(iterator at %zu, range %s)", i, pos, show(s).c_str()); std::vector<T> vv; for (auto& e : s) vv.push_back(E::make(g, e)); auto it = x.insert(x.cbegin() + pos, vv.begin(), vv.end()); w.insert(w.begin() + pos, s.begin(), s.end()); REQUIRE(it - x.begin() == (ptrdiff_t)pos, "insert returned the wrong iterator"); g.label("insert-range"); break; }
      case 6: case 7: { // insert another Array (perhaps itself)
        size_t n = g.draw(3) ? NPOS : g.draw(m(j).size() + 2);
        VM s(m(j).begin(), m(j).begin() + std::min(n, m(j).size()));
        g.note("#%u insert(%zu, #%u, %zd)", i, pos, j, (ssize_t)n);
        if (i == j) g.label("self-insert");
        if (n == NPOS) x.insert(pos, a(j)); else x.insert(pos, a(j), n);
        w.insert(w.begin() + pos, s.begin(), s.end()); break; }
      case 8: { VM s = genList(6); size_t n = g.draw(2) ? NPOS : g.draw(s.size() + 2); g.note("#%u insert(%zu, temporary %s, %zd)", i, pos, show(s).c_str(), (ssize_t)n); if (n == NPOS) x.insert(pos, fromList(s)); else x.insert(pos, fromList(s), n); s.resize(std::min(n, s.size())); w.insert(w.begin() + pos, s.begin(), s.end()); break; }
      case 9: { // insert a moved Array which others may share
        if (i == j) break;
        VM s = m(j);
        g.note("#%u insert(%zu, move(#%u))", i, pos, j); g.label("insert-moved");
        x.insert(pos, std::move(a(j)));
        w.insert(w.begin() + pos, s.begin(), s.end());
        m(j) = get(a(j));
        break; }
      case 10: { size_t n = g.draw(3) ? NPOS : g.draw(m(j).size() + 2); VM s(m(j).begin(), m(j).begin() + std::min(n, m(j).size())); g.note("#%u append(#%u, %zd)", i, j, (ssize_t)n); if (n == NPOS) { if (g.draw(2)) x += a(j); else x.append(a(j)); } else x.append(a(j), n); w.insert(w.end(), s.begin(), s.end()); break; }
      case 11: { VM s = genList(6); g.note("#%u += temporary %s", i, show(s).c_str()); if (g.draw(2)) x += fromList(s); else x.append(fromList(s)); w.insert(w.end(), s.begin(), s.end()); break; }
      case 12: { // one of its own elements
        if (w.empty()) break;
        size_t k = g.draw(L); M e = w[k];
        const A& c = x;
        g.label("own-element");
        switch (g.draw(6)) {
          case 0: g.note("#%u push_back(own item %zu)", i, k); x.push_back(c[k]); w.push_back(e); break;
          case 1: g.note("#%u push_front(own item %zu)", i, k); x.push_front(c.at(k)); w.insert(w.begin(), e); break;
          case 2: g.note("#%u insert(%zu, own item %zu)", i, pos, k); x.insert(pos, c[k]); w.insert(w.begin() + pos, e); break;
          case 3: g.note("#%u replace(%zu, own item %zu)", i, pos, k); x.replace(pos, c[k]); if (pos == L) w.push_back(e); else w[pos] = e; break;
          case 4: { size_t p = g.draw(L); g.note("#%u[%zu] = own item %zu", i, p, k); x[p] = c[k]; w[p] = e; break; }
          default: { size_t p = g.draw(L); g.note("#%u[%zu] = #%u[%zu]", i, p, i, k); x[p] = x[k]; w[p] = e; }
        }
        break; }
      case 13: { M e = E::gen(g); g.note("#%u replace(%zu, %s)", i, pos, E::show(e).c_str()); T t(E::make(g, e)); if (g.draw(2)) x.replace(pos, t); else x.replace(pos, std::move(t)); if (pos == L) w.push_back(e); else w[pos] = e; break; }
      case 14: case 15: { bool self = g.draw(3) == 0; VM s; size_t n;
        if (self) { n = g.draw(2) ? NPOS : g.draw(m(j).size() + 2); s = m(j); g.note("#%u replace(%zu, #%u, %zd)", i, pos, j, (ssize_t)n); if (n == NPOS && g.draw(2)) x.replace(pos, a(j)); else x.replace(pos, a(j), n); }
        else { s = genList(8); n = g.draw(2) ? NPOS : g.draw(s.size() + 2); g.note("#%u replace(%zu, %s, %zd)", i, pos, show(s).c_str(), (ssize_t)n); A y(fromList(s)); A keep(y); if (g.draw(2)) x.replace(pos, y, n); else x.replace(pos, std::move(y), n); expectA(keep, s, "the argument of replace"); }
        s.resize(std::min(n, s.size()));
        for (size_t k = 0; k < s.size(); ++k) { if (pos + k < w.size()) w[pos + k] = s[k]; else w.push_back(s[k]); }
        break; }
      case 16: { size_t n = L + g.draw(12); M e = E::gen(g); g.note("#%u resize(%zu, %s)", i, n, E::show(e).c_str()); x.resize(n, E::make(g, e)); w.resize(n, e); g.label("resize-value"); break; }
      case 17: { size_t n = L + g.draw(12); g.note("#%u resize(%zu) up", i, n); x.resize(n); fillNew(x, L, n, w); g.label("resize-up"); break; }
      case 18: { if (w.empty()) break; size_t p = g.draw(L); M e = E::gen(g); g.note("#%u[%zu] = %s", i, p, E::show(e).c_str()); T t(E::make(g, e)); switch (g.draw(5)) { case 0: x[p] = t; break; case 1: x[p] = std::move(t); break; case 2: x.write(p, t); break; case 3: x[p].mget() = t; break; default: x.write(p, std::move(t)); } w[p] = e; break; }
      case 19: { if (w.empty()) break; M e = E::gen(g); T t(E::make(g, e)); switch (g.draw(5)) { case 0: g.note("#%u.front() = %s", i, E::show(e).c_str()); x.front() = t; w.front() = e; break; case 1: g.note("#%u.back() = %s", i, E::show(e).c_str()); x.back() = t; w.back() = e; break; case 2: { size_t p = g.draw(L); g.note("*(#%u.begin() + %zu) = %s", i, p, E::show(e).c_str()); *(x.begin() + p) = t; w[p] = e; break; } case 3: { size_t p = g.draw(L); g.note("#%u.mdata()[%zu] = %s", i, p, E::show(e).c_str()); x.mdata()[p] = t; w[p] = e; break; } default: { size_t p = g.draw(L); g.note("*(#%u.rbegin() + %zu) = %s", i, p, E::show(e).c_str()); *(x.rbegin() + p) = t; w[L - 1 - p] = e; } } g.label("write-through"); break; }
      case 20: { if (m(j).empty() || w.empty()) break; size_t p = g.draw(L), k = g.draw(m(j).size()); g.note("#%u[%zu] = #%u[%zu]", i, p, j, k); M e = m(j)[k]; x[p] = a(j)[k]; w[p] = e; break; }
      default: { // slice assignment
        VM s = genList(6); int64_t st = (int64_t)g.draw(L + 1); size_t n = g.draw(s.size() + 2);
        g.note("#%u(%ld, %zu) = %s", i, (long)st, n, show(s).c_str());
        A y(fromList(s)); if (g.draw(2)) x(st, (ssize_t)n) = y; else x(st, (ssize_t)n) = std::move(y);
        s.resize(std::min(n, s.size()));
        for (size_t k = 0; k < s.size(); ++k) { if (st + k < w.size()) w[st + k] = s[k]; else w.push_back(s[k]); }
        g.label("slice-assign"); }
    }
  }
  // resize() without a value: what the new items hold is not specified, but they are there; give them values
  void fillNew(A& x, size_t from, size_t to, VM& w) {
    REQUIRE(x.length() == to, "resize(%zu) gave length %zu", to, x.length());
    for (size_t k = from; k < to; ++k) { M e = E::gen(g); x[k] = E::make(g, e); w.push_back(e); }
  }
  void step(bool winHeavy) {
    if (v.empty()) { addNew(); return; }
    unsigned i = any(), j = any();
    switch (g.draw(winHeavy ? 24 : 18)) {
      case 0: addNew(); break;
      case 1: destroy(i); break;
      case 2: assign(i, j); break;
      case 3: addConcat(i, j); break;
      case 4: case 5: look(i); break;
      case 6: case 7: window(i); break;
      case 8: addSub(i); break;
      case 9: case 10: addCopy(i); break;
      case 11: case 12: case 13: case 14: case 15: case 16: case 17: edit(i, j); break;
      default: window(i);
    }
  }
};

#endif
