// C28: objects sharing storage used by different threads.
// C28.* run the operations on cooperative threads (fibers) whose every switch is a generated choice; the
// *-threads parts run the same operations on real threads under ThreadSanitizer.
#include "strworld.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <atomic>
#include <thread>
#include <functional>
#ifdef PBT_ASAN
#include <sanitizer/common_interface_defs.h>
#endif
namespace sched { void (*point)() = nullptr; }

// ---- fibers -------------------------------------------------------------------
namespace {
const size_t STK = 256 * 1024;
struct Fiber { ucontext_t c; void* stack = nullptr; bool done = false; void* fake = nullptr; bool inLib = false; std::function<void()> body; };
struct Sched {
  Src* g = nullptr;
  std::vector<Fiber*> f;
  ucontext_t main;
  void* mainFake = nullptr;
  const void* mainBottom = nullptr;
  size_t mainSize = 0;
  int cur = -1;
  unsigned switches = 0, points = 0;
  bool failed = false;
  pbt::Fail fail;
} S;
bool inLib = false;
unsigned held = 0;  // locks held by the running thread: no other one runs until they are released, so none ever waits
const unsigned MANY = 20000;  // points after which threads take turns, so that one waiting for another gets on

void swap(ucontext_t* from, ucontext_t* to, void** fake, const void* bottom, size_t size) {
#ifdef PBT_ASAN
  __sanitizer_start_switch_fiber(fake, bottom, size);
#endif
  swapcontext(from, to);
#ifdef PBT_ASAN
  const void* b; size_t n;
  __sanitizer_finish_switch_fiber(fake ? *fake : nullptr, &b, &n);
  if (S.cur < 0) {} else if (!S.mainBottom) { S.mainBottom = b; S.mainSize = n; }
#endif
}
void resume(int to) {  // from the main context
  S.cur = to;
  inLib = S.f[to]->inLib;
  swap(&S.main, &S.f[to]->c, &S.mainFake, S.f[to]->stack, STK);
  S.cur = -1;
}
void toMain() {
  Fiber* me = S.f[S.cur];
  me->inLib = inLib;
  void** fake = me->done ? nullptr : &me->fake;
  swap(&me->c, &S.main, fake, S.mainBottom, S.mainSize);
}
void entry() {
#ifdef PBT_ASAN
  const void* b; size_t n;
  __sanitizer_finish_switch_fiber(nullptr, &b, &n);
  S.mainBottom = b; S.mainSize = n;
#endif
  Fiber* me = S.f[S.cur];
  try { me->body(); } catch (const pbt::Fail& e) { S.failed = true; S.fail = e; } catch (const std::exception& e) { S.failed = true; snprintf(S.fail.msg, sizeof S.fail.msg, "unexpected exception: %s", e.what()); }
  me->done = true;
  toMain();
  abort();
}
void point() {  // a place where another thread may run
  if (S.cur < 0 || !inLib || S.failed || held) return;
  if (++S.points < MANY && S.g->draw(3) != 2) return;
  toMain();
}
void allocHook(size_t) { pbt::mem::onAlloc = allocHook; point(); }
void freeHook(void*, size_t) { pbt::mem::onFree = freeHook; point(); }

void runFibers(Src& g, std::vector<std::function<void()>> bodies) {
  static void* stacks[8];
  S = Sched();
  S.g = &g;
  std::vector<std::unique_ptr<Fiber>> fs;
  for (size_t i = 0; i < bodies.size(); ++i) {
    if (!stacks[i]) stacks[i] = mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    fs.emplace_back(new Fiber());
    Fiber* f = fs.back().get();
    f->stack = stacks[i];
    f->body = bodies[i];
    getcontext(&f->c);
    f->c.uc_stack.ss_sp = f->stack;
    f->c.uc_stack.ss_size = STK;
    f->c.uc_link = nullptr;
    makecontext(&f->c, (void (*)())entry, 0);
    S.f.push_back(f);
  }
  sched::point = point;
  pbt::mem::onAlloc = allocHook;
  pbt::mem::onFree = freeHook;
  int last = 0;
  unsigned turn = 0;
  held = 0;
  for (;;) {
    std::vector<int> live;  // harness allocations: inLib is false here
    bool save = inLib;
    inLib = false;
    for (size_t i = 0; i < S.f.size(); ++i) if (!S.f[i]->done) live.push_back((int)i);
    if (live.empty() || S.failed) break;
    int nxt = S.points < MANY ? live[g.draw(live.size())] : live[++turn % live.size()];
    if (nxt != last) ++S.switches;
    last = nxt;
    inLib = save;
    resume(nxt);
  }
  inLib = false;
  sched::point = nullptr;
  pbt::mem::onAlloc = nullptr;
  pbt::mem::onFree = nullptr;
  S.cur = -1;
  if (S.failed) { for (auto& f : fs) f.release(); throw S.fail; }
}
}  // namespace
#ifndef SCHED_REAL_THREADS
// A thread holding a lock, or initialising a static, is not interrupted.
extern "C" {
int __wrap___cxa_guard_acquire(int64_t* g) { if (*(char*)g) return 0; ++held; return 1; }
void __wrap___cxa_guard_release(int64_t* g) { *(char*)g = 1; if (held) --held; }
void __wrap___cxa_guard_abort(int64_t*) { if (held) --held; }
#define LOCK(f, T) int __real_##f(T*); int __wrap_##f(T* m) { int r = __real_##f(m); if (!r) ++held; return r; }
#define UNLOCK(f, T) int __real_##f(T*); int __wrap_##f(T* m) { int r = __real_##f(m); if (held) --held; return r; }
LOCK(pthread_mutex_lock, pthread_mutex_t) LOCK(pthread_mutex_trylock, pthread_mutex_t) UNLOCK(pthread_mutex_unlock, pthread_mutex_t)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_t) LOCK(pthread_rwlock_wrlock, pthread_rwlock_t) LOCK(pthread_rwlock_tryrdlock, pthread_rwlock_t)
LOCK(pthread_rwlock_trywrlock, pthread_rwlock_t) UNLOCK(pthread_rwlock_unlock, pthread_rwlock_t)
LOCK(pthread_spin_lock, pthread_spinlock_t) UNLOCK(pthread_spin_unlock, pthread_spinlock_t)
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { ++held; int r = __real_pthread_once(o, f); if (held) --held; return r; }
}
#endif
#ifdef SCHED_REAL_THREADS
struct Lib { Lib() {} ~Lib() {} };
#else
struct Lib { bool s; Lib() : s(inLib) { inLib = true; } ~Lib() { inLib = s; } };
#endif
#define L(x) do { Lib lib_; x; } while (0)

// ---- the operations -------------------------------------------------------------
struct Y {  // element whose copying can be interrupted
  int v;
  Y() : v(0) {}
  Y(int x) : v(x) {}
  Y(const Y& o) : v(o.v) { sched::yield(); v = o.v; }
  Y(Y&& o) noexcept : v(o.v) { sched::yield(); o.v = -1; }
  Y& operator=(const Y& o) { sched::yield(); v = o.v; return *this; }
  Y& operator=(Y&& o) noexcept { sched::yield(); v = o.v; if (&o != this) o.v = -1; return *this; }
  bool operator==(const Y& o) const { return v == o.v; }
  bool operator!=(const Y& o) const { return v != o.v; }
  bool operator<(const Y& o) const { return v < o.v; }
};
namespace std { template <> struct hash<Y> { size_t operator()(const Y& y) const { return y.v; } }; }

struct Op { unsigned kind, i, j; size_t n, m; int c; };
static const unsigned KINDS = 22;
static const char* const opName[KINDS] = {"read", "copy", "destroy", "append", "write", "truncate", "view", "clear", "assign", "c_str/pop", "insert", "hash", "begin", "drop front", "drop back/shift", "reserve", "move", "put", "take", "split/join", "front/back", "append object"};
static Op genOp(Src& g) { Op o; o.kind = (unsigned)g.draw(KINDS); o.i = (unsigned)g.draw(4); o.j = (unsigned)g.draw(4); o.n = g.draw(12); o.m = g.draw(8); o.c = (int)g.draw(26); return o; }

struct WS {  // Strings
  typedef BS T;
  typedef SS M;
  static M gen(Src& g) { M m; size_t n = 1 + g.draw(9); for (size_t i = 0; i < n; ++i) m += (char)('a' + g.draw(3)); if (g.draw(3) == 0) m.insert(m.size() / 2, " "); return m; }
  static T* make(Src& g, const M& m) { switch (g.draw(3)) { case 0: return new T(m); case 1: return new T(m.begin(), m.end()); default: { T* t = new T((size_t)40); *t += m.c_str(); return t; } } }
  static bool same(const T& t, const M& m) { return ::same(t, m); }
  static SS show(const T& t) { return q(val(t)); }
  static SS showM(const M& m) { return q(m); }
  static char el(const Op& o) { return (char)('A' + o.c); }
};
template <class E> struct EL;
template <> struct EL<int> { static int mk(int c) { return c; } static int rd(const int& e) { return e; } };
template <> struct EL<Y> { static Y mk(int c) { return Y(c); } static int rd(const Y& e) { return e.v; } };
template <> struct EL<BS> {
  static BS shared(int c) { return BS(SS(1 + c % 5, (char)('a' + c))); }
  static BS mk(int c) { return shared(c); }
  static int rd(const BS& e) { SS s = val(e); for (char x : s) if (x != s[0]) return -2; return s.empty() ? -1 : (s.size() == size_t(1 + (s[0] - 'a') % 5) ? s[0] - 'a' : -3); }
};
template <class E> struct WA {
  typedef bd::Array<E> T;
  typedef std::vector<int> M;
  static M gen(Src& g) { M m; size_t n = 1 + g.draw(6); for (size_t i = 0; i < n; ++i) m.push_back((int)g.draw(26)); return m; }
  static T* make(Src& g, const M& m) { T* t = g.draw(2) ? new T() : new T(m.size() + g.draw(4)); for (int x : m) t->push_back(EL<E>::mk(x)); return t; }
  static bool same(const T& t, const M& m) { if (t.length() != m.size()) return false; for (size_t i = 0; i < m.size(); ++i) if (EL<E>::rd(t[i]) != m[i]) return false; return true; }
  static SS show(const T& t) { SS s = "("; for (size_t i = 0; i < t.length() && i < 40; ++i) s += std::to_string(EL<E>::rd(t[i])) + " "; return s + ")"; }
  static SS showM(const M& m) { SS s = "("; for (int x : m) s += std::to_string(x) + " "; return s + ")"; }
};
static void special(BS& t, SS& m, const Op& o, std::vector<std::pair<std::unique_ptr<BS>, SS>>& extra) {
  switch (o.kind) {
    case 3: { char c = WS::el(o); if (o.n % 2) { L(t += c); m += c; } else { SS x(o.n, c); L(t += x.c_str()); m += x; } break; }
    case 4: { if (m.empty()) break; size_t p = o.n % m.size(); char c = WS::el(o); L(t[p] = c); m[p] = c; break; }
    case 9: { const char* p = nullptr; L(p = t.c_str()); REQUIRE(m == p, "c_str() gives %s, expected %s", q(SS(p)).c_str(), q(m).c_str()); break; }
    case 10: { size_t p = o.n % (m.size() + 1); char c = WS::el(o); L(t.insert(p, c)); m.insert(p, 1, c); break; }
    case 12: { if (m.empty()) break; char c = WS::el(o); L(*t.begin() = c); m[0] = c; break; }
    case 13: { size_t k = o.n % (m.size() + 1); L(t += k); m.erase(0, k); break; }
    case 14: { size_t k = o.n % (m.size() + 1); L(t -= k); m.erase(m.size() - k); break; }
    case 19: {
      if (m.empty()) break;
      std::unique_ptr<bd::Array<BS>> a;
      L(a.reset(new bd::Array<BS>(t.split(" "))));
      SS joined;
      { const bd::Array<BS>& ca = *a; for (size_t i = 0; i < ca.length(); ++i) joined += val(ca[i]); }
      SS want;
      for (char c : m) if (c != ' ') want += c;
      REQUIRE(joined == want, "split pieces hold %s, expected %s", q(joined).c_str(), q(want).c_str());
      if (extra.size() < 4 && want.size() && a->length() == 1) { std::unique_ptr<BS> piece; L(piece.reset(new BS(static_cast<const bd::Array<BS>&>(*a)[0]))); extra.emplace_back(std::move(piece), want); }
      L(a.reset());
      break;
    }
    case 20: { if (m.empty()) break; char c = WS::el(o); if (o.n % 2) { L(t.front() = c); m[0] = c; } else { L(t.back() = c); m.back() = c; } break; }
    default: break;
  }
}
template <class E> static void special(bd::Array<E>& t, std::vector<int>& m, const Op& o, std::vector<std::pair<std::unique_ptr<bd::Array<E>>, std::vector<int>>>&) {
  const int c = o.c;
  switch (o.kind) {
    case 3: { E e = EL<E>::mk(c); if (o.n % 2) L(t.push_back(e)); else L(t << e); m.push_back(c); break; }
    case 4: { if (m.empty()) break; size_t p = o.n % m.size(); E e = EL<E>::mk(c); L(t[p] = e); m[p] = c; break; }
    case 9: { if (m.empty()) break; int x = 0; L(x = EL<E>::rd(t.pop())); REQUIRE(x == m.back(), "pop() gives %d, expected %d", x, m.back()); m.pop_back(); break; }
    case 10: { size_t p = o.n % (m.size() + 1); E e = EL<E>::mk(c); L(t.insert(p, e)); m.insert(m.begin() + p, c); break; }
    case 12: { if (m.empty()) break; E e = EL<E>::mk(c); L(*t.begin() = e); m[0] = c; break; }
    case 13: case 14: { if (m.empty()) break; int x = 0; L(x = EL<E>::rd(t.shift())); REQUIRE(x == m.front(), "shift() gives %d, expected %d", x, m.front()); m.erase(m.begin()); break; }
    case 19: break;
    case 20: { if (m.empty()) break; E e = EL<E>::mk(c); if (o.n % 2) { L(t.front() = e); m[0] = c; } else { L(t.back() = e); m.back() = c; } break; }
    default: break;
  }
}
template <class W> struct Side {  // what one thread owns
  typedef typename W::T T;
  typedef typename W::M M;
  std::vector<std::pair<std::unique_ptr<T>, M>> v;
};
template <class W> struct Mail { std::atomic<std::pair<typename W::T*, typename W::M>*> slot{nullptr}; };

template <class W> static void step(Side<W>& s, const Op& o, std::atomic<std::pair<typename W::T*, typename W::M>*>* mail, unsigned tid) {
  typedef typename W::T T;
  typedef typename W::M M;
  typedef std::pair<T*, M> Msg;
  if (o.kind == 18) {
    Msg* p = nullptr;
    { p = mail[o.j % 2].exchange(nullptr); }
    if (p) { s.v.emplace_back(std::unique_ptr<T>(p->first), p->second); delete p; }
  }
  if (s.v.empty()) return;
  size_t i = o.i % s.v.size(), j = o.j % s.v.size();
  T& t = *s.v[i].first;
  M& m = s.v[i].second;
  switch (o.kind) {
    case 1: if (s.v.size() < 5) { std::unique_ptr<T> n; if (o.n % 2) L(n.reset(new T(t))); else { n.reset(new T()); L(*n = t); } M mm(m); s.v.emplace_back(std::move(n), mm); } break;
    case 2: { std::unique_ptr<T> d(std::move(s.v[i].first)); s.v.erase(s.v.begin() + i); L(d.reset()); return; }
    case 5: { if (m.empty()) break; size_t k = o.n % m.size(); L(t.resize(k)); m.resize(k); break; }
    case 6: if (s.v.size() < 5 && !m.empty()) { size_t a = o.n % m.size(), k = o.m % (m.size() - a + 1); std::unique_ptr<T> n; L(n.reset(new T(t((ssize_t)a, (ssize_t)k)))); s.v.emplace_back(std::move(n), M(m.begin() + a, m.begin() + a + k)); } break;
    case 7: L(t.clear()); m.clear(); break;
    case 8: L(t = *s.v[j].first); m = M(s.v[j].second); break;
    case 11: { size_t h = 0, h2 = 0; L(h = t.hash()); T* f = nullptr; (void)f; const T& c = t; bool eq = false; L(eq = c == *s.v[j].first); REQUIRE(eq == (m == s.v[j].second), "comparison gives %d", eq); L(h2 = t.hash()); REQUIRE(h == h2, "the hash changed"); break; }
    case 15: L(t.reserve(o.n * 4)); break;
    case 16: if (i != j) { L(t = std::move(*s.v[j].first)); m = s.v[j].second; std::unique_ptr<T> d(std::move(s.v[j].first)); s.v.erase(s.v.begin() + j); L(d.reset()); return; } break;
    case 17: { Msg* p = nullptr; std::unique_ptr<T> n; L(n.reset(new T(t))); p = new Msg(n.release(), m); Msg* old = mail[o.j % 2].exchange(p); if (old) { if (s.v.size() < 5) s.v.emplace_back(std::unique_ptr<T>(old->first), old->second); else L(delete old->first); delete old; } break; }
    case 21: { T* b = s.v[j].first.get(); if (m.size() + s.v[j].second.size() > 60) break; M x = s.v[j].second; L(t += *b); m.insert(m.end(), x.begin(), x.end()); break; }
    default: { decltype(s.v) extra; special(t, m, o, extra); for (auto& e : extra) if (s.v.size() < 5) s.v.push_back(std::move(e)); break; }
  }
  for (size_t k = 0; k < s.v.size(); ++k)
    if (!W::same(*s.v[k].first, s.v[k].second))
      pbt::fail("after %s thread %u sees %s in its object %zu, expected %s", opName[o.kind], tid, W::show(*s.v[k].first).c_str(), k, W::showM(s.v[k].second).c_str());
}
template <class W> struct Case {
  std::vector<Side<W>> side;
  std::vector<std::vector<Op>> ops;
  std::atomic<std::pair<typename W::T*, typename W::M>*> mail[2];
  Case(Src& g, unsigned maxT, unsigned maxOps) {
    typedef typename W::T T;
    typedef typename W::M M;
    mail[0] = nullptr; mail[1] = nullptr;
    unsigned nt = 2 + (unsigned)g.draw(maxT - 1);
    side.resize(nt);
    ops.resize(nt);
    M m = W::gen(g);
    std::unique_ptr<T> base(W::make(g, m));
    g.note("base %s", W::showM(m).c_str());
    for (unsigned t = 0; t < nt; ++t) {
      for (unsigned k = 1 + (unsigned)g.draw(2); k-- > 0;) {
        if (g.draw(3)) side[t].v.emplace_back(std::unique_ptr<T>(new T(*base)), m);
        else { size_t a = g.draw(m.size()), n = g.draw(m.size() - a + 1); side[t].v.emplace_back(std::unique_ptr<T>(new T((*base)((ssize_t)a, (ssize_t)n))), M(m.begin() + a, m.begin() + a + n)); }
      }
      unsigned n = 1 + (unsigned)g.draw(maxOps);
      for (unsigned k = 0; k < n; ++k) { ops[t].push_back(genOp(g)); g.note("thread %u: %s %u %u %zu %zu", t, opName[ops[t][k].kind], ops[t][k].i, ops[t][k].j, ops[t][k].n, ops[t][k].m); }
    }
    if (g.draw(3)) side[0].v.emplace_back(std::move(base), m);
    for (auto& s : side) for (auto& o : s.v) REQUIRE(W::same(*o.first, o.second), "preparation");
  }
  void run(unsigned t) { for (auto& o : ops[t]) step<W>(side[t], o, mail, t); }
  void finish(unsigned t) { while (!side[t].v.empty()) { std::unique_ptr<typename W::T> d(std::move(side[t].v.back().first)); side[t].v.pop_back(); L(d.reset()); } }
  void clearMail() { for (auto& s : mail) { auto* p = s.exchange(nullptr); if (p) { delete p->first; delete p; } } }
};
#ifndef SCHED_REAL_THREADS
template <class W> static void fibers(Src& g) {
  long b0 = 0;
  S = Sched();
  b0 = pbt::mem::liveBlocks();
  {
    Case<W> c(g, 3, 4);
    std::vector<std::function<void()>> b;
    bool endInside = g.draw(2);
    for (unsigned t = 0; t < c.side.size(); ++t) b.push_back([&c, t, endInside] { c.run(t); if (endInside) c.finish(t); });
    runFibers(g, b);
    g.note("%u scheduling points, %u switches", S.points, S.switches);
    if (S.switches > c.side.size()) g.nontrivial();
    if (S.switches > 20) g.label("many-switches");
    c.clearMail();
    for (unsigned t = 0; t < c.side.size(); ++t) {
      for (auto& o : c.side[t].v) REQUIRE(W::same(*o.first, o.second), "at the end thread %u has %s, expected %s", t, W::show(*o.first).c_str(), W::showM(o.second).c_str());
      c.finish(t);
    }
  }
  S = Sched();
  long b1 = pbt::mem::liveBlocks();
  BALANCE(b0 == b1, "%ld blocks leaked", b1 - b0);
}
PROPERTY("C28.String", "Strings under generated schedules", fibers<WS>, 120000, 4000000, false, "2-4 threads with 1-4 operations each on Strings sharing a buffer, a possible switch before and after every reference count access, allocation and release; non-trivial when threads were interleaved");
PROPERTY("C28.array-int", "Array<int> under generated schedules", fibers<WA<int>>, 60000, 2000000, false, "as C28.String for Array<int>");
PROPERTY("C28.array-Y", "Arrays of interruptible elements under generated schedules", fibers<WA<Y>>, 60000, 2000000, false, "as C28.String, with switches also during every element copy");
PROPERTY("C28.array-String", "Array<String> under generated schedules", fibers<WA<BS>>, 60000, 2000000, false, "as C28.String for Array<String>");
#else
template <class W> static void threads(Src& g) {
  Case<W> c(g, 3, 20);
  std::vector<std::thread> ts;
  std::atomic<unsigned> ready{0};
  std::vector<std::string> bad(c.side.size());
  unsigned n = (unsigned)c.side.size();
  for (unsigned t = 0; t < n; ++t)
    ts.emplace_back([&, t] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < n) {}
      try { c.run(t); } catch (const pbt::Fail& f) { bad[t] = f.msg; } catch (...) { bad[t] = "unexpected exception"; }
      c.finish(t);
    });
  for (auto& t : ts) t.join();
  c.clearMail();
  g.nontrivial();
  for (auto& b : bad) REQUIRE(b.empty(), "%s", b.c_str());
}
PROPERTY("C28.String-threads", "Strings on real threads", threads<WS>, 10000, 400000, false, "2-4 real threads with 1-20 operations each on Strings sharing a buffer, under ThreadSanitizer; every case is non-trivial");
PROPERTY("C28.array-int-threads", "Array<int> on real threads", threads<WA<int>>, 5000, 150000, false, "as C28.String-threads for Array<int>");
PROPERTY("C28.array-String-threads", "Array<String> on real threads", threads<WA<BS>>, 6000, 150000, false, "as C28.String-threads for Array<String>");
#endif
