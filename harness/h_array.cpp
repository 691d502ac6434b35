// C03 Arrays as independent sequences, C07 Array equality/hash, C10 Array windows, C12 Array element lifetimes
#include "arrworld.h"

template <class T> static void c03(Src& g) {
  g_err[0] = 0;
  ArrWorld<T> w(g, g.draw(15) ? 20 : 400);
  w.addNew();
  w.verify("construction");
  unsigned n = 0;
  while (g.more(20) && n++ < 100) { w.step(false); w.verify("step"); }
  if (w.sharedOps) g.nontrivial();
  while (!w.v.empty()) { w.destroy(w.any()); w.verify("destruction"); }
}
PROPERTY("C03.int", "Array<int> histories", c03<int>, 220000, 20000000, false, "random history over a pool of up to 6 Arrays against vectors; non-trivial when an operation changed an Array that shared its storage");
PROPERTY("C03.String", "Array<String> histories", c03<BS>, 100000, 12000000, false, "as C03.int");
PROPERTY("C03.Tracked", "Array of a class type, histories", c03<Tracked>, 200000, 12000000, false, "as C03.int");
PROPERTY("C03.nested", "Array<Array<String>> histories", c03<bd::Array<BS>>, 30000, 6000000, false, "as C03.int");

template <class T> static void c10a(Src& g) {
  g_err[0] = 0;
  ArrWorld<T> w(g, 30);
  w.addNew();
  unsigned n = 0;
  while (g.more(16) && n++ < 80) { w.step(true); w.verify("step"); }
  if (w.wins >= 2) g.nontrivial();
}
PROPERTY("C10.array-String", "Array<String> windows", c10a<BS>, 90000, 10000000, false, "histories heavy in shift, pop, ++, --, +=, -=, slice and resize; non-trivial when at least two hit non-empty Arrays");
PROPERTY("C10.array-int", "Array<int> windows", c10a<int>, 200000, 10000000, false, "as C10.array-String");

template <class T> static void c07a(Src& g) {
  g_err[0] = 0;
  ArrWorld<T> w(g, 12);
  w.addNew();
  unsigned n = 0;
  bool queried = false;
  while (g.more(14) && n++ < 60) {
    unsigned before = w.edits;
    w.step(false);
    if (w.edits != before && queried) g.nontrivial();
    if (w.v.empty()) continue;
    for (unsigned k = 0; k < w.v.size(); ++k) if (g.draw(3) == 0) { g.note("hash #%u", k); w.hashes(k); queried = true; }
    if (g.draw(3) == 0) w.eq(w.any(), w.any());
  }
  for (unsigned x = 0; x < w.v.size(); ++x) for (unsigned y = 0; y < w.v.size(); ++y) w.eq(x, y);
}
PROPERTY("C07.array-String", "Array<String> equality and hash", c07a<BS>, 60000, 8000000, false, "random histories with hashes queried at random points, all pairs compared at the end; non-trivial when an edit followed a hash query");
PROPERTY("C07.array-int", "Array<int> equality and hash", c07a<int>, 120000, 10000000, false, "as C07.array-String");
PROPERTY("C07.array-nested", "Array<Array<String>> equality and hash", c07a<bd::Array<BS>>, 20000, 3000000, false, "as C07.array-String");

template <class T> static void c12a(Src& g) {
  g_err[0] = 0;
  long live0 = g_live;
  long b0 = pbt::mem::liveBlocks(), y0 = pbt::mem::liveBytes();
  bool nt = false;
  {
    pbt::mem::track(true);
    ArrWorld<T> w(g, g.draw(15) ? 20 : 200);
    w.addNew();
    unsigned n = 0;
    while (g.more(18) && n++ < 80) { w.step(false); w.verify("step"); w.verifyCounts("step"); }
    nt = w.sharedOps;
    while (!w.v.empty()) { w.destroy(w.any()); w.verify("destruction"); w.verifyCounts("destruction"); }
  }
  pbt::mem::track(false);
  REQUIRE(!g_err[0], "%s", g_err);
  BALANCE(g_live == live0, "%ld more elements were constructed than destroyed", g_live - live0);
  BALANCE(pbt::mem::liveBlocks() == b0, "%ld blocks still allocated after every Array was destroyed", pbt::mem::liveBlocks() - b0);
  BALANCE(pbt::mem::liveBytes() == y0, "%ld bytes still allocated after every Array was destroyed", pbt::mem::liveBytes() - y0);
  if (nt) g.nontrivial();
}
PROPERTY("C12.array-Tracked", "element lifetimes in Arrays", c12a<Tracked>, 120000, 10000000, false, "random histories over Arrays of self-checking elements; non-trivial when shared storage was changed");
PROPERTY("C12.array-String", "Array<String> storage balance", c12a<BS>, 50000, 6000000, false, "as C12.array-Tracked with Strings");
PROPERTY("C12.array-nested", "Array<Array<String>> storage balance", c12a<bd::Array<BS>>, 20000, 3000000, false, "as C12.array-Tracked with Arrays of Strings");

// ---- tables ---------------------------------------------------------------------
static void c12t(Src& g) {
  g_err[0] = 0;
  long live0 = g_live, b0 = pbt::mem::liveBlocks(), y0 = pbt::mem::liveBytes();
  unsigned removed = 0;
  {
    typedef bd::HashTable<Tracked, Tracked> H;
    std::vector<std::unique_ptr<H>> v;
    v.reserve(5);
    v.emplace_back(new H());
    unsigned n = 0;
    while (g.more(30) && n++ < 120) {
      unsigned i = (unsigned)g.draw(v.size());
      H& h = *v[i];
      int k = (int)g.draw(12), x = (int)g.draw(100);
      switch (g.draw(12)) {
        case 0: case 1: g.note("#%u insert %d", i, k); h.insert(Tracked(k), Tracked(x)); break;
        case 2: case 3: g.note("#%u[%d] = %d", i, k, x); h[Tracked(k)] = Tracked(x); break;
        case 4: case 5: g.note("#%u remove %d", i, k); if (h.remove(Tracked(k))) ++removed; break;
        case 6: g.note("#%u getValue %d", i, k); { Tracked t(h.getValue(Tracked(k))); (void)t; } break;
        case 7: g.note("copy #%u", i); if (v.size() < 4) v.emplace_back(new H(h)); break;
        case 8: g.note("assign"); { unsigned j = (unsigned)g.draw(v.size()); *v[j] = h; } break;
        case 9: g.note("clear #%u", i); h.clear(); break;
        case 10: g.note("move #%u", i); if (v.size() < 4) v.emplace_back(new H(std::move(h))); break;
        default: if (v.size() > 1) { g.note("destroy #%u", i); v.erase(v.begin() + i); }
      }
      REQUIRE(!g_err[0], "%s", g_err);
    }
  }
  REQUIRE(!g_err[0], "%s", g_err);
  BALANCE(g_live == live0, "%ld more elements were constructed than destroyed", g_live - live0);
  BALANCE(pbt::mem::liveBlocks() == b0 && pbt::mem::liveBytes() == y0, "%ld blocks, %ld bytes still allocated after every table was destroyed", pbt::mem::liveBlocks() - b0, pbt::mem::liveBytes() - y0);
  if (removed) g.nontrivial();
}
PROPERTY("C12.table", "element lifetimes in HashTables", c12t, 80000, 6000000, false, "random histories over tables of self-checking keys and values; non-trivial when something was removed");

// ---- at scale: Arrays beyond 65536 elements, and storage shared by up to tens of thousands of Arrays ----------------
enum { PLAIN, HASHES, WINDOWS };
template <class T> static void atScale(Src& g, size_t huge, int kind) {
  typedef ArrWorld<T> W;
  g_err[0] = 0;
  W w(g, 400);
  w.huge = huge;
  w.addNew();
  if (g.draw(2)) w.addNew();
  std::vector<bd::Array<T>> crowd;
  typename W::VM cm;
  if (g.draw(2) == 0) {
    unsigned i = w.any();
    size_t n = g.crowd();
    if (n > 2000 && w.m(i).size() > 4) { w.m(i).resize(4); w.a(i).resize(4); }
    if (w.m(i).size() > 20) n = n % 300;
    if (w.m(i).size() > 400) n = n % 20;
    cm = w.m(i);
    g.note("%zu more sharers of #%u", n, i);
    g.label("crowd");
    crowd.reserve(n);
    for (size_t k = 0; k < n; ++k) crowd.push_back(w.a(i));
    if (n > 100) g.nontrivial();
  }
  unsigned n = 0;
  auto check = [&](const char* what) {
    w.verify(what);
    for (size_t k = 0; k < crowd.size(); ++k) W::expectA(crowd[k], cm, "a sharer");
  };
  do {
    for (auto& s : w.v) if (s.m.size() > 2000) { g.nontrivial(); g.label("large-target"); }
    w.step(kind == WINDOWS);
    check("step");
    if (kind == HASHES && !w.v.empty()) { unsigned i = w.any(); g.note("hash #%u", i); w.hashes(i); w.eq(i, w.any()); }
    for (unsigned i = 0; i < w.v.size(); ++i) if (w.m(i).size() > 2 * huge + 5000) { w.destroy(i); break; }
    if (g.draw(6) == 0 && !crowd.empty()) { size_t k = g.draw(crowd.size()); g.note("drop %zu sharers", crowd.size() - k); crowd.resize(k); check("drop"); }
  } while (g.more(5) && ++n < 12);
  while (!w.v.empty()) { w.destroy(w.any()); check("destruction"); }
}
template <class T, size_t N> static void c03s(Src& g) { atScale<T>(g, N, PLAIN); }
PROPERTY("C03.int-scale", "Array<int> at scale", (c03s<int, 140000>), 2000, 100000, false, "histories over Arrays up to 140000 elements and storage shared by up to 65539 Arrays; non-trivial when an Array beyond 2000 elements is around or more than 100 share");
PROPERTY("C03.String-scale", "Array<String> at scale", (c03s<BS, 9000>), 700, 20000, false, "as C03.int-scale, up to 9000 Strings");
template <class T, size_t N> static void c07s(Src& g) { atScale<T>(g, N, HASHES); }
PROPERTY("C07.array-int-scale", "Array<int> equality and hash at scale", (c07s<int, 140000>), 1200, 20000, false, "as C03.int-scale, with hashes and comparisons");
template <class T, size_t N> static void c10s(Src& g) { atScale<T>(g, N, WINDOWS); }
PROPERTY("C10.array-int-scale", "Array<int> windows at scale", (c10s<int, 140000>), 1500, 20000, false, "as C03.int-scale, windows");
static void c12s(Src& g) {
  long live0 = g_live, b0 = pbt::mem::liveBlocks(), y0 = pbt::mem::liveBytes();
  pbt::mem::track(true);
  atScale<Tracked>(g, 9000, PLAIN);
  pbt::mem::track(false);
  REQUIRE(!g_err[0], "%s", g_err);
  BALANCE(g_live == live0, "%ld more elements were constructed than destroyed", g_live - live0);
  BALANCE(pbt::mem::liveBlocks() == b0 && pbt::mem::liveBytes() == y0, "%ld blocks, %ld bytes still allocated after every Array was destroyed", pbt::mem::liveBlocks() - b0, pbt::mem::liveBytes() - y0);
}
PROPERTY("C12.array-scale", "element lifetimes at scale", c12s, 500, 20000, false, "as C03.int-scale over self-checking elements, with balance at the end");
