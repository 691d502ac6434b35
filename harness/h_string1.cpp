// C01 isolation, C02 edits, C05 exports, C07 order/hash, C10 windows, C12 lifetimes (Strings)
#include "strworld.h"
#include <sstream>

static void step(StrWorld& w, Src& g, bool shareHeavy) {
  if (w.v.empty()) { w.addNew(); return; }
  unsigned i = w.any(), j = w.any();
  switch (g.draw(shareHeavy ? 22 : 16)) {
    case 0: w.addNew(); break;
    case 1: w.destroy(i); break;
    case 2: case 3: w.assign(i, j); break;
    case 4: w.addConcat(i, j); break;
    case 5: case 6: w.look(i); break;
    case 7: case 8: w.window(i); break;
    case 9: case 10: case 11: case 12: w.edit(i, j); break;
    case 13: case 14: case 15: w.addCopy(i); break;
    case 16: case 17: case 18: w.addSub(i); break;
    case 19: w.addCopy(i); break;
    default: w.edit(i, j); break;
  }
}

static void c01(Src& g) {
  StrWorld w(g, g.draw(8) ? 200 : 5000);
  w.addNew();
  if (g.draw(2)) w.addCopy(0);
  w.verify("construction");
  unsigned n = 0;
  while (g.more(24) && n < 120) { step(w, g, true); ++n; w.verify("step"); }
  if (w.sharedOps) g.nontrivial();
  // destroy in generated order, the rest must keep their values
  while (!w.v.empty()) { w.destroy(w.any()); w.verify("destruction"); }
}
PROPERTY("C01", "String value isolation over histories", c01, 60000*15, 1500000*15, false,
    "random history over a pool of up to 7 Strings; non-trivial when at least one edit hit a String that shared its storage");

// Prepare one target in some storage state, then a few edits with all kinds of arguments.
static void prep(StrWorld& w, Src& g) {
  w.addNew();
  unsigned n = (unsigned)g.draw(4);
  for (unsigned k = 0; k < n; ++k) {
    switch (g.draw(6)) {
      case 0: w.addCopy(w.any()); break;
      case 1: w.addSub(w.any()); break;
      case 2: w.window(w.any()); break;
      case 3: w.S(0).reserve(w.M(0).size() + g.draw(40)); g.note("#0.reserve"); break;
      case 4: w.addNew(); break;
      default: w.look(w.any()); break;
    }
  }
}
static void c02(Src& g) {
  StrWorld w(g, g.draw(12) ? 400 : 70000);
  prep(w, g);
  w.verify("preparation");
  unsigned t = w.any();
  unsigned n = 0;
  do {
    unsigned j = g.draw(4) == 0 ? t : w.any();
    w.edit(t, j);
    w.verify("edit");
    // the text must also be right after a terminator was asked for
    if (g.draw(4) == 0) { w.look(t); w.verify("look"); }
  } while (g.more(3) && ++n < 20);
  if (!w.M(t).empty()) g.nontrivial();
}
PROPERTY("C02", "String edit results", c02, 120000*15, 3000000*15, false,
    "edits on a target prepared by a random construction/sharing/window path; non-trivial when the final text is non-empty");

// every export of every String in every state
static void exportsOf(StrWorld& w, Src& g, unsigned i) {
  const BS& s = w.S(i);
  const SS m = w.M(i);
  switch (g.draw(7)) {
    case 0: case 1: {
      g.note("c_str #%u", i);
      const char* p = s.c_str();
      REQUIRE(p != nullptr, "c_str returned null");
      REQUIRE(memcmp(p, m.data(), m.size()) == 0, "c_str shows %s, expected %s", q(p, m.size()).c_str(), q(m).c_str());
      REQUIRE(p[m.size()] == 0, "c_str not terminated at %zu", m.size());
      const char* p2 = *s;
      REQUIRE(memcmp(p2, m.data(), m.size()) == 0 && p2[m.size()] == 0, "operator* differs from c_str");
      break;
    }
    case 2: {
      g.note("dup #%u", i);
      std::unique_ptr<char[]> d(s.dup());
      REQUIRE(SS(d.get(), m.size()) == m && d[m.size()] == 0, "dup shows %s, expected %s", q(d.get(), m.size()).c_str(), q(m).c_str());
      break;
    }
    case 3: {
      size_t n = w.nFor(m.size());
      size_t want = std::min(n, m.size());
      g.note("copy #%u, %zd", i, (ssize_t)n);
      std::unique_ptr<char[]> d(new char[want + 2]);
      memset(d.get(), 0x5c, want + 2);
      size_t r = n == NPOS && g.draw(2) ? s.copy(d.get()) : s.copy(d.get(), n);
      REQUIRE(r == want, "copy(%zd) returned %zu, expected %zu", (ssize_t)n, r, want);
      REQUIRE(SS(d.get(), want) == m.substr(0, want), "copy wrote %s", q(d.get(), want).c_str());
      REQUIRE(d[want] == 0x5c && d[want + 1] == 0x5c, "copy(%zd) wrote past its limit", (ssize_t)n);
      break;
    }
    case 4: { g.note("std::string #%u", i); SS t = s; REQUIRE(t == m, "std::string shows %s, expected %s", q(t).c_str(), q(m).c_str()); break; }
    case 5: { g.note("ostream #%u", i); std::ostringstream os; os << s; REQUIRE(os.str() == m, "stream shows %s, expected %s", q(os.str()).c_str(), q(m).c_str()); break; }
    default: {
      g.note("ostream temporary of #%u", i);
      std::ostringstream os;
      os << BS(m);
      REQUIRE(os.str() == m, "stream of a temporary shows %s", q(os.str()).c_str());
      REQUIRE(m.empty() || memcmp(s.data(), m.data(), m.size()) == 0, "data() differs");
    }
  }
}
static void c05(Src& g) {
  StrWorld w(g, g.draw(10) ? 100 : 70000);
  prep(w, g);
  w.verify("preparation");
  unsigned n = 0;
  while (g.more(12) && n++ < 60) {
    if (w.v.empty()) w.addNew();
    unsigned i = w.any();
    switch (g.draw(10)) {
      case 0: w.addCopy(i); break;
      case 1: w.addSub(i); break;
      case 2: w.window(i); break;
      case 3: w.edit(i, w.any()); break;
      case 4: if (g.draw(3) == 0) w.addNew(); else w.assign(i, w.any()); break;
      default:
        if (w.M(i).size() && (w.S(i).isShared() || w.S(i).capacity() <= w.M(i).size())) g.nontrivial();
        if (w.M(i).size() && w.S(i).isShared()) g.label("export-shared");
        if (w.M(i).size() && w.S(i).capacity() == w.M(i).size()) g.label("export-exactly-full");
        exportsOf(w, g, i);
    }
    w.verify("export step");
  }
}
PROPERTY("C05", "C-string and raw exports", c05, 80000*15, 2000000*15, false,
    "random states, then exports; non-trivial when a non-empty shared or exactly full String is exported");

// ---- C07 -------------------------------------------------------------------
static int sgn(int64_t x) { return x < 0 ? -1 : x > 0; }
static int refcmp(const SS& a, const SS& b) {  // unsigned bytes, shorter is less
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
  return a.size() < b.size() ? -1 : a.size() > b.size();
}
static void cmpPair(Src& g, const BS& a, const SS& x, const BS& b, const SS& y) {
  int r = refcmp(x, y);
  REQUIRE(sgn(a.compare(b)) == r, "compare(%s, %s) = %d, expected sign %d", q(x).c_str(), q(y).c_str(), a.compare(b), r);
  REQUIRE((a == b) == (r == 0) && (a != b) == (r != 0) && (a < b) == (r < 0) && (a <= b) == (r <= 0) && (a > b) == (r > 0) && (a >= b) == (r >= 0),
      "relational operators inconsistent for %s, %s (==%d !=%d <%d <=%d >%d >=%d)", q(x).c_str(), q(y).c_str(), a == b, a != b, a < b, a <= b, a > b, a >= b);
  if (r == 0) REQUIRE(a.hash() == b.hash(), "equal texts %s hash differently", q(x).c_str());
  // limited
  size_t n;
  switch (g.draw(4)) { case 0: n = 0; break; case 1: n = std::max(x.size(), y.size()) + g.draw(3); break; default: n = g.draw(std::max(x.size(), y.size()) + 1); }
  int rn = refcmp(x.substr(0, std::min(n, x.size())), y.substr(0, std::min(n, y.size())));
  REQUIRE(sgn(a.compare(b, n)) == rn, "compare(%s, %s, %zu) = %d, expected sign %d", q(x).c_str(), q(y).c_str(), n, a.compare(b, n), rn);
  // C strings: only the text up to the first NUL counts on the right
  SS z = y.substr(0, y.find('\0'));
  // exact-size heap copy so that reading past the terminator is seen
  std::unique_ptr<char[]> cz(new char[z.size() + 1]);
  memcpy(cz.get(), z.c_str(), z.size() + 1);
  int rc = refcmp(x, z);
  REQUIRE(sgn(a.compare(cz.get())) == rc, "compare(%s, C string %s) = %d, expected sign %d", q(x).c_str(), q(z).c_str(), a.compare(cz.get()), rc);
  const char* p = cz.get();
  REQUIRE((a == p) == (rc == 0) && (a != p) == (rc != 0) && (a < p) == (rc < 0) && (a <= p) == (rc <= 0) && (a > p) == (rc > 0) && (a >= p) == (rc >= 0),
      "relational operators with C strings inconsistent for %s, %s", q(x).c_str(), q(z).c_str());
  int rcn = refcmp(x.substr(0, std::min(n, x.size())), z.substr(0, std::min(n, z.size())));
  REQUIRE(sgn(a.compare(p, n)) == rcn, "compare(%s, C string %s, %zu) = %d, expected sign %d", q(x).c_str(), q(z).c_str(), n, a.compare(p, n), rcn);
}
static SS similar(Src& g, const SS& m) {
  SS t = m;
  switch (g.draw(6)) {
    case 0: break;
    case 1: if (!t.empty()) t[g.draw(t.size())] = (char)g.draw(256); break;
    case 2: if (!t.empty()) t.pop_back(); break;
    case 3: t += (char)g.draw(256); break;
    case 4: if (!t.empty()) t[g.draw(t.size())] ^= (char)0x80; break;
    default: t += SS(1, '\0');
  }
  return t;
}
static void c07(Src& g) {
  StrWorld w(g, g.draw(12) ? 60 : 3000);
  w.addNew();
  unsigned n = 0;
  bool queried = false;
  while (g.more(16) && n++ < 80) {
    if (w.v.empty()) w.addNew();
    unsigned i = w.any(), j = w.any();
    switch (g.draw(9)) {
      case 0: { if (w.v.size() < StrWorld::MAXS) { SS t = similar(g, w.M(i)); StrWorld::Slot sl; sl.m = t; sl.s.reset(new BS(t)); g.note("#%zu = String(%s)", w.v.size(), q(t).c_str()); w.v.push_back(std::move(sl)); } break; }
      case 1: w.addCopy(i); break;
      case 2: w.addSub(i); break;
      case 3: case 4: { if (w.S(i).length() && queried) g.nontrivial(); w.edit(i, j); break; }
      case 5: w.window(i); break;
      case 6: w.assign(i, j); break;
      default: break;
    }
    if (w.v.empty()) continue;
    // query hashes at random times so that a cached value may become stale
    for (unsigned k = 0; k < w.v.size(); ++k) if (g.draw(3) == 0) {
      queried = true;
      g.note("hash #%u", k);
      size_t h = w.S(k).hash();
      BS fresh(w.M(k));
      REQUIRE(h == fresh.hash(), "hash of #%u (%s) is %zu, a fresh equal String has %zu", k, q(w.M(k)).c_str(), h, fresh.hash());
      REQUIRE(h == std::hash<BS>()(w.S(k)), "std::hash differs from hash()");
    }
    if (g.draw(3) == 0) { unsigned a = w.any(), b = w.any(); g.note("compare #%u #%u", a, b); cmpPair(g, w.S(a), w.M(a), w.S(b), w.M(b)); }
    w.verify("step");
  }
  for (unsigned a = 0; a < w.v.size(); ++a) for (unsigned b = 0; b < w.v.size(); ++b) cmpPair(g, w.S(a), w.M(a), w.S(b), w.M(b));
}
PROPERTY("C07", "String order, equality and hash", c07, 40000*15, 1000000*15, false,
    "random histories with hashes queried at random points and all pairs compared at the end; non-trivial when a non-empty String was edited after some hash was queried");

static void c07pairs(Src& g) {
  SS x = g.bytes2(40, 5000), y = g.draw(3) ? similar(g, x) : g.bytes2(40, 3000);
  if (g.draw(3) == 0) y = similar(g, y);
  SS px = g.bytes2(5, 300), py = g.bytes2(5, 300);
  // put one or both behind a window
  BS a(g.draw(2) ? BS(x) : BS(px + x + py)(px.size(), x.size()).get());
  if (!same(a, x)) a = BS(x);
  BS b(y);
  if (g.draw(3) == 0) { BS t(px + y + py); b = t(px.size(), y.size()); }
  if (!same(b, y)) b = BS(y);
  g.note("pair %s / %s", q(x).c_str(), q(y).c_str());
  if (!x.empty() && !y.empty()) g.nontrivial();
  cmpPair(g, a, x, b, y);
  cmpPair(g, b, y, a, x);
  cmpPair(g, a, x, a, x);
}
PROPERTY("C07.pairs", "pairwise comparison", c07pairs, 150000*15, 3000000*15, false, "pairs of similar texts, plain or behind windows; non-trivial when both are non-empty");

// ---- C10 -------------------------------------------------------------------
static void c10(Src& g) {
  StrWorld w(g, g.draw(20) ? 60 : 3000);
  static const SS ws(" \t\n\r\v\f", 6);
  SS t = g.bytesOver2(ws, 6, 600) + g.bytes2(30, 3000) + g.bytesOver2(ws, 6, 600);
  StrWorld::Slot sl;
  sl.m = t;
  sl.s.reset(new BS(t));
  g.note("#0 = String(%s)", q(t).c_str());
  w.v.push_back(std::move(sl));
  unsigned n = 0, wins = 0;
  while (g.more(14) && n++ < 60) {
    if (w.v.empty()) w.addNew();
    unsigned i = w.any();
    switch (g.draw(12)) {
      case 0: w.addCopy(i); break;
      case 1: w.addSub(i); break;
      case 2: { // non-mutating forms
        const BS& c = w.S(i);
        SS m = w.M(i);
        g.note("const trim/chomp of #%u", i);
        BS a(c.trim()), b(c.chomp());
        expect(a, ref::trim(m), "const trim");
        expect(b, ref::chomp(m), "const chomp");
        break;
      }
      case 3: { g.note("append whitespace to #%u", i); SS x = g.bytesOver(ws, 3); w.S(i) += BS(x); w.M(i) += x; break; }
      case 4: w.edit(i, w.any()); break;
      case 5: w.look(i); break;
      case 6: { SS x = g.bytesOver(ws, 3); g.note("insert whitespace into #%u", i); w.S(i).insert(size_t(0), BS(x)); w.M(i).insert(0, x); break; }
      default: if (w.M(i).size()) ++wins; w.window(i);
    }
    w.verify("step");
  }
  if (wins >= 2) g.nontrivial();
}
PROPERTY("C10", "String trimming and window operators", c10, 60000*15, 1500000*15, false,
    "chains of trim, chomp, front/back drops, increments mixed with edits and copies; non-trivial when at least two window operations hit non-empty Strings");

// ---- C12 (Strings) -----------------------------------------------------------
static void c12s(Src& g) {
  long b0 = pbt::mem::liveBlocks(), y0 = pbt::mem::liveBytes();
  bool nt = false;
  {
    pbt::mem::track(true);
    StrWorld w(g, g.draw(8) ? 100 : 5000);
    w.addNew();
    unsigned n = 0;
    while (g.more(20) && n < 100) {
      step(w, g, true);
      ++n;
      w.verify("step");
      w.verifyCounts("step");
    }
    if (w.sharedOps) nt = true;
    while (!w.v.empty()) { w.destroy(w.any()); w.verify("destruction"); w.verifyCounts("destruction"); }
  }
  pbt::mem::track(false);
  BALANCE(pbt::mem::liveBlocks() == b0, "%ld blocks still allocated after every String was destroyed", pbt::mem::liveBlocks() - b0);
  BALANCE(pbt::mem::liveBytes() == y0, "%ld bytes still allocated after every String was destroyed", pbt::mem::liveBytes() - y0);
  if (nt) g.nontrivial();
}
PROPERTY("C12.string", "String storage balance and reference counts", c12s, 40000*15, 1000000*15, false,
    "random histories with reference counts checked after every step and allocation balance at the end; non-trivial when an edit hit shared storage");

// ---- the same at scale: texts beyond 64 KiB, and storage shared by hundreds or tens of thousands of Strings ----------
struct Crowd {
  std::vector<BS> v;
  SS m, part;
  size_t every = 0;  // every so many members is a slice holding `part`
  void verify(const char* what) {
    for (size_t i = 0; i < v.size(); ++i) {
      const SS& x = every && i % every == 0 ? part : m;
      if (!same(v[i], x)) pbt::fail("after %s: sharer %zu of %zu is %s, expected %s", what, i, v.size(), q(val(v[i])).c_str(), q(x).c_str());
    }
  }
};
enum { ISOLATION, EDITS, EXPORTS, HASHES, WINDOWS, LIFETIME };
static void exportsOf(StrWorld& w, Src& g, unsigned i);
static void atScale(Src& g, int kind) {
  StrWorld w(g, 400000);
  w.large = true;
  w.addNew();
  if (g.draw(2)) w.addNew();
  if (g.draw(2)) w.addCopy(w.any());
  Crowd c;
  if (g.draw(kind == ISOLATION || kind == LIFETIME ? 2 : 4) == 0) {
    unsigned i = w.any();
    size_t n = g.crowd();
    if (n > 2000 && w.M(i).size() > 64) { w.S(i) = "shared text"; w.M(i) = "shared text"; }
    if (w.M(i).size() > 5000) n = n % 300;
    c.m = w.M(i);
    c.every = g.draw(2) ? 3 + g.draw(5) : 0;
    size_t a = g.draw(c.m.size() + 1), b = g.draw(c.m.size() - a + 1);
    c.part = c.m.substr(a, b);
    g.note("%zu more sharers of #%u%s", n, i, c.every ? ", some of them slices" : "");
    g.label("crowd");
    c.v.reserve(n);
    for (size_t k = 0; k < n; ++k) if (c.every && k % c.every == 0) c.v.push_back(BS(w.S(i).substring((ssize_t)a, (ssize_t)b))); else c.v.push_back(w.S(i));
    if (n > 100) g.nontrivial();
  }
  unsigned n = 0;
  do {
    if (w.v.empty()) w.addNew();
    unsigned i = w.any(), j = w.any();
    if (w.M(i).size() > 4096) { g.nontrivial(); g.label("large-target"); }
    switch (kind) {
      case ISOLATION: case LIFETIME: step(w, g, true); break;
      case EDITS: w.edit(i, j); break;
      case EXPORTS: if (g.draw(3)) exportsOf(w, g, i); else w.edit(i, j); break;
      case HASHES: {
        g.note("hash #%u", i);
        size_t h = w.S(i).hash();
        REQUIRE(h == BS(w.M(i)).hash() && h == std::hash<BS>()(w.S(i)), "hash of #%u (%zu bytes) differs from a fresh equal String's", i, w.M(i).size());
        REQUIRE((w.S(i) == w.S(j)) == (w.M(i) == w.M(j)), "#%u == #%u is wrong", i, j);
        REQUIRE((w.S(i) < w.S(j)) == (w.M(i) < w.M(j)), "#%u < #%u is wrong", i, j);
        w.edit(i, j);
        if (i < w.v.size()) REQUIRE(w.S(i).hash() == BS(w.M(i)).hash(), "hash of #%u (%zu bytes) is stale", i, w.M(i).size());
        break;
      }
      default: w.window(i); if (g.draw(3) == 0) w.edit(i, j); break;
    }
    w.verify("step");
    c.verify("step");
    if (g.draw(6) == 0 && !c.v.empty()) { size_t k = g.draw(c.v.size()); g.note("drop %zu sharers", c.v.size() - k); c.v.resize(k); w.verify("drop"); c.verify("drop"); }
  } while (g.more(6) && ++n < 20);
  while (!w.v.empty()) { w.destroy(w.any()); c.verify("destruction"); }
}
static void c01scale(Src& g) { atScale(g, ISOLATION); }
PROPERTY("C01.scale", "String value isolation at scale", c01scale, 9000, 300000, false,
    "histories over texts up to 400 kB and storage shared by up to 65539 Strings; non-trivial when a text beyond 4 KiB is touched or more than 100 Strings share");
static void c02scale(Src& g) { atScale(g, EDITS); }
PROPERTY("C02.scale", "String edits at scale", c02scale, 9000, 300000, false, "as C01.scale, edits only");
static void c05scale(Src& g) { atScale(g, EXPORTS); }
PROPERTY("C05.scale", "exports at scale", c05scale, 6000, 200000, false, "as C01.scale, with exports");
static void c07scale(Src& g) { atScale(g, HASHES); }
PROPERTY("C07.scale", "hash and comparison at scale", c07scale, 6000, 200000, false, "as C01.scale, with hashes and comparisons around every edit");
static void c10scale(Src& g) { atScale(g, WINDOWS); }
PROPERTY("C10.scale", "trimming and windows at scale", c10scale, 6000, 200000, false, "as C01.scale, with window operations");
static void c12scale(Src& g) {
  long b0 = pbt::mem::liveBlocks(), y0 = pbt::mem::liveBytes();
  pbt::mem::track(true);
  atScale(g, LIFETIME);
  pbt::mem::track(false);
  BALANCE(pbt::mem::liveBlocks() == b0, "%ld blocks still allocated after every String was destroyed", pbt::mem::liveBlocks() - b0);
  BALANCE(pbt::mem::liveBytes() == y0, "%ld bytes still allocated after every String was destroyed", pbt::mem::liveBytes() - y0);
}
PROPERTY("C12.string-scale", "String storage balance at scale", c12scale, 6000, 200000, false, "as C01.scale, with the allocation balance at the end");

// ---- lengths that do not fit 31 or 32 bits; the storage is one small range of pages mapped over and over ----------------------------------
struct Huge {
  Src& g;
  BS a;
  size_t n;
  explicit Huge(Src& g_) : g(g_), n(0) {
    pbt::mem::refuseAbove = size_t(1) << 34;
    pbt::mem::mirror = true;
    size_t e = size_t(1) << (31 + !g.draw(3));
    n = e + (g.draw(2) ? g.draw(5) : g.draw(200000000)) - (g.draw(2) ? g.draw(5) : 0);
    while (n % (size_t(3) << 20) < 4096) n += 4096;  // the byte after the text must not be one of its first ones as well
    try { a.resize(n); } catch (const std::bad_alloc&) { g.label("not-enough-memory"); n = 0; a.clear(); }
    REQUIRE(a.length() == n && a.size() == n, "a String of %zu bytes has length %zu", n, a.length());
    g.note("String of %zu bytes", n);
    if (n) g.nontrivial();
  }
  ~Huge() { pbt::mem::refuseAbove = 0; pbt::mem::mirror = false; }
};
static void c07huge(Src& g) {
  Huge h(g);
  if (!h.n) return;
  h.a[0] = 'm'; h.a[1] = 'm'; h.a[2] = 'm';
  unsigned k = 0;
  while (g.more(12) && k++ < 60) {
    static const SS ts[] = {"", "m", "mm", "mmm", "a", "ma", "mma", "z", "mz", "mmz", SS("\0", 1), SS("m\0", 2)};
    SS t = ts[g.draw(12)];
    size_t len = g.draw(3) ? h.n : h.n - g.draw(1000);
    BS big(h.a.substring(0, (ssize_t)len)), b(t);
    size_t lim = NPOS;
    bool limited = g.draw(2);
    if (limited) switch (g.draw(5)) { case 0: lim = len; break; case 1: lim = (size_t(1) << (31 + g.draw(3))) + g.draw(3) - 1; break; case 2: lim = len - 1 - g.draw(10); break; case 3: lim = len + g.draw(10); break; default: lim = g.draw(5); }
    SS head = SS("mmm").substr(0, std::min<size_t>(3, lim)), tl = t.substr(0, std::min(t.size(), lim));
    int want = refcmp(head.substr(0, std::min(head.size(), tl.size())), tl.substr(0, std::min(head.size(), tl.size())));
    if (!want) { size_t x = std::min(len, lim), y = std::min(t.size(), lim); want = x < y ? -1 : x > y; }
    int c1 = limited ? big.compare(b, lim) : big.compare(b), c2 = limited ? b.compare(big, lim) : b.compare(big);
    g.note("compare %zu bytes with %s, limit %zd", len, q(t).c_str(), (ssize_t)lim);
    REQUIRE(sgn(c1) == want && sgn(c2) == -want, "comparing %zu bytes \"mmm...\" with %s, limit %zd: %d and %d, expected sign %d", len, q(t).c_str(), (ssize_t)lim, c1, c2, want);
    if (!limited) {
      REQUIRE((big == b) == (want == 0) && (big != b) == (want != 0) && (big < b) == (want < 0) && (big <= b) == (want <= 0) && (big > b) == (want > 0) && (big >= b) == (want >= 0), "relational operators inconsistent for %zu bytes and %s", len, q(t).c_str());
      REQUIRE((b == big) == (want == 0) && (b < big) == (want > 0) && (b > big) == (want < 0), "relational operators inconsistent for %s and %zu bytes", q(t).c_str(), len);
    }
    if (t.find('\0') == SS::npos) { int c3 = limited ? big.compare(t.c_str(), lim) : big.compare(t.c_str()); REQUIRE(sgn(c3) == want, "comparing %zu bytes with C string %s, limit %zd: %d, expected sign %d", len, q(t).c_str(), (ssize_t)lim, c3, want); }
  }
}
PROPERTY("C07.huge", "comparison of Strings beyond 2 GiB", c07huge, 16, 300, false, "Strings of 2 to 4.5 GiB against short ones; non-trivial when the address space can be had");
static void c10huge(Src& g) {
  Huge h(g);
  if (!h.n) return;
  BS& a = h.a;
  const char* base = static_cast<const BS&>(a).data();
  size_t off = 0, len = h.n;
  unsigned k = 0;
  StrWorld w(g, 10);
  while (g.more(14) && k++ < 60) {
    size_t d = g.draw(3) ? g.draw(1000) : g.draw(len + 2);
    switch (g.draw(7)) {
      case 0: g.note("+= %zu", d); a += d; if (d > len) d = len; off += d; len -= d; break;
      case 1: g.note("-= %zu", d); a -= d; len -= std::min(d, len); break;
      case 2: if (len) { g.note("++"); ++a; ++off; --len; } break;
      case 3: if (len) { g.note("--"); --a; --len; } break;
      case 4: case 5: {
        int64_t st = w.startFor(len), ln = w.lenFor(len), L = (int64_t)len, s2 = st, n2 = ln;
        if (s2 >= L) { s2 = 0; n2 = 0; } else { if (s2 < 0) s2 = std::max<int64_t>(0, s2 + L); int64_t rest = L - s2; n2 = ln == -1 ? rest : ln < 0 ? std::max<int64_t>(0, rest + ln) : std::min(ln, rest); }
        g.note("window (%lld, %lld) of %zu", (long long)st, (long long)ln, len);
        BS v(g.draw(2) ? a.substring(st, ln) : a(st, ln).get());
        REQUIRE(v.length() == (size_t)n2 && (n2 == 0 || static_cast<const BS&>(v).data() == base + off + s2), "window (%lld, %lld) of %zu bytes starts at %td and has %zu bytes, expected %lld and %lld", (long long)st, (long long)ln, len,
            n2 && v.length() ? static_cast<const BS&>(v).data() - (base + off) : 0, v.length(), (long long)s2, (long long)n2);
        break;
      }
      default: if (len) {
        size_t i = g.draw(2) ? g.draw(len) : len - 1 - g.draw(std::min<size_t>(len, 100));
        char c = (char)g.draw(256);
        g.note("[%zu] = %d", i, c);
        if (g.draw(2)) a[i] = c; else a.write(i, c);
        const BS& ca = a;
        REQUIRE(ca.data() == base + off, "a write to the only owner moved the text");
        REQUIRE(base[off + i] == c && ca.at(i) == c && ca[i] == c && ca.read(i) == c, "the byte written at %zu of %zu is not there", i, len);
        BS one(a.substring((ssize_t)i, 1));
        REQUIRE(one.length() == 1 && one == SS(1, c), "the window at %zu does not show the byte written there", i);
      }
    }
    const BS& ca = a;
    REQUIRE(ca.length() == len && (!len || ca.data() == base + off), "the text has %zu bytes at %td, expected %zu at %zu", ca.length(), len ? ca.data() - base : 0, len, off);
    size_t past = len + g.draw(3);
    bool threw = false;
    try { (void)ca.at(past); } catch (const std::out_of_range&) { threw = true; }
    REQUIRE(threw, "at(%zu) of %zu bytes did not throw", past, len);
  }
}
PROPERTY("C10.huge", "windows of Strings beyond 2 GiB", c10huge, 16, 300, false, "drops, windows and single writes on Strings of 2 to 4.5 GiB; non-trivial when the address space can be had");
