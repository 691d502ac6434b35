// C04 slices, C06 searching, C08 split/join, C09 substitution, C11 position checks, C13 wiping, C26 printf, C27 iostreams
#include "strworld.h"
#include "placed.h"
#include "Stream.h"
#include <sstream>
#include <cstdio>

// A String with the given text in some storage state (plain, view with text around it, shared, slack, full).
// ---- C04 ------------------------------------------------------------------
static int64_t anyIndex(Src& g, size_t L) {
  switch (g.draw(10)) {
    case 0: return INT64_MAX - (int64_t)g.draw(3);
    case 1: return INT64_MIN + (int64_t)g.draw(3);
    case 2: return (int64_t)1 << g.draw(63);
    case 3: return -((int64_t)1 << g.draw(63));
    case 4: return (int64_t)L + g.range(-2, 2);
    case 5: return -(int64_t)L + g.range(-2, 2);
    case 6: return g.range(-3, 3);
    default: return g.range(-(int64_t)L - 3, (int64_t)L + 3);
  }
}
static void c04s(Src& g) {
  SS t = g.bytes2(24, 3000);
  Placed p = place(g, t);
  g.note("source %s", q(t).c_str());
  // chain of windows
  BS cur(p.s);
  SS m(t);
  unsigned n = 0;
  do {
    int64_t st = anyIndex(g, m.size()), ln = anyIndex(g, m.size());
    bool deflt = g.draw(6) == 0;
    SS want = ref::substr(m, st, deflt ? -1 : ln);
    g.note("(%lld, %s%lld) -> %s", (long long)st, deflt ? "default " : "", (long long)(deflt ? -1 : ln), q(want).c_str());
    if (st < 0 || ln < 0 || st + (uint64_t)ln > m.size()) g.nontrivial();
    if (st < 0) g.label("negative-start");
    if (!deflt && ln < -1) g.label("negative-length");
    BS r;
    switch (g.draw(6)) {
      case 0: r = deflt ? cur.substring(st) : cur.substring(st, ln); break;
      case 1: { const BS& c = cur; r = deflt ? c(st) : c(st, ln); break; }
      case 2: r = BS(deflt ? cur(st) : cur(st, ln)); break;
      case 3: r = deflt ? cur(st).get() : cur(st, ln).get(); break;
      case 4: r = cur; if (deflt) r.slice(st); else r.slice(st, ln); break;
      default: { BS tmp(cur); r = std::move(tmp).substring(st, deflt ? -1 : ln); break; }
    }
    expect(r, want, "substring");
    expect(cur, m, "source of a substring");
    keepOK(p, t, "source of a substring");
    if (!want.empty()) { // the window must be usable: c_str, append
      REQUIRE(SS(r.c_str(), want.size()) == want, "c_str of substring is %s", q(r.c_str(), want.size()).c_str());
      keepOK(p, t, "source after c_str of a substring");
    }
    if (g.draw(3) == 0) { BS e(r); e += 'Z'; expect(e, want + "Z", "append to a substring"); keepOK(p, t, "source after edit of a substring"); expect(r, want, "substring after edit of its copy"); }
    cur = r; m = want;
  } while (g.more(2) && ++n < 10);
}
PROPERTY("C04.string", "String windows", c04s, 1200000, 20000000, false,
    "chains of windows with arbitrary starts and lengths; non-trivial when one is negative or reaches past the end");

static void c04assign(Src& g) {
  SS t = g.bytes2(24, 3000);
  Placed p = place(g, t);
  BS tgt(p.s);
  SS m(t);
  unsigned n = 0;
  do {
    size_t st = g.draw(4) ? g.draw(m.size() + 1) : g.draw(m.size() + 4);
    int64_t ln = g.draw(3) ? (int64_t)g.draw(m.size() + 4) : g.draw(2) ? -1 : INT64_MAX - (int64_t)g.draw(2);
    SS x = g.bytes2(12, 600);
    unsigned how = (unsigned)g.draw(5);
    if (how == 3) x = m;
    int64_t a = 0, b = -1;
    if (how == 4) { a = anyIndex(g, m.size()); b = anyIndex(g, m.size()); x = ref::substr(m, a, b); }
    bool throws = st > m.size() && ln != 0;
    g.note("(%zu, %lld) = %s (form %u) on %s", st, (long long)ln, q(x).c_str(), how, q(m).c_str());
    if (!x.empty() && ln != 0 && !throws) g.nontrivial();
    bool threw = false;
    try {
      switch (how) {
        case 0: { BS v(x); if (ln == -1) tgt((ssize_t)st) = v; else tgt((ssize_t)st, (ssize_t)ln) = v; break; }
        case 1: tgt((ssize_t)st, (ssize_t)ln) = BS(x); break;
        case 2: { BS v(x); tgt((ssize_t)st, (ssize_t)ln) = v(0); break; }
        case 3: { BS v(tgt); if (g.draw(2)) tgt((ssize_t)st, (ssize_t)ln) = tgt; else tgt((ssize_t)st, (ssize_t)ln) = v; break; }
        default: tgt((ssize_t)st, (ssize_t)ln) = tgt(a, b); break;
      }
    } catch (const std::out_of_range&) { threw = true; }
    REQUIRE(threw == throws, "slice assignment at %zu of %zu %s", st, m.size(), threw ? "threw" : "did not throw");
    if (!throws) m = ref::replace(m, st, x, (size_t)ln);
    expect(tgt, m, "slice assignment");
    keepOK(p, t, "shared source after slice assignment");
  } while (g.more(2) && ++n < 10);
}
PROPERTY("C04.assign", "assignment to String slices", c04assign, 900000, 15000000, false,
    "slice assignments (values, temporaries, slices of itself); non-trivial when something is written");

template <class T> struct Gen;
template <> struct Gen<int> { static int make(Src& g) { return (int)g.range(-3, 5); } };
template <> struct Gen<BS> { static BS make(Src& g) { SS t = g.bytes(4); return BS(t); } };
template <class T> static void c04arr(Src& g) {
  std::vector<T> m;
  size_t L = g.len2(40, 1100);
  bd::Array<T> a;
  for (size_t i = 0; i < L; ++i) { T x = Gen<T>::make(g); m.push_back(x); a.push_back(x); }
  bd::Array<T> src(a), cur(a);
  std::vector<T> cm(m);
  unsigned n = 0;
  do {
    int64_t st = anyIndex(g, cm.size()), ln = g.draw(6) ? anyIndex(g, cm.size()) : -1;
    int64_t LL = (int64_t)cm.size(), s2 = st;
    // reference window
    std::vector<T> want;
    if (s2 < LL) {
      if (s2 < 0) s2 += LL;
      if (s2 < 0) s2 = 0;
      int64_t rest = LL - s2, l2 = ln;
      if (l2 == -1 || l2 > rest) l2 = rest;
      else if (l2 < 0) l2 = l2 < -rest ? 0 : rest + l2;
      want.assign(cm.begin() + s2, cm.begin() + s2 + l2);
    }
    g.note("(%lld, %lld) of %zu items -> %zu items", (long long)st, (long long)ln, cm.size(), want.size());
    if (st < 0 || ln < 0 || (uint64_t)st + (uint64_t)ln > cm.size()) g.nontrivial();
    bd::Array<T> r;
    const bool deflt = ln == -1 && g.draw(4);
    if (deflt) g.label("default-length");
    switch (g.draw(6)) {
      case 0: r = deflt ? cur.subarray(st) : cur.subarray(st, ln); break;
      case 1: { const bd::Array<T>& c = cur; if (deflt) r = c(st); else r = c(st, ln); break; }
      case 2: if (deflt) r = bd::Array<T>(cur(st)); else r = bd::Array<T>(cur(st, ln)); break;
      case 3: if (deflt) r = cur(st).get(); else r = cur(st, ln).get(); break;
      case 4: { bd::Array<T> tmp(cur); r = deflt ? std::move(tmp).subarray(st) : std::move(tmp).subarray(st, ln); break; }
      default: r = cur; if (deflt) r.slice(st); else r.slice(st, ln);
    }
    REQUIRE(r.length() == want.size(), "window (%lld, %lld) of %zu items has %zu items, expected %zu", (long long)st, (long long)ln, cm.size(), (size_t)r.length(), want.size());
    const bd::Array<T>& cr = r;
    for (size_t i = 0; i < want.size(); ++i) REQUIRE(cr[i] == want[i], "window item %zu differs", i);
    const bd::Array<T>& cs = src;
    REQUIRE(cs.length() == m.size(), "reading a window changed its source");
    for (size_t i = 0; i < m.size(); ++i) REQUIRE(cs[i] == m[i], "reading a window changed item %zu of its source", i);
    cur = r; cm = want;
    if (g.draw(3) == 0) { // assignment into a slice
      size_t p = g.draw(cm.size() + 1), k = g.draw(4);
      int64_t lim = g.draw(2) ? -1 : (int64_t)g.draw(5);
      bd::Array<T> x;
      std::vector<T> xm;
      for (size_t i = 0; i < k; ++i) { T e = Gen<T>::make(g); x.push_back(e); xm.push_back(e); }
      g.note("(%zu, %lld) = %zu items", p, (long long)lim, k);
      switch (g.draw(4)) {
        case 0: if (lim == -1) cur((ssize_t)p) = x; else cur((ssize_t)p, (ssize_t)lim) = x; break;
        case 1: { bd::Array<T> y(x); cur((ssize_t)p, (ssize_t)lim) = std::move(y); break; }
        case 2: { // part of another, or of itself
          bd::Array<T>& o = g.draw(2) ? cur : x;
          size_t a = g.draw(o.length() + 1), b = g.draw(o.length() - a + 1);
          xm.clear(); const bd::Array<T>& co = o; for (size_t i = a; i < a + b; ++i) xm.push_back(co[i]); k = b;
          g.note("  (a slice (%zu, %zu) of %s instead)", a, b, &o == &cur ? "itself" : "the value");
          cur((ssize_t)p, (ssize_t)lim) = o((ssize_t)a, (ssize_t)b); break; }
        default: cur((ssize_t)p, (ssize_t)lim) = x;
      }
      size_t w = lim < 0 ? k : std::min<size_t>(k, (size_t)lim);
      if (cm.size() < p + w) cm.resize(p + w);
      for (size_t i = 0; i < w; ++i) cm[p + i] = xm[i];
      const bd::Array<T>& cc = cur;
      REQUIRE(cc.length() == cm.size(), "slice assignment gave %zu items, expected %zu", (size_t)cc.length(), cm.size());
      for (size_t i = 0; i < cm.size(); ++i) REQUIRE(cc[i] == cm[i], "item %zu wrong after slice assignment", i);
      for (size_t i = 0; i < m.size(); ++i) REQUIRE(cs[i] == m[i], "slice assignment changed item %zu of the source", i);
    }
  } while (g.more(2) && ++n < 10);
}
PROPERTY("C04.array-int", "Array<int> windows", c04arr<int>, 500000, 8000000, false, "as C04.string for Array<int>, with slice assignments");
PROPERTY("C04.array-String", "Array<String> windows", c04arr<BS>, 300000, 5000000, false, "as C04.string for Array<String>, with slice assignments");

// ---- C06 ------------------------------------------------------------------
static size_t refFind(const SS& h, const SS& n, size_t pos) {
  if (n.empty()) return 0;
  for (size_t i = pos; i + n.size() <= h.size(); ++i) if (h.compare(i, n.size(), n) == 0) return i - pos;
  return NPOS;
}
static size_t refRfind(const SS& h, const SS& n, size_t lpos) {
  if (n.empty()) return h.size() - 1;
  if (n.size() > h.size()) return NPOS;
  for (size_t i = h.size() - n.size() + 1; i-- > lpos;) if (h.compare(i, n.size(), n) == 0) return i;
  return NPOS;
}
static SS fold(SS s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c = (char)(c - 32); return s; }
static void c06(Src& g) {
  static const SS als[] = {"ab", "aAbB", SS("a\0", 2), SS("a\0b\xe1\xc1", 5), "abc", SS("@`[{aAzZ\xff\x7f", 10)};
  SS al = als[g.draw(6)];
  SS h = g.bytesOver2(al, 40, 2000);
  SS n;
  switch (g.draw(7)) {
    case 0: n = g.bytesOver2(al, 4, 300); break;
    case 1: { size_t a = g.draw(h.size() + 1); n = h.substr(a, g.draw(20) ? g.draw(5) : g.draw(h.size() + 1)); break; }
    case 2: n = h; break;
    case 3: n = h + SS(1, al[0]); break;
    case 4: { size_t a = g.draw(h.size() + 1); n = h.substr(a); break; }
    case 5: { n = h.substr(0, g.draw(h.size() + 1)); for (auto& c : n) if (g.draw(4) == 0) c = al[g.draw(al.size())]; break; }
    default: n = g.bytesOver(al, 2); break;
  }
  // spread the haystack with runs of the needle
  if (g.draw(3) == 0) { SS h2; for (unsigned k = (unsigned)g.draw(4); k-- > 0;) { h2 += g.bytesOver(al, 3); h2 += n; } if (h2.size() < 5000) h = h2 + g.bytesOver(al, 3); }
  Placed ph = place(g, h), pn = place(g, n);
  const BS& H = ph.s;
  const BS& N = pn.s;
  g.note("haystack %s needle %s", q(h).c_str(), q(n).c_str());
  if (!n.empty() && n.size() <= h.size()) g.nontrivial();
  size_t pos = g.draw(h.size() + 1);
  if (refFind(h, n, 0) != NPOS && !n.empty()) g.label("found");
  if (refFind(h, n, 0) != refRfind(h, n, 0)) g.label("several-occurrences");
#define EQ(expr, want) do { size_t got_ = (expr), want_ = (want); REQUIRE(got_ == want_, "%s = %zd, expected %zd (haystack %s, needle %s, position %zu)", #expr, (ssize_t)got_, (ssize_t)want_, q(h).c_str(), q(n).c_str(), pos); } while (0)
  EQ(H.find(N), refFind(h, n, 0));
  EQ(H.find(N, pos), refFind(h, n, pos));
  EQ(H.rfind(N), refRfind(h, n, 0));
  EQ(H.rfind(N, pos), refRfind(h, n, pos));
  EQ(H.ifind(N), refFind(fold(h), fold(n), 0));
  EQ(H.rifind(N), refRfind(fold(h), fold(n), 0));
  EQ(H.rifind(N, pos), refRfind(fold(h), fold(n), pos));
  if (g.draw(8) == 0) { size_t far = h.size() + g.draw(3); EQ(H.rfind(N, far), refRfind(h, n, far)); EQ(H.rifind(N, far), refRfind(fold(h), fold(n), far)); }
  char c = al[g.draw(al.size())];
  n = SS(1, c);
  EQ(H.find(c), refFind(h, n, 0));
  EQ(H.find(c, pos), refFind(h, n, pos));
  EQ(H.rfind(c), refRfind(h, n, 0));
  keepOK(ph, h, "haystack after searching");
}
PROPERTY("C06.string", "String searching", c06, 1500000, 25000000, false,
    "haystacks and needles over tiny alphabets, in views and shared buffers, against brute force; non-trivial when the needle is non-empty and not longer than the haystack");

template <class T> static void c06arr(Src& g) {
  std::vector<T> m;
  size_t L = g.len2(40, 1100);
  bd::Array<T> base;
  for (size_t i = 0; i < L; ++i) { T x = Gen<T>::make(g); m.push_back(x); base.push_back(x); }
  size_t a = g.draw(L + 1), k = g.draw(L - a + 1);
  bd::Array<T> v(base(a, k).get());
  m = std::vector<T>(m.begin() + a, m.begin() + a + k);
  if (v.length() != m.size()) { v = bd::Array<T>(); for (auto& x : m) v.push_back(x); }
  T item = m.size() && g.draw(2) ? m[g.draw(m.size())] : Gen<T>::make(g);
  size_t pos = g.draw(m.size() + 1);
  size_t f = NPOS, fp = NPOS, r = NPOS;
  for (size_t i = 0; i < m.size(); ++i) if (m[i] == item) { if (f == NPOS) f = i; r = i; if (i >= pos && fp == NPOS) fp = i - pos; }
  if (m.size()) g.nontrivial();
  g.note("window (%zu,%zu) of %zu items, search from %zu", a, k, L, pos);
  const bd::Array<T>& c = v;
  REQUIRE(c.find(item) == f, "find = %zd, expected %zd", (ssize_t)c.find(item), (ssize_t)f);
  REQUIRE(c.find(item, pos) == fp, "find from %zu = %zd, expected %zd", pos, (ssize_t)c.find(item, pos), (ssize_t)fp);
  REQUIRE(c.rfind(item) == r, "rfind = %zd, expected %zd", (ssize_t)c.rfind(item), (ssize_t)r);
}
PROPERTY("C06.array-int", "Array<int> searching", c06arr<int>, 300000, 5000000, false, "windows of arrays, against brute force; non-trivial when the window is not empty");
PROPERTY("C06.array-String", "Array<String> searching", c06arr<BS>, 200000, 3000000, false, "windows of arrays, against brute force; non-trivial when the window is not empty");

// ---- C08 ------------------------------------------------------------------
static std::vector<SS> refSplit(const SS& t, const SS& d, size_t limit) {
  std::vector<SS> r;
  if (t.empty()) return r;
  if (limit == 1) { r.push_back(t); return r; }
  size_t it = 0;
  bool rest = true;  // is there text (possibly empty) after the last delimiter taken?
  while (limit == NPOS || r.size() < limit - 1) {
    if (d == " ") while (it < t.size() && t[it] == ' ') ++it;
    if (it >= t.size()) break;
    size_t p = t.find(d, it);
    if (p == NPOS) { r.push_back(t.substr(it)); rest = false; break; }
    r.push_back(t.substr(it, p - it));
    it = p + d.size();
  }
  if (limit != NPOS && rest) {
    if (d == " ") while (it < t.size() && t[it] == ' ') ++it;
    r.push_back(t.substr(it));
  }
  return r;
}
static SS show(const std::vector<SS>& v) { SS o = "["; for (auto& s : v) { if (o.size() > 1) o += ", "; o += q(s, 30); if (o.size() > 600) { o += "..."; break; } } return o + "]"; }
static void expectList(const bd::Array<BS>& a, const std::vector<SS>& w, const char* what) {
  std::vector<SS> got;
  const bd::Array<BS>& c = a;
  for (size_t i = 0; i < c.length() && i < 400000; ++i) got.push_back(val(c[i]));
  REQUIRE(c.length() == w.size() && got == w, "%s: got %s (%zu pieces), expected %s (%zu pieces)", what, show(got).c_str(), (size_t)c.length(), show(w).c_str(), w.size());
}
static SS refJoin(const std::vector<SS>& v, const SS& d, bool quoted) {
  SS o;
  for (size_t i = 0; i < v.size(); ++i) { if (i) o += d; o += quoted ? "\"" + v[i] + "\"" : v[i]; }
  return o;
}
static void c08split(Src& g) {
  static const SS ds[] = {" ", ",", "--", "ab", "aa", SS("\0", 1), "  ", "abc", SS("\xff\xfe", 2), "\n"};
  SS d = g.draw(8) ? ds[g.draw(10)] : g.bytes2(4, 300);
  if (d.empty()) d = ",";
  SS t;
  SS al = d + "xy ";
  unsigned n = 0;
  while (g.more(6) && n++ < 60) {
    switch (g.draw(4)) { case 0: t += g.bytesOver2(al, 3, 300); break; case 1: t += g.bytes2(5, 1100); break; case 2: t += d; break; default: t += SS(1, d[g.draw(d.size())]); }
  }
  size_t limit;
  switch (g.draw(4)) { case 0: limit = 1 + g.draw(5); break; case 1: limit = 1 + refSplit(t, d, NPOS).size() + g.draw(4) - (g.draw(2) ? 1 : 0); break; default: limit = NPOS; }
  if (limit == 0) limit = 1;
  Placed p = place(g, t);
  std::vector<SS> w = refSplit(t, d, limit);
  g.note("split(%s, %s, %zd) -> %s", q(t).c_str(), q(d).c_str(), (ssize_t)limit, show(w).c_str());
  if (w.size() > 1) g.nontrivial();
  if (limit != NPOS) g.label("limit");
  if (d == " ") g.label("space");
  Placed pd = place(g, d);
  bd::Array<BS> a = limit == NPOS ? p.s.split(pd.s) : p.s.split(pd.s, limit);
  expectList(a, w, "split");
  keepOK(p, t, "source after split");
  if (limit != NPOS) REQUIRE(a.length() <= limit, "split with limit %zu gave %zu pieces", limit, (size_t)a.length());
  // join restores the text
  if (d != " " && (limit != NPOS || t.size() < d.size() || t.compare(t.size() - d.size(), d.size(), d) != 0)) {
    BS j = a.join(BS(d));
    expect(j, t, "join of split");
    g.label("roundtrip");
  }
  // the pieces are independent values
  if (a.length()) {
    size_t i = g.draw(a.length());
    BS piece(static_cast<const bd::Array<BS>&>(a)[i]);
    piece += "ZZ";
    if (piece.length() > 2) piece[0] = '#';
    expectList(a, w, "split after a piece was copied and edited");
    keepOK(p, t, "source after a piece was edited");
    a[i] = BS("other");
    w[i] = "other";
    expectList(a, w, "split after a piece was replaced");
    keepOK(p, t, "source after a piece was replaced");
  }
}
PROPERTY("C08.split", "split and join of split", c08split, 500000, 8000000, false,
    "texts made of delimiters, parts of delimiters and noise; non-trivial when there are at least two pieces");

static void c08newsplit(Src& g) {
  char d = g.draw(3) ? ' ' : ",\0x\xff"[g.draw(4)];
  SS al = SS(1, d) + "ab ";
  SS t = g.bytesOver2(al, 30, 500);
  Placed p = place(g, t);
  BS s(p.s);
  SS m(t);
  g.note("newsplit %s by %s", q(t).c_str(), q(SS(1, d)).c_str());
  if (m.find(d) != NPOS) g.nontrivial();
  for (unsigned k = 0; k < 600; ++k) {
    SS first;
    size_t pos = m.find(d);
    SS rest;
    if (m.empty()) { first = ""; rest = ""; }
    else if (pos == NPOS) { first = m; rest = ""; }
    else { first = m.substr(0, pos); size_t e = pos + 1; if (d == ' ') while (e < m.size() && m[e] == ' ') ++e; rest = m.substr(e); }
    BS tok = d == ' ' && g.draw(2) ? newsplit(s) : newsplit(s, d);
    expect(tok, first, "newsplit token");
    expect(s, rest, "newsplit rest");
    keepOK(p, t, "source after newsplit of its copy");
    bool done = m.empty();
    m = rest;
    if (g.draw(8) == 0) { tok += "q"; expect(s, rest, "newsplit rest after its token was edited"); }
    if (g.draw(10) == 0) { s += "b"; m += "b"; if (g.draw(2)) break; }
    if (done) break;
  }
}
PROPERTY("C08.newsplit", "tokens off the front", c08newsplit, 300000, 5000000, false, "tokens taken until nothing is left; non-trivial when the delimiter occurs");

static void c08join(Src& g) {
  std::vector<SS> v;
  bd::Array<BS> a;
  size_t n = g.draw(3) ? g.draw(6) : g.len2(60, 600);
  for (size_t i = 0; i < n; ++i) { SS x = g.draw(3) ? g.bytes(6) : SS(); v.push_back(x); Placed p = place(g, x); a.push_back(p.s); }
  if (g.draw(3) == 0 && n) { size_t s = g.draw(n), k = g.draw(n - s + 1); bd::Array<BS> w = a.subarray(s, k); if (w.length() == k) { a = w; v = std::vector<SS>(v.begin() + s, v.begin() + s + k); } }
  SS d = g.draw(4) ? g.bytes2(3, 300) : SS();
  bool quoted = g.draw(3) == 0;
  g.note("join %s by %s%s", show(v).c_str(), q(d).c_str(), quoted ? " quoted" : "");
  if (v.size() > 1) g.nontrivial();
  const bd::Array<BS>& c = a;
  BS j = quoted ? c.join(BS(d), true) : g.draw(2) ? c.join(BS(d)) : c.join(BS(d), false);
  expect(j, refJoin(v, d, quoted), "join");
  expectList(a, v, "list after join");
  j += "x";
  expect(j, refJoin(v, d, quoted) + "x", "edit of a join");
  expectList(a, v, "list after edit of the join");
}
PROPERTY("C08.join", "join", c08join, 500000, 8000000, false, "lists with empty elements, empty delimiters and windows; non-trivial with at least two elements");

// ---- C09 ------------------------------------------------------------------
static SS refSub(const SS& t, const SS& s, const SS& r, int limit) {
  if (s.empty()) return t;
  SS o;
  size_t i = 0;
  int n = 0;
  while (i < t.size()) {
    if ((limit == -1 || n < limit) && t.compare(i, s.size(), s) == 0) { o += r; i += s.size(); ++n; }
    else o += t[i++];
  }
  return o;
}
static void c09(Src& g) {
  static const SS als[] = {"ab", "a", SS("a\0\\", 3), "xyz"};
  SS al = als[g.draw(4)];
  SS t = g.bytesOver2(al, 30, 1000);
  SS s = g.draw(12) ? g.bytesOver2(al, 3, 300) : SS();
  SS r;
  switch (g.draw(4)) { case 0: r = g.bytesOver2(al, 4, 300); break; case 1: r = s + s; break; case 2: r = ""; break; default: r = SS(1, al[0]) + s; }
  int limit = g.draw(3) ? -1 : 1 + (int)(g.draw(8) ? g.draw(4) : g.draw(600));
  Placed p = place(g, t), ps = place(g, s), pr = place(g, r);
  const BS *S = &ps.s, *R = &pr.s;
  if (g.draw(8) == 0) { S = &p.s; s = t; g.label("search-is-source"); }
  if (g.draw(8) == 0) { R = &p.s; r = t; g.label("replacement-is-source"); }
  BS sv;
  if (g.draw(6) == 0 && !t.empty()) { size_t a = g.draw(t.size()), k = 1 + g.draw(3); sv = p.s.substring(a, k); s = ref::substr(t, a, k); if (same(sv, s)) S = &sv; else { s = val(sv); S = &sv; } g.label("search-is-own-substring"); }
  if (s.empty()) g.label("empty-search");
  if (!s.empty() && (t.size() / s.size() + 1) * (r.size() + 1) > 20000000) return;
  SS want = refSub(t, s, r, limit);
  if (want.size() > 200000) return;
  g.note("sub(%s, %s -> %s, %d) = %s", q(t).c_str(), q(s).c_str(), q(r).c_str(), limit, q(want).c_str());
  if (!s.empty() && t.find(s) != NPOS) g.nontrivial();
  BS o = limit == -1 && g.draw(2) ? p.s.sub(*S, *R) : p.s.sub(*S, *R, limit);
  expect(o, want, "sub");
  keepOK(p, t, "source after sub");
  if (R != &p.s) expect(*R, r, "replacement after sub");
  expect(*S, s, "search text after sub");
  o += "x";
  if (o.length() > 1) o[0] = '#';
  keepOK(p, t, "source after edit of the sub result");
}
PROPERTY("C09.sub", "sub", c09, 800000, 12000000, false, "texts over tiny alphabets so that occurrences overlap; non-trivial when the search text occurs");
static void c09subst(Src& g) {
  SS t = g.bytesOver2("abc", 20, 2000);
  bd::HashTable<BS, BS> h;
  unsigned n = (unsigned)g.draw(g.draw(10) ? 5 : 14);
  for (unsigned i = 0; i < n; ++i) { SS k = g.bytesOver2("abc", 2, 40), v = g.bytesOver2("abcX", 3, 200); h[BS(k)] = BS(v); }
  Placed p = place(g, t);
  SS want = t;
  for (const auto& kv : h) { want = refSub(want, val(kv.first), val(kv.second), -1); g.note("map %s -> %s", q(val(kv.first)).c_str(), q(val(kv.second)).c_str()); }
  if (want.size() > 200000) return;
  g.note("subst of %s = %s", q(t).c_str(), q(want).c_str());
  if (want != t) g.nontrivial();
  BS o = p.s.subst(h);
  expect(o, want, "subst");
  keepOK(p, t, "source after subst");
}
PROPERTY("C09.subst", "subst", c09subst, 300000, 4000000, false, "mappings over a tiny alphabet; non-trivial when the text changes");

// ---- C11 ------------------------------------------------------------------
static size_t anyPos(Src& g, size_t L) {
  switch (g.draw(8)) {
    case 0: return NPOS - g.draw(3);
    case 1: return (size_t)1 << g.draw(64);
    case 2: return L;
    case 3: return L + 1;
    case 4: return L + 1 + g.draw(40);
    case 5: return L ? L - 1 : 0;
    default: return g.draw(L + 1);
  }
}
template <class F> static bool throwsRange(F f) {
  try { f(); } catch (const std::out_of_range&) { return true; }
  return false;
}
static void c11s(Src& g) {
  SS t = g.bytes2(20, 2000);
  Placed p = place(g, t);
  BS s(p.s);
  SS m(t);
  unsigned n = 0;
  do {
    size_t pos = anyPos(g, m.size());
    SS x = g.bytes2(5, 600);
    size_t lim = g.draw(2) ? NPOS : 1 + g.draw(6);
    char c = (char)g.draw(256);
    bool incl = pos <= m.size();  // permitted for insert/replace/find
    unsigned k = (unsigned)g.draw(14);
    bool got, want = !incl;
    SS after = m;
    BS X(x);
    switch (k) {
      case 0: { char r = 0; got = throwsRange([&] { r = s.at(pos); }); want = pos >= m.size(); if (!got && !want) REQUIRE(r == m[pos], "at(%zu) returned a wrong character", pos); break; }
      case 1: { char r = 0; got = throwsRange([&] { r = s.charAt(pos); }); want = pos >= m.size(); if (!got && !want) REQUIRE(r == m[pos], "charAt(%zu) returned a wrong character", pos); break; }
      case 2: { size_t r = 0; got = throwsRange([&] { r = s.find(X, pos); }); if (!got && incl) REQUIRE(r == refFind(m, x, pos), "find wrong"); break; }
      case 3: { size_t r = 0; got = throwsRange([&] { r = s.find(c, pos); }); if (!got && incl) REQUIRE(r == refFind(m, SS(1, c), pos), "find char wrong"); break; }
      case 4: got = throwsRange([&] { s.insert(pos, c); }); if (incl) after.insert(pos, SS(1, c)); break;
      case 5: { for (auto& ch : x) if (!ch) ch = '0'; got = throwsRange([&] { s.insert(pos, x.c_str()); }); if (incl) after.insert(pos, x); break; }
      case 6: got = throwsRange([&] { s.insert(pos, X); }); if (incl) after.insert(pos, x); break;
      case 7: got = throwsRange([&] { s.insert(pos, X, lim); }); if (incl) after = ref::insert(m, pos, x, lim); break;
      case 8: got = throwsRange([&] { s.insert(pos, BS(x)); }); if (incl) after.insert(pos, x); break;
      case 9: got = throwsRange([&] { s.replace(pos, c); }); if (incl) after = ref::replace(m, pos, SS(1, c)); break;
      case 10: { for (auto& ch : x) if (!ch) ch = '0'; got = throwsRange([&] { s.replace(pos, x.c_str()); }); if (incl) after = ref::replace(m, pos, x); break; }
      case 11: got = throwsRange([&] { s.replace(pos, X, lim); }); if (incl) after = ref::replace(m, pos, x, lim); break;
      case 12: got = throwsRange([&] { s.replace(pos, BS(x), lim); }); if (incl) after = ref::replace(m, pos, x, lim); break;
      default: got = throwsRange([&] { s.insert(pos, BS(x), lim); }); if (incl) after = ref::insert(m, pos, x, lim); break;
    }
    g.note("operation %u at %zd of %zu characters, argument %s limit %zd", k, (ssize_t)pos, m.size(), q(x).c_str(), (ssize_t)lim);
    if (want) g.nontrivial();
    REQUIRE(got == want, "operation %u at position %zd of %zu characters %s", k, (ssize_t)pos, m.size(), got ? "threw" : "did not throw");
    if (!want) m = after;
    expect(s, m, want ? "target after out_of_range" : "target after a permitted position");
    expect(X, x.size() ? val(X) : SS(), "argument");
    keepOK(p, t, "storage sharer after out_of_range");
    if (want && g.draw(2)) { // still usable
      s += "U"; m += "U";
      expect(s, m, "append after out_of_range");
    }
  } while (g.more(3) && ++n < 20);
}
PROPERTY("C11.string", "String position checks", c11s, 700000, 10000000, false, "operations at positions inside, at and beyond the end, up to npos; non-trivial when the position is not permitted");

template <class T> static void c11arr(Src& g) {
  bd::Array<T> base;
  std::vector<T> m;
  size_t L = g.draw(12);
  for (size_t i = 0; i < L; ++i) { T x = Gen<T>::make(g); m.push_back(x); base.push_back(x); }
  std::vector<T> bm(m);
  bd::Array<T> s(base);
  if (g.draw(3) == 0 && L) { size_t a = g.draw(L), k = g.draw(L - a + 1); s = base.subarray(a, k); m = std::vector<T>(m.begin() + a, m.begin() + a + k); }
  unsigned n = 0;
  do {
    size_t pos = anyPos(g, m.size());
    T x = Gen<T>::make(g);
    bool incl = pos <= m.size(), want = !incl, got;
    std::vector<T> after(m);
    bd::Array<T> X;
    std::vector<T> xm;
    for (unsigned k = (unsigned)g.draw(4); k-- > 0;) { T e = Gen<T>::make(g); X.push_back(e); xm.push_back(e); }
    auto repl = [&](size_t lim) { size_t w = std::min(lim, xm.size()); if (after.size() < pos + w) after.resize(pos + w); for (size_t i = 0; i < w; ++i) after[pos + i] = xm[i]; };
    size_t lim = g.draw(2) ? NPOS : 1 + g.draw(5);
    unsigned k = (unsigned)g.draw(10);
    switch (k) {
      case 0: { T r = T(); got = throwsRange([&] { r = s.at(pos); }); want = pos >= m.size(); if (!got && !want) REQUIRE(r == m[pos], "at(%zu) wrong", pos); break; }
      case 1: { size_t r = 0, w = NPOS; got = throwsRange([&] { r = s.find(x, pos); }); if (!got && incl) { for (size_t i = pos; i < m.size(); ++i) if (m[i] == x) { w = i - pos; break; } REQUIRE(r == w, "find wrong"); } break; }
      case 2: got = throwsRange([&] { s.insert(pos, x); }); if (incl) after.insert(after.begin() + pos, x); break;
      case 3: got = throwsRange([&] { s.insert(pos, T(x)); }); if (incl) after.insert(after.begin() + pos, x); break;
      case 4: got = throwsRange([&] { s.insert(pos, X); }); if (incl) after.insert(after.begin() + pos, xm.begin(), xm.end()); break;
      case 5: got = throwsRange([&] { s.insert(pos, X, lim); }); if (incl) after.insert(after.begin() + pos, xm.begin(), xm.begin() + std::min(lim, xm.size())); break;
      case 6: got = throwsRange([&] { s.insert(pos, bd::Array<T>(X)); }); if (incl) after.insert(after.begin() + pos, xm.begin(), xm.end()); break;
      case 7: got = throwsRange([&] { s.replace(pos, X, lim); }); if (incl) repl(lim); break;
      case 8: got = throwsRange([&] { s.replace(pos, bd::Array<T>(X), lim); }); if (incl) repl(lim); break;
      default: got = throwsRange([&] { s.replace(pos, x); }); if (incl) { if (pos == after.size()) after.push_back(x); else after[pos] = x; } break;
    }
    g.note("operation %u at %zd of %zu items", k, (ssize_t)pos, m.size());
    if (want) g.nontrivial();
    REQUIRE(got == want, "operation %u at position %zd of %zu items %s", k, (ssize_t)pos, m.size(), got ? "threw" : "did not throw");
    if (!want) m = after;
    const bd::Array<T>& c = s;
    REQUIRE(c.length() == m.size(), "operation %u at %zd left %zu items, expected %zu", k, (ssize_t)pos, (size_t)c.length(), m.size());
    for (size_t i = 0; i < m.size(); ++i) REQUIRE(c[i] == m[i], "operation %u at %zd: item %zu wrong", k, (ssize_t)pos, i);
    const bd::Array<T>& cb = base;
    REQUIRE(cb.length() == bm.size(), "storage sharer changed length");
    for (size_t i = 0; i < bm.size(); ++i) REQUIRE(cb[i] == bm[i], "storage sharer changed at %zu", i);
    if (want && g.draw(2)) { s.push_back(x); m.push_back(x); }
  } while (g.more(3) && ++n < 20);
}
PROPERTY("C11.array-int", "Array<int> position checks", c11arr<int>, 400000, 6000000, false, "as C11.string");
PROPERTY("C11.array-String", "Array<String> position checks", c11arr<BS>, 250000, 4000000, false, "as C11.string");

// ---- C13 ------------------------------------------------------------------
static std::vector<SS>* g_secrets;
static char g_hit[200];
static const size_t W = 6;
static void scanFree(void* p, size_t n) {
  const char* b = static_cast<const char*>(p);
  if (g_hit[0]) return;
  for (auto& s : *g_secrets)
    for (size_t i = 0; i + W <= s.size(); ++i) {
      const void* f = memmem(b, n, s.data() + i, W);
      if (f) { snprintf(g_hit, sizeof g_hit, "a block of %zu bytes was freed with %.*s of the text still at offset %zu", n, (int)W, s.data() + i, (size_t)((const char*)f - b)); return; }
    }
}
struct Armed {
  Armed(std::vector<SS>& s) { g_secrets = &s; g_hit[0] = 0; pbt::mem::onFree = scanFree; }
  ~Armed() { pbt::mem::onFree = nullptr; }
};
static SS secret(Src& g, size_t min, size_t max) {
  static const SS al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
  size_t n = min + (g.draw(10) ? g.draw(std::min<size_t>(40, max - min) + 1) : g.len(max - min));
  SS s(n, 'a');
  uint64_t r = g.draw(0) | 1;
  for (auto& c : s) { r = r * 6364136223846793005ull + 1442695040888963407ull; c = al[(r >> 33) % 52]; }
  return s;
}
static void c13(Src& g) {
  std::vector<SS> secrets;
  std::vector<std::pair<std::unique_ptr<BS>, SS>> pool;
  auto add = [&](BS&& s, const SS& m) { pool.emplace_back(std::unique_ptr<BS>(new BS(std::move(s))), m); };
  SS t = secret(g, W, 3000);
  secrets.push_back(t);
  switch (g.draw(5)) {
    case 0: add(BS(t.c_str()), t); break;
    case 1: add(BS(t.data(), t.size()), t); break;
    case 2: add(BS(t), t); break;
    case 3: add(BS(t.begin(), t.end()), t); g.label("exactly-full"); break;
    default: { BS s(t.size() + g.draw(50)); s += BS(t); add(std::move(s), t); }
  }
  g.note("#0 = secret of %zu characters", t.size());
  unsigned n = 0;
  while (g.more(5) && n++ < 30) {
    size_t i = g.draw(pool.size());
    BS& s = *pool[i].first;
    SS& m = pool[i].second;
    switch (g.draw(12)) {
      case 0: g.note("copy #%zu", i); if (pool.size() < 6) add(BS(s), m); break;
      case 1: { if (pool.size() >= 6) break; size_t a = g.draw(m.size() + 1), k = g.draw(m.size() - a + 1); g.note("view #%zu (%zu,%zu)", i, a, k); SS w = m.substr(a, k); add(s.substring(a, k), w); g.label("view"); break; }
      case 2: { size_t k = g.draw(m.size() + 1); g.note("#%zu.resize(%zu)", i, k); s.resize(k); m.resize(k); g.label("shortened"); break; }
      case 3: g.note("#%zu.clear()", i); s.clear(); m.clear(); g.label("cleared"); break;
      case 4: { size_t k = g.draw(m.size() + 1); g.note("#%zu += %zu", i, k); s += k; m.erase(0, k); g.label("front-dropped"); break; }
      case 5: { size_t k = g.draw(m.size() + 1); g.note("#%zu -= %zu", i, k); s -= k; m.erase(m.size() - k); break; }
      case 6: { g.note("write into #%zu", i); if (m.empty()) break; size_t a = g.draw(m.size()); s[a] = 'X'; m[a] = 'X'; break; }
      case 7: g.note("c_str #%zu", i); s.c_str(); break;
      case 8: { SS x = secret(g, 1, 30); g.note("#%zu += %zu characters", i, x.size()); s += x.c_str(); m += x; secrets.push_back(m); break; }
      case 9: { g.note("reserve #%zu", i); s.reserve(m.size() + g.draw(200)); break; }
      case 10: { size_t a = g.draw(m.size() + 1); SS x = secret(g, 1, 12); g.note("#%zu.insert(%zu)", i, a); s.insert(a, BS(x)); m.insert(a, x); secrets.push_back(m); break; }
      default: { if (pool.size() < 2) break; g.note("destroy #%zu", i);
        bool last = s.rcount() == 1;
        if (!last) g.label("not-last-destroyed");
        { Armed arm(secrets); pool[i].first.reset(); }
        REQUIRE(!g_hit[0], "%s", g_hit);
        pool.erase(pool.begin() + i); break; }
    }
    for (size_t j = 0; j < pool.size(); ++j) expect(*pool[j].first, pool[j].second, "remaining String");
  }
  g.nontrivial();
  while (!pool.empty()) {
    size_t i = g.draw(pool.size());
    g.note("destroy #%zu", i);
    { Armed arm(secrets); pool[i].first.reset(); }
    REQUIRE(!g_hit[0], "%s", g_hit);
    pool.erase(pool.begin() + i);
    for (size_t j = 0; j < pool.size(); ++j) expect(*pool[j].first, pool[j].second, "remaining String");
  }
}
PROPERTY("C13.string", "wiping by the last String", c13, 500000, 8000000, false, "random sharing/view/shortening histories of a secret, every block freed while a String is destroyed is scanned for 6-character parts of it; every case is non-trivial");

static void c13cont(Src& g) {
  std::vector<SS> secrets;
  unsigned kind = (unsigned)g.draw(3);
  g.note("container kind %u", kind);
  g.nontrivial();
  size_t n = 1 + g.draw(20);
  if (kind == 0) {
    std::unique_ptr<bd::Array<BS>> a(new bd::Array<BS>());
    for (size_t i = 0; i < n; ++i) { SS t = secret(g, W, 60); secrets.push_back(t); a->push_back(BS(t)); }
    if (g.draw(2)) { bd::Array<BS> w(*a); w.shift(); if (n > 1) w.pop_back(); }
    if (g.draw(2)) a->pop_back();
    Armed arm(secrets);
    a.reset();
    REQUIRE(!g_hit[0], "Array<String>: %s", g_hit);
  } else if (kind == 1) {
    std::unique_ptr<bd::HashTable<BS, BS>> h(new bd::HashTable<BS, BS>());
    for (size_t i = 0; i < n; ++i) { SS k = secret(g, W, 30), t = secret(g, W, 60); secrets.push_back(t); secrets.push_back(k); (*h)[BS(k)] = BS(t); }
    Armed arm(secrets);
    if (g.draw(2)) h->clear();
    h.reset();
    REQUIRE(!g_hit[0], "HashTable<String, String>: %s", g_hit);
  } else {
    SS t;
    for (size_t i = 0; i < n; ++i) { SS x = secret(g, W, 40); secrets.push_back(x); t += x + ","; }
    std::unique_ptr<BS> s(new BS(t));
    std::unique_ptr<bd::Array<BS>> a(new bd::Array<BS>(s->split(",")));
    { Armed arm(secrets); s.reset(); }
    REQUIRE(!g_hit[0], "source of a split: %s", g_hit);
    for (size_t i = 0; i < n; ++i) expect(static_cast<const bd::Array<BS>&>(*a)[i], secrets[i], "piece after its source was destroyed");
    Armed arm(secrets);
    a.reset();
    REQUIRE(!g_hit[0], "pieces of a split: %s", g_hit);
  }
}
PROPERTY("C13.container", "wiping Strings held by containers", c13cont, 120000, 2000000, false, "as C13.string for Strings in Arrays and HashTables; every case is non-trivial");

// ---- C26 ------------------------------------------------------------------
static SS cfmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
static SS cfmt(const char* f, ...) {
  va_list va;
  va_start(va, f);
  int n = vsnprintf(nullptr, 0, f, va);
  va_end(va);
  SS s((size_t)n + 1, '\0');
  va_start(va, f);
  vsnprintf(&s[0], (size_t)n + 1, f, va);
  va_end(va);
  s.resize((size_t)n);
  return s;
}
#define PF(...) do { want = cfmt(__VA_ARGS__); got = BS::printf(__VA_ARGS__); } while (0)
static void c26(Src& g) {
  static const int near[] = {0, 1, 15, 16, 17, 127, 128, 255, 256, 1023, 1024, 1025, 2047, 2048, 4080, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 4100, 5000, 8190, 8191, 8192, 8193, 16384, 30000, 65535, 65536, 70000, 200000};
  int w = g.draw(3) ? near[g.draw(sizeof near / sizeof *near)] : (int)g.draw(9000);
  SS t = g.exactly((size_t)w, "abcXYZ%\\ \n");
  int d = (int)(int64_t)g.u64();
  long long ll = (long long)g.u64();
  unsigned k = (unsigned)g.draw(13);
  g.note("format %u, size %d, %d, %lld", k, w, d, ll);
  if (w > 100) g.nontrivial();
  SS want;
  BS got;
  switch (k) {
    case 0: PF("%s", t.c_str()); break;
    case 1: PF("%*d", w, d); break;
    case 2: PF("%-*d|", w, d); break;
    case 3: PF("%.*s", w / 2, t.c_str()); break;
    case 4: PF("%0*d", w, d); break;
    case 5: PF("<%s>%d<%s>", t.c_str(), d, t.c_str()); break;
    case 6: PF("%lld %x %o %u %c%%", ll, d, d, d, 'a' + (d & 7)); break;
    case 7: PF("%.*f", w % 3000, (double)ll / 7.0); break;
    case 8: { int c = (int)g.draw(2); PF("%s%c%s", "ab", c, t.c_str()); }; break;
    case 9: PF("%g %e %a", (double)ll, (double)d, (double)d); break;
    case 10: PF("%zu %p %s", (size_t)ll, (void*)0, "x"); break;
    case 11: want = cfmt("plain"); got = BS::printf("plain"); break;
    default: PF("%*s%*s", w, "l", w, "r"); break;
  }
  expect(got, want, "printf");
  got += "!";
  expect(got, want + "!", "append to a printf result");
}
PROPERTY("C26", "String::printf", c26, 60000, 1200000, false, "formats with results of 0 to 400000 characters, concentrated at powers of two; non-trivial above 100 characters");

// ---- C27 ------------------------------------------------------------------
static void c27in(Src& g) {
  static const SS al("ab \n\t\r\v\f\0\xff\xa0,", 12);
  SS t = g.bytesOver2(g.draw(4) ? al : SS("abcde"), 40, 2000);
  if (g.draw(8) == 0) t += " " + g.exactly(g.longLen(3000), "wxyz");  // a long word
  if (g.draw(3) == 0 && !t.empty()) t.back() = 'e';
  std::istringstream a(t), b(t);
  g.note("input %s", q(t).c_str());
  unsigned n = 0;
  BS s;
  SS m;
  if (g.draw(2)) { s = "old contents"; }
  BS share(s);
  SS shareText = val(s);
  unsigned got = 0;
  unsigned mode = (unsigned)g.draw(3);
  if (g.draw(6) == 0) { a >> std::noskipws; b >> std::noskipws; g.note("noskipws"); g.label("noskipws"); }
  bool widths = g.draw(6) == 0;
  std::ios::iostate ex = std::ios::goodbit;
  if (g.draw(6) == 0) {
    static const std::ios::iostate E[] = {std::ios::failbit, std::ios::eofbit, std::ios::failbit | std::ios::eofbit, std::ios::badbit};
    ex = E[g.draw(4)];
    a.exceptions(ex); b.exceptions(ex);
    g.note("exceptions on %s%s", ex & std::ios::failbit ? "fail " : "", ex & std::ios::eofbit ? "eof" : ""); g.label("exceptions");
  }
  while (n++ < 3000) {
    unsigned op = mode == 2 ? (unsigned)g.draw(3) : mode;
    if (op == 0 && widths && g.draw(2)) { int w = (int)(g.draw(4) ? g.draw(6) : g.longLen(5000)); a.width(w); b.width(w); g.note("width %d", w); g.label("width"); }
    bool fa, fb, ta = false, tb = false;
    if (op == 0) {
      try { a >> s; } catch (const std::ios::failure&) { ta = true; }
      try { b >> m; } catch (const std::ios::failure&) { tb = true; }
      g.note(">> %s", q(m).c_str());
    } else if (op == 1) {
      try { bd::getline(a, s); } catch (const std::ios::failure&) { ta = true; }
      try { std::getline(b, m); } catch (const std::ios::failure&) { tb = true; }
      g.note("getline %s", q(m).c_str());
    } else {
      char c = 0, d = 0;
      try { a.get(c); } catch (const std::ios::failure&) { ta = true; }
      try { b.get(d); } catch (const std::ios::failure&) { tb = true; }
      fa = !a; fb = !b; REQUIRE(fa == fb && ta == tb && (fa || c == d), "the next character differs (%d vs %d)", c, d); if (fa) break; continue;
    }
    fa = !a; fb = !b;
    REQUIRE(ta == tb, "%s %s after %u results, a std::string read %s", op ? "getline" : ">>", ta ? "throws" : "does not throw", got, tb ? "does" : "does not");
    REQUIRE(fa == fb, "%s %s after %u results, a std::string read %s", op ? "getline" : ">>", fa ? "reports failure" : "reports success", got, fb ? "fails" : "succeeds");
    REQUIRE(a.eof() == b.eof() || fa, "eof is reported as %d after %u results", a.eof(), got);
    REQUIRE(a.width() == b.width() || fa, "width left at %d", (int)a.width());
    if (fa) break;
    ++got;
    expect(s, m, op ? "getline" : "extraction");
    expect(share, shareText, "String sharing the target's old storage");
    if (g.draw(6) == 0) { share = s; shareText = m; }
    REQUIRE(a.eof() || a.tellg() == b.tellg(), "input position differs");
  }
  if (got >= 2) g.nontrivial();
}
PROPERTY("C27.in", "stream extraction", c27in, 500000, 8000000, false, "random whitespace/word texts read with >>, getline and get next to std::string; non-trivial with at least two results");
static void c27out(Src& g) {
  SS t = g.bytes(g.draw(10) ? 40 : 5000), u = g.bytes2(10, 600);
  Placed p = place(g, t);
  g.note("output %s", q(t).c_str());
  if (!t.empty()) g.nontrivial();
  std::ostringstream os;
  os << BS(u) << p.s << ',' << BS(t);
  REQUIRE(os.str() == u + t + "," + t, "stream holds %s", q(os.str()).c_str());
  keepOK(p, t, "String after output");
  // a field width applies to the text, once
  if (g.draw(2)) {
    int w = (int)g.draw(t.size() + 12);
    unsigned adj = (unsigned)g.draw(3);
    std::ostringstream x, y;
    for (std::ostringstream* o : {&x, &y}) { o->fill('*'); o->width(w); o->setf(adj == 0 ? std::ios::left : adj == 1 ? std::ios::right : std::ios::internal, std::ios::adjustfield); }
    g.note("width %d adjust %u", w, adj); g.label("width");
    bool tmp = g.draw(2);
    if (tmp) x << BS(p.s) << BS("+"); else { const BS plus("+"); x << p.s << plus; }
    y << t << SS("+");
    REQUIRE(x.str() == y.str(), "with width %d the stream holds %s, expected %s", w, q(x.str()).c_str(), q(y.str()).c_str());
    REQUIRE(x.width() == y.width(), "width left at %d", (int)x.width());
    keepOK(p, t, "String after output");
  }
  // temporaries, which may share storage with others
  std::ostringstream os2;
  os2 << BS(p.s) << '|' << BS(p.s(0, t.size() / 2)) << '|' << std::move(p.s);
  REQUIRE(os2.str() == t + "|" + t.substr(0, t.size() / 2) + "|" + t, "stream holds %s", q(os2.str()).c_str());
  // words written and read back
  std::vector<SS> ws;
  std::stringstream ss;
  for (unsigned k = (unsigned)g.draw(8); k-- > 0;) {
    SS w = g.bytes2(8, 600), x;
    for (char c : w) if (!ref::sp(c)) x += c;
    if (x.empty()) x = "w";
    ws.push_back(x);
    ss << BS(x);
    if (k) ss << " \n\t"[g.draw(3)];
  }
  BS r;
  size_t i = 0;
  while (ss >> r) { REQUIRE(i < ws.size(), "more words than written"); expect(r, ws[i], "word read back"); ++i; }
  REQUIRE(i == ws.size(), "%zu words read back of %zu", i, ws.size());
}
PROPERTY("C27.out", "stream insertion and round trip", c27out, 300000, 5000000, false, "Strings in all storage states written and read back; non-trivial when not empty");

// ---- the same at scale --------------------------------------------------------
PROPERTY("C04.string-scale", "string at scale", (scaled<c04s, 300000, 1>), 6000, 360000, false, "as C04.string with texts, lists or limits up to 300000; non-trivial when one of them is of that order");
PROPERTY("C04.assign-scale", "assign at scale", (scaled<c04assign, 300000, 2>), 6000, 360000, false, "as C04.assign with texts, lists or limits up to 300000; non-trivial when one of them is of that order");
PROPERTY("C06.string-scale", "string at scale", (scaled<c06, 140000, 1>), 6000, 360000, false, "as C06.string with texts, lists or limits up to 140000; non-trivial when one of them is of that order");
PROPERTY("C08.split-scale", "split at scale", (scaled<c08split, 140000, 2>), 4000, 240000, false, "as C08.split with texts, lists or limits up to 140000; non-trivial when one of them is of that order");
PROPERTY("C08.newsplit-scale", "newsplit at scale", (scaled<c08newsplit, 200000, 1>), 4000, 240000, false, "as C08.newsplit with texts, lists or limits up to 200000; non-trivial when one of them is of that order");
PROPERTY("C08.join-scale", "join at scale", (scaled<c08join, 70000, 1>), 1500, 90000, false, "as C08.join with texts, lists or limits up to 70000; non-trivial when one of them is of that order");
PROPERTY("C09.sub-scale", "sub at scale", (scaled<c09, 140000, 1>), 5000, 300000, false, "as C09.sub with texts, lists or limits up to 140000; non-trivial when one of them is of that order");
PROPERTY("C09.subst-scale", "subst at scale", (scaled<c09subst, 140000, 1>), 3000, 180000, false, "as C09.subst with texts, lists or limits up to 140000; non-trivial when one of them is of that order");
PROPERTY("C11.string-scale", "string at scale", (scaled<c11s, 200000, 1>), 4000, 240000, false, "as C11.string with texts, lists or limits up to 200000; non-trivial when one of them is of that order");
PROPERTY("C27.in-scale", "in at scale", (scaled<c27in, 200000, 1>), 3000, 180000, false, "as C27.in with texts, lists or limits up to 200000; non-trivial when one of them is of that order");
PROPERTY("C27.out-scale", "out at scale", (scaled<c27out, 200000, 1>), 3000, 180000, false, "as C27.out with texts, lists or limits up to 200000; non-trivial when one of them is of that order");
PROPERTY("C04.array-int-scale", "array-int at scale", (scaled<c04arr<int>, 140000, 1>), 1500, 60000, false, "as C04.array-int with up to 140000 elements; non-trivial when one of them is of that order");
PROPERTY("C06.array-int-scale", "array-int at scale", (scaled<c06arr<int>, 140000, 1>), 1500, 60000, false, "as C06.array-int with up to 140000 elements; non-trivial when one of them is of that order");
PROPERTY("C11.array-int-scale", "array-int at scale", (scaled<c11arr<int>, 140000, 1>), 1500, 60000, false, "as C11.array-int with up to 140000 elements; non-trivial when one of them is of that order");
