// A pool of bd::Strings with a std::string model each, and the operations on them.
#ifndef STRWORLD_H
#define STRWORLD_H
#include "pbt.h"
#include "String.h"
#include "Array.h"
#include "HashTable.h"
#include <memory>
#include <algorithm>
#include <stdexcept>
#include <limits>

using pbt::Src;
using pbt::q;
typedef bd::String BS;
typedef std::string SS;
static const size_t NPOS = bd::String::npos;

inline SS val(const BS& s) {  // value through the public interface
  size_t n = s.length();
  SS r;
  const char* p = s.data();
  REQUIRE(n < (size_t(1) << 30), "implausible length %zu", n);
  REQUIRE(n == 0 || p != nullptr, "length %zu but no data", n);
  r.reserve(n);
  for (size_t i = 0; i < n; ++i) r.push_back(p[i]);
  return r;
}
inline bool same(const BS& s, const SS& m) { return s.length() == m.size() && (m.empty() || (s.data() && memcmp(s.data(), m.data(), m.size()) == 0)); }
inline void expect(const BS& s, const SS& m, const char* what) {
  if (!same(s, m)) pbt::fail("%s: got %s, expected %s", what, q(val(s)).c_str(), q(m).c_str());
}

// ---- reference semantics -------------------------------------------------
namespace ref {
inline SS substr(const SS& m, int64_t start, int64_t len) {
  int64_t L = (int64_t)m.size();
  if (start >= L) return SS();
  if (start < 0) start += L;
  if (start < 0) start = 0;
  int64_t rest = L - start;
  if (len == -1) len = rest;
  else if (len < 0) { len = len < -rest ? 0 : rest + len; }
  if (len > rest) len = rest;
  return m.substr(start, len);
}
inline SS insert(const SS& m, size_t pos, const SS& x, size_t n = NPOS) { SS r(m); r.insert(pos, x, 0, std::min(n, x.size())); return r; }
inline SS replace(const SS& m, size_t pos, const SS& x, size_t n = NPOS) {
  if (n == 0) return m;
  SS y = x.substr(0, std::min(n, x.size()));
  SS r(m);
  if (r.size() < pos + y.size()) r.resize(pos + y.size());
  for (size_t i = 0; i < y.size(); ++i) r[pos + i] = y[i];
  return r;
}
inline bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
inline SS trim(const SS& m) {
  size_t a = 0, b = m.size();
  while (a < b && sp(m[a])) ++a;
  while (b > a && sp(m[b - 1])) --b;
  return m.substr(a, b - a);
}
inline SS chomp(SS m) {
  if (!m.empty() && m.back() == '\n') m.pop_back();
  if (!m.empty() && m.back() == '\r') m.pop_back();
  return m;
}
}

struct StrWorld {
  static const unsigned MAXS = 7;
  Src& g;
  struct Slot { std::unique_ptr<BS> s; SS m; };
  std::vector<Slot> v;
  size_t maxLen;
  bool large = false;  // texts around and beyond 64 KiB
  bool checkAllEvery = true;
  unsigned sharedOps = 0, edits = 0;

  explicit StrWorld(Src& g_, size_t maxLen_ = 70000) : g(g_), maxLen(maxLen_) { v.reserve(MAXS + 1); }

  BS& S(unsigned i) { return *v[i].s; }
  SS& M(unsigned i) { return v[i].m; }
  unsigned any() { return (unsigned)g.draw(v.size()); }

  void verify(const char* what) {
    for (unsigned i = 0; i < v.size(); ++i) {
      const BS& s = *v[i].s;
      const SS& m = v[i].m;
      if (!same(s, m))
        pbt::fail("after %s: String #%u is %s, expected %s", what, i, q(val(s)).c_str(), q(m).c_str());
      REQUIRE(s.size() == m.size() && s.isEmpty() == m.empty() && (!s) == m.empty() && bool(s) == !m.empty(), "after %s: size/isEmpty/bool disagree with length on #%u", what, i);
    }
  }
  // every live String: reference count equals the number of pool members in the same storage block
  void verifyCounts(const char* what) {
    for (unsigned i = 0; i < v.size(); ++i) {
      const void* b = pbt::mem::blockOf(v[i].s->data());
      if (!v[i].s->data() || !b) continue;
      size_t c = 0;
      for (unsigned j = 0; j < v.size(); ++j) if (v[j].s->data() && pbt::mem::blockOf(v[j].s->data()) == b) ++c;
      REQUIRE(v[i].s->rcount() == c, "after %s: String #%u reports %zu references, %zu Strings share its storage", what, i, v[i].s->rcount(), c);
      REQUIRE(v[i].s->isShared() == (c > 1), "after %s: isShared wrong on #%u", what, i);
    }
  }

  SS text() {
    if (large && g.draw(3) == 0) {
      static const SS als[] = {SS("ab"), SS("abc\0\n\r \t", 8), SS("\0\x01\x7f\x80\xff" "az", 7), SS(" \t\n", 3)};
      g.label("large-text");
      return g.exactly(g.hugeLen(), als[g.draw(4)]);
    }
    SS t = g.bytes(maxLen);
    return t;
  }
  size_t lenOf() { return large && g.draw(3) == 0 ? g.hugeLen() : g.len(maxLen); }
  SS textNoNul() {
    SS t = text();
    for (auto& c : t) if (c == '\0') c = '0';
    return t;
  }

  // a freshly constructed String by a random construction path
  std::unique_ptr<BS> make(SS& m) {
    std::unique_ptr<BS> r;
    switch (g.draw(11)) {
      case 0: m = textNoNul(); r.reset(new BS(m.c_str())); g.note("String(%s) from C string", q(m).c_str()); break;
      case 1: m = text(); r.reset(new BS(m.data(), m.size())); g.note("String(%s, %zu)", q(m).c_str(), m.size()); break;
      case 2: m = text(); r.reset(new BS(m)); g.note("String(std::string %s)", q(m).c_str()); break;
      case 3: { char c = (char)g.draw(256); m = SS(1, c); r.reset(new BS(c)); g.note("String(char %s)", q(m).c_str()); break; }
      case 4: { size_t n = lenOf(); m.clear(); r.reset(new BS(n)); g.note("String(capacity %zu)", n); g.label("ctor-capacity"); break; }
      case 5: { size_t n = lenOf(); char c = "ab\0"[g.draw(3)]; m = SS(n, c); r.reset(new BS(n, c)); g.note("String(%zu x %s)", n, q(SS(1, c)).c_str()); g.label("ctor-fill"); break; }
      case 6: { // initializer lists of a few sizes
        switch (g.draw(5)) {
          case 0: r.reset(new BS({'a', 'b'})); m = "ab"; break;
          case 1: r.reset(new BS({'x', 'y', 'z'})); m = "xyz"; break;
          case 2: r.reset(new BS({'a', '\0', 'b', 'a'})); m = SS("a\0ba", 4); break;
          case 3: r.reset(new BS({'q', 'w', 'e', 'r', 't', 'y', 'u', 'i', 'o', 'p', 'a', 's', 'd', 'f', 'g', 'h'})); m = "qwertyuiopasdfgh"; break;
          default: r.reset(new BS({'0', '1', '2', '3', '4', '5', '6'})); m = "0123456"; break;
        }
        g.note("String(initializer list %s)", q(m).c_str()); g.label("ctor-init-list"); break;
      }
      case 7: m = text(); r.reset(new BS(m.begin(), m.end())); g.note("String(iterators over %s)", q(m).c_str()); g.label("ctor-iterators"); break;
      case 8: m.clear(); if (g.draw(4) == 0) { r.reset(new BS(static_cast<const char*>(nullptr))); g.note("String(null)"); } else { r.reset(new BS()); g.note("String()"); } break;
      case 9: { m = textNoNul(); size_t extra = g.len(64); r.reset(new BS(m.size() + extra)); *r += m.c_str(); g.note("String(capacity %zu) += %s", m.size() + extra, q(m).c_str()); break; }
      default: m = text(); { BS t(m); r.reset(new BS(t)); } g.note("String(copy of temporary %s)", q(m).c_str()); break;
    }
    return r;
  }

  void addNew() {
    if (v.size() >= MAXS) { destroy(any()); }
    Slot sl;
    g.note("#%zu =", v.size());
    sl.s = make(sl.m);
    v.push_back(std::move(sl));
  }
  void destroy(unsigned i) {
    g.note("destroy #%u", i);
    v.erase(v.begin() + i);
  }
  void addCopy(unsigned i) {
    if (v.size() >= MAXS) { destroy((unsigned)((i + 1) % v.size())); if (i >= v.size()) i = 0; }
    Slot sl;
    sl.m = M(i);
    if (g.draw(3) != 2) { g.note("#%zu = copy of #%u", v.size(), i); sl.s.reset(new BS(S(i))); }
    else { g.note("#%zu = moved from #%u", v.size(), i); sl.s.reset(new BS(std::move(S(i)))); M(i) = val(S(i)); g.label("move-construct"); }
    v.push_back(std::move(sl));
  }
  int64_t startFor(size_t L) {
    switch (g.draw(12)) {
      case 0: return (int64_t)g.draw(L + 3);
      case 1: return -(int64_t)g.draw(L + 3);
      case 2: return (int64_t)L;
      case 3: return -(int64_t)L;
      case 4: return 0;
      default: return (int64_t)g.draw(L + 1);
    }
  }
  int64_t lenFor(size_t L) {
    switch (g.draw(10)) {
      case 0: return -1;
      case 1: return -(int64_t)g.draw(L + 3);
      case 2: return 0;
      case 3: return (int64_t)L;
      case 4: return (int64_t)L + 1 + (int64_t)g.draw(4);
      default: return (int64_t)g.draw(L + 1);
    }
  }
  void addSub(unsigned i) {
    if (v.size() >= MAXS) { destroy((unsigned)((i + 1) % v.size())); if (i >= v.size()) i = 0; }
    Slot sl;
    int64_t st = startFor(M(i).size()), ln = lenFor(M(i).size());
    sl.m = ref::substr(M(i), st, ln);
    g.note("#%zu = #%u(%lld, %lld)", v.size(), i, (long long)st, (long long)ln);
    switch (g.draw(4)) {
      case 0: sl.s.reset(new BS(S(i).substring(st, ln))); break;
      case 1: { const BS& c = S(i); sl.s.reset(new BS(c(st, ln))); break; }
      case 2: sl.s.reset(new BS(S(i)(st, ln))); break;
      default: sl.s.reset(new BS(S(i)(st, ln).get())); break;
    }
    g.label("substring");
    v.push_back(std::move(sl));
  }
  void addConcat(unsigned i, unsigned j) {
    if (v.size() >= MAXS) return;
    Slot sl;
    if (g.draw(4)) {
      if (M(i).size() + M(j).size() > maxLen) return;
      sl.m = M(i) + M(j);
      g.note("#%zu = #%u + #%u", v.size(), i, j);
      sl.s.reset(new BS(S(i) + S(j)));
    } else {
      int k = (int)g.draw(5);
      if (M(i).size() * k > maxLen) return;
      for (int a = 0; a < k; ++a) sl.m += M(i);
      g.note("#%zu = #%u * %d", v.size(), i, k);
      sl.s.reset(new BS(S(i) * k));
    }
    v.push_back(std::move(sl));
  }

  void assign(unsigned i, unsigned j) {
    switch (g.draw(8)) {
      case 0: case 1: g.note("#%u = #%u", i, j); S(i) = S(j); M(i) = M(j); break;
      case 2: g.note("#%u = move(#%u)", i, j); { SS t = M(j); S(i) = std::move(S(j)); M(i) = t; if (i != j) M(j) = val(S(j)); } g.label("move-assign"); break;
      case 3: { SS t = textNoNul(); g.note("#%u = C string %s", i, q(t).c_str()); S(i) = t.c_str(); M(i) = t; break; }
      case 4: { SS t = text(); g.note("#%u = std::string %s", i, q(t).c_str()); S(i) = t; M(i) = t; break; }
      case 5: g.note("#%u = {'k','l','m'}", i); S(i) = {'k', 'l', 'm'}; M(i) = "klm"; break;
      case 6: { g.note("swap(#%u, #%u)", i, j); using std::swap; swap(S(i), S(j)); std::swap(M(i), M(j)); break; }
      default: {
        int64_t st = startFor(M(j).size()), ln = lenFor(M(j).size());
        g.note("#%u = #%u(%lld, %lld)", i, j, (long long)st, (long long)ln);
        SS t = ref::substr(M(j), st, ln);
        S(i) = S(j)(st, ln);
        M(i) = t;
        g.label("assign-substring");
      }
    }
  }

  size_t nFor(size_t L) {  // a limit argument
    switch (g.draw(6)) {
      case 0: return NPOS;
      case 1: return L;
      case 2: return L + 1 + g.draw(3);
      case 3: return g.draw(2);
      default: return g.draw(L + 1);
    }
  }
  size_t posFor(size_t L) {
    switch (g.draw(5)) {
      case 0: return 0;
      case 1: return L;
      default: return g.draw(L + 1);
    }
  }

  // text edit of #i; j is a possible String argument (may equal i)
  void edit(unsigned i, unsigned j) {
    BS& s = S(i);
    SS& m = M(i);
    bool tooBig = m.size() > maxLen || m.size() + M(j).size() > maxLen * 2;
    unsigned k = (unsigned)g.draw(34);
    if (tooBig && k < 24) k = 24 + k % 4;
    ++edits;
    if (s.isShared()) ++sharedOps, g.label("edit-shared");
    else if (s.capacity() && m.size() == s.capacity()) g.label("edit-exactly-full");
    size_t pos = posFor(m.size());
    switch (k) {
      case 0: { char c = (char)g.draw(256); g.note("#%u += %s", i, q(SS(1, c)).c_str()); if (g.draw(2)) s += c; else if (g.draw(2)) s.push_back(c); else s.append(c); m += c; break; }
      case 1: { SS t = textNoNul(); g.note("#%u += C string %s", i, q(t).c_str()); if (g.draw(2)) s += t.c_str(); else s.append(t.c_str()); m += t; break; }
      case 2: { SS t = text(); size_t n = g.draw(t.size() + 1); g.note("#%u.append(C string %s, %zu)", i, q(t).c_str(), n); s.append(t.data(), n); m += t.substr(0, n); break; }
      case 3: g.note("#%u += #%u", i, j); { SS t = M(j); if (g.draw(2)) s += S(j); else s.append(S(j)); m += t; } if (i == j) g.label("self-append"); break;
      case 4: { size_t n = nFor(M(j).size()); g.note("#%u.append(#%u, %zd)", i, j, (ssize_t)n); SS t = M(j).substr(0, std::min(n, M(j).size())); s.append(S(j), n); m += t; break; }
      case 5: { SS t = text(); g.note("#%u += String temporary %s", i, q(t).c_str()); if (g.draw(2)) s += BS(t); else s.append(BS(t)); m += t; break; }
      case 6: { char c = (char)g.draw(256); g.note("#%u.insert(%zu, %s)", i, pos, q(SS(1, c)).c_str()); s.insert(pos, c); m.insert(m.begin() + pos, c); break; }
      case 7: { SS t = textNoNul(); g.note("#%u.insert(%zu, C string %s)", i, pos, q(t).c_str()); s.insert(pos, t.c_str()); m.insert(pos, t); break; }
      case 8: { SS t = text(); size_t n = g.draw(t.size() + 1); g.note("#%u.insert(%zu, C string %s, %zu)", i, pos, q(t).c_str(), n); s.insert(pos, t.data(), n); m.insert(pos, t, 0, n); break; }
      case 9: { g.note("#%u.insert(%zu, #%u)", i, pos, j); SS t = M(j); s.insert(pos, S(j)); m.insert(pos, t); if (i == j) g.label("self-insert"); break; }
      case 10: { size_t n = nFor(M(j).size()); g.note("#%u.insert(%zu, #%u, %zd)", i, pos, j, (ssize_t)n); SS t = ref::insert(m, pos, M(j), n); s.insert(pos, S(j), n); m = t; break; }
      case 11: { SS t = text(); g.note("#%u.insert(%zu, String temporary %s)", i, pos, q(t).c_str()); if (g.draw(2)) { s.insert(pos, BS(t)); m.insert(pos, t); } else { size_t n = nFor(t.size()); s.insert(pos, BS(t), n); m = ref::insert(m, pos, t, n); } break; }
      case 12: { SS t = M(j); if (i == j) break; g.note("#%u.insert(%zu, move(#%u))", i, pos, j); s.insert(pos, std::move(S(j))); m.insert(pos, t); M(j) = val(S(j)); g.label("insert-move"); break; }
      case 13: { char c = (char)g.draw(256); g.note("#%u.insert(iterator %zu, %s)", i, pos, q(SS(1, c)).c_str()); auto it = s.insert(s.cbegin() + pos, c); m.insert(m.begin() + pos, c); REQUIRE((size_t)(it - s.cbegin()) == pos && *it == c, "iterator insert returns a wrong position"); break; }
      case 14: { SS t = g.bytes(64); g.note("#%u.insert(iterator %zu, range %s)", i, pos, q(t).c_str()); auto it = s.insert(s.cbegin() + pos, t.begin(), t.end()); m.insert(pos, t); REQUIRE((size_t)(it - s.cbegin()) == pos, "iterator range insert returns a wrong position"); break; }
      case 15: { char c = (char)g.draw(256); g.note("#%u.replace(%zu, %s)", i, pos, q(SS(1, c)).c_str()); s.replace(pos, c); m = ref::replace(m, pos, SS(1, c)); break; }
      case 16: { SS t = textNoNul(); g.note("#%u.replace(%zu, C string %s)", i, pos, q(t).c_str()); s.replace(pos, t.c_str()); m = ref::replace(m, pos, t); break; }
      case 17: { SS t = text(); size_t n = g.draw(t.size() + 1); g.note("#%u.replace(%zu, C string %s, %zu)", i, pos, q(t).c_str(), n); s.replace(pos, t.data(), n); m = ref::replace(m, pos, t, n); break; }
      case 18: { g.note("#%u.replace(%zu, #%u)", i, pos, j); SS t = ref::replace(m, pos, M(j)); s.replace(pos, S(j)); m = t; break; }
      case 19: { size_t n = nFor(M(j).size()); g.note("#%u.replace(%zu, #%u, %zd)", i, pos, j, (ssize_t)n); SS t = ref::replace(m, pos, M(j), n); s.replace(pos, S(j), n); m = t; break; }
      case 20: { SS t = text(); size_t n = nFor(t.size()); g.note("#%u.replace(%zu, String temporary %s, %zd)", i, pos, q(t).c_str(), (ssize_t)n); s.replace(pos, BS(t), n); m = ref::replace(m, pos, t, n); break; }
      case 21: { // slice assignment
        int64_t ln = lenFor(M(j).size());
        if (ln < -1) ln = -1;
        size_t st = posFor(m.size());
        g.note("#%u(%zu, %lld) = #%u", i, st, (long long)ln, j);
        SS t = ref::replace(m, st, M(j), (size_t)ln);
        if (g.draw(2)) s((ssize_t)st, (ssize_t)ln) = S(j); else s((ssize_t)st, (ssize_t)ln) = BS(S(j));
        m = t;
        g.label("slice-assign");
        break;
      }
      case 22: { // slice = slice
        int64_t a = startFor(M(j).size()), b = lenFor(M(j).size());
        size_t st = posFor(m.size());
        g.note("#%u(%zu, -1) = #%u(%lld, %lld)", i, st, j, (long long)a, (long long)b);
        SS t = ref::replace(m, st, ref::substr(M(j), a, b));
        BS tmp(S(j)(a, b));
        s((ssize_t)st, -1) = tmp;
        m = t;
        break;
      }
      case 23: { // insert from the String's own storage
        if (m.empty()) break;
        size_t a = g.draw(m.size()), n = g.draw(m.size() - a + 1);
        if (!n) break;
        g.label("alias-own-bytes");
        SS t = m.substr(a, n);
        switch (g.draw(5)) {
          case 0: g.note("#%u.insert(%zu, own data+%zu, %zu)", i, pos, a, n); s.insert(pos, s.data() + a, n); m.insert(pos, t); break;
          case 1: g.note("#%u.replace(%zu, own data+%zu, %zu)", i, pos, a, n); s.replace(pos, s.data() + a, n); m = ref::replace(m, pos, t); break;
          case 2: { g.note("#%u.push_back(own char %zu)", i, a); const BS& c = s; s.push_back(c[a]); m += t[0]; break; }
          case 3: { g.note("#%u.insert(%zu, own char %zu)", i, pos, a); const BS& c = s; s.insert(pos, c[a]); m.insert(pos, SS(1, t[0])); break; }
          default: { g.note("#%u += #%u(%zu,%zu)", i, i, a, n); s += s.substring(a, n); m += t; break; }
        }
        break;
      }
      case 24: { size_t n = g.draw(m.size() + 1); g.note("#%u.resize(%zu)", i, n); s.resize(n); m.resize(n); break; }
      case 25: { size_t n = g.draw(4) ? lenOf() : m.size() + g.draw(4); char c = (char)g.draw(256); g.note("#%u.resize(%zu, %s)", i, n, q(SS(1, c)).c_str()); s.resize(n, c); m.resize(n, c); break; }
      case 26: g.note("#%u.clear()", i); s.clear(); m.clear(); break;
      case 27: { if (m.empty()) break; g.note("#%u.pop_back()", i); s.pop_back(); m.pop_back(); break; }
      case 28: { // grow without a value: contents of the new part are unspecified
        if (m.size() > maxLen) break;
        size_t n = m.size() + g.draw(40); g.note("#%u.resize(%zu) (growing)", i, n); s.resize(n);
        REQUIRE(s.length() == n, "resize(%zu) gave length %zu", n, s.length());
        SS t = val(s);
        REQUIRE(t.compare(0, m.size(), m) == 0, "resize changed existing text: %s, was %s", q(t).c_str(), q(m).c_str());
        m = t; break;
      }
      case 29: case 30: case 31: case 32: { // single character writes
        if (m.empty()) break;
        size_t p = g.draw(m.size());
        char c = (char)g.draw(256);
        switch (g.draw(9)) {
          case 0: g.note("#%u[%zu] = %s", i, p, q(SS(1, c)).c_str()); s[p] = c; break;
          case 1: g.note("#%u.write(%zu, %s)", i, p, q(SS(1, c)).c_str()); s.write(p, c); break;
          case 2: g.note("#%u[%zu].mget() = %s", i, p, q(SS(1, c)).c_str()); s[p].mget() = c; break;
          case 3: g.note("*(#%u.begin() + %zu) = %s", i, p, q(SS(1, c)).c_str()); *(s.begin() + p) = c; break;
          case 4: g.note("#%u.mdata()[%zu] = %s", i, p, q(SS(1, c)).c_str()); s.mdata()[p] = c; break;
          case 5: p = 0; g.note("#%u.front() = %s", i, q(SS(1, c)).c_str()); s.front() = c; g.label("front-write"); break;
          case 6: p = m.size() - 1; g.note("#%u.back() = %s", i, q(SS(1, c)).c_str()); s.back() = c; g.label("back-write"); break;
          case 7: g.note("*(#%u.rbegin() + %zu) = %s", i, m.size() - 1 - p, q(SS(1, c)).c_str()); *(s.rbegin() + (m.size() - 1 - p)) = c; break;
          default: { size_t b = g.draw(m.size()); g.note("#%u[%zu] = #%u[%zu]", i, p, i, b); c = m[b]; s[p] = s[b]; break; }
        }
        m[p] = c;
        break;
      }
      default: { size_t n = g.draw(3) ? g.draw(m.size() + 20) : lenOf(); g.note("#%u.reserve(%zu)", i, n); s.reserve(n); REQUIRE(s.capacity() >= n, "reserve(%zu) left capacity %zu", n, s.capacity()); g.label("reserve"); break; }
    }
  }
  // window operations on #i
  void window(unsigned i) {
    BS& s = S(i);
    SS& m = M(i);
    switch (g.draw(10)) {
      case 0: case 1: { size_t n = g.draw(m.size() + 2); g.note("#%u += size_t(%zu)", i, n); BS& r = (s += n); REQUIRE(&r == &s, "operator+= must return its target"); m = n > m.size() ? SS() : m.substr(n); break; }
      case 2: case 3: { size_t n = g.draw(m.size() + 2); g.note("#%u -= size_t(%zu)", i, n); s -= n; m = n > m.size() ? SS() : m.substr(0, m.size() - n); break; }
      case 4: { g.note("++#%u", i); const BS& r = ++s; if (!m.empty()) m.erase(0, 1); expect(r, m, "prefix ++ result"); break; }
      case 5: { g.note("#%u++", i); SS old = m; BS r(s++); if (!m.empty()) m.erase(0, 1); expect(r, old, "postfix ++ result"); break; }
      case 6: { if (m.empty()) break; g.note("--#%u", i); const BS& r = --s; m.pop_back(); expect(r, m, "prefix -- result"); break; }
      case 7: { if (m.empty()) break; g.note("#%u--", i); SS old = m; BS r(s--); m.pop_back(); expect(r, old, "postfix -- result"); break; }
      case 8: { int64_t a = startFor(m.size()), b = lenFor(m.size()); g.note("#%u.slice(%lld, %lld)", i, (long long)a, (long long)b); s.slice(a, b); m = ref::substr(m, a, b); break; }
      default: {
        g.note("trim/chomp #%u", i);
        if (g.draw(2)) { BS& r = s.trim(); REQUIRE(&r == &s, "trim must return its target"); m = ref::trim(m); }
        else { s.chomp(); m = ref::chomp(m); }
      }
    }
    g.label("window-op");
  }
  // operations that only look
  void look(unsigned i) {
    const BS& s = S(i);
    const SS& m = M(i);
    switch (g.draw(10)) {
      case 0: case 1: { g.note("#%u.c_str()", i); const char* p = g.draw(2) ? s.c_str() : *s; REQUIRE(memcmp(p, m.data(), m.size()) == 0, "c_str of #%u shows %s, expected %s", i, q(p, m.size()).c_str(), q(m).c_str()); REQUIRE(p[m.size()] == '\0', "c_str of #%u not terminated at its length %zu", i, m.size()); break; }
      case 2: { g.note("#%u.hash()", i); (void)s.hash(); break; }
      case 3: { g.note("iterate #%u", i); SS t(s.begin(), s.end()); REQUIRE(t == m, "const iteration of #%u gives %s", i, q(t).c_str()); SS t2(s.rbegin(), s.rend()); std::reverse(t2.begin(), t2.end()); REQUIRE(t2 == m, "reverse iteration of #%u differs", i); break; }
      case 4: { g.note("mutable iterate #%u", i); BS& w = S(i); SS t(w.begin(), w.end()); REQUIRE(t == m, "iteration of #%u gives %s", i, q(t).c_str()); SS t2(w.rbegin(), w.rend()); std::reverse(t2.begin(), t2.end()); REQUIRE(t2 == m, "reverse iteration of #%u differs", i); break; }
      case 5: { if (m.empty()) break; size_t p = g.draw(m.size()); g.note("#%u.at(%zu)", i, p); REQUIRE(s.at(p) == m[p] && s[p] == m[p] && s.charAt(p) == m[p] && s.read(p) == m[p] && (char)S(i)[p] == m[p], "element %zu of #%u wrong", p, i); REQUIRE(s.front() == m.front() && s.back() == m.back(), "front/back of #%u wrong", i); REQUIRE(S(i).front() == m.front() && S(i).back() == m.back(), "front/back of #%u wrong", i); break; }
      case 6: { g.note("std::string(#%u)", i); SS t = s; REQUIRE(t == m, "std::string conversion of #%u gives %s", i, q(t).c_str()); break; }
      case 7: { g.note("#%u.dup()", i); std::unique_ptr<char[]> d(s.dup()); REQUIRE(memcmp(d.get(), m.data(), m.size()) == 0 && d[m.size()] == '\0', "dup of #%u wrong", i); break; }
      case 8: { g.note("#%u.reserve", i); s.reserve(m.size()); break; }
      default: { unsigned j = any(); g.note("#%u == #%u", i, j); REQUIRE((s == S(j)) == (m == M(j)), "#%u == #%u gives %d", i, j, (int)(s == S(j))); break; }
    }
  }
};
#endif
