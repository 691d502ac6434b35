// C14 HashTable, C19/C20 base64, C21 bounded C strings
#include "strworld.h"
#include "base64.h"
#include "Cstrings.h"
#include <map>
#include <set>
#include <unordered_map>

// ---- C14 ------------------------------------------------------------------
// Key/value adaptors: a model value (std::string) and how to build/show the real one.
struct KS { typedef BS T; static T mk(const SS& s) { return BS(s); } static SS rd(const T& t) { return val(t); } static SS gen(Src& g) {
    static const SS pieces[] = {"aB", "b!", "c", "", SS("\0", 1), "\xff"};
    SS s; unsigned n = (unsigned)g.draw(4); for (unsigned i = 0; i < n; ++i) s += pieces[g.draw(g.draw(3) ? 2 : 6)]; return s; }
  static SS nth(unsigned i) { return "k" + std::to_string(i); } };
struct KI { typedef int T; static T mk(const SS& s) { return s.empty() ? 0 : atoi(s.c_str()); } static SS rd(const T& t) { return std::to_string(t); } static SS gen(Src& g) { return std::to_string((int)g.range(-4, 8) * (g.draw(3) ? 1 : 103)); } static SS nth(unsigned i) { return std::to_string((int)i * 37 - 900); } };
struct KA { typedef bd::Array<BS> T;  // arrays of strings, encoded with \x01 after every element
  static T mk(const SS& s) { T a; SS c; for (char ch : s) { if (ch == 1) { a.push_back(BS(c)); c.clear(); } else c += ch; } return a; }
  static SS rd(const T& t) { SS o; const T& c = t; for (size_t i = 0; i < c.length(); ++i) o += val(c[i]) + '\1'; return o; }
  static SS gen(Src& g) { SS s; unsigned n = (unsigned)g.draw(3); for (unsigned i = 0; i < n; ++i) { s += g.bytesOver("ab!B", 2); s += '\1'; } return s; }
  static SS nth(unsigned i) { return "k" + std::to_string(i % 7) + "\1" + std::to_string(i) + "\1"; } };

template <class K, class V> static void c14(Src& g) {
  typedef typename K::T KT;
  typedef typename V::T VT;
  typedef bd::HashTable<KT, VT> H;
  typedef std::map<SS, SS> M;
  std::vector<std::pair<std::unique_ptr<H>, M>> pool;
  // objects that share storage with keys and values in the tables; edited later
  std::vector<std::pair<VT, SS>> outside;
  std::vector<std::pair<KT, SS>> outkeys;
  auto fresh = [&] {
    if (g.draw(3) == 0) { size_t c = g.draw(4) ? g.draw(4) : g.draw(300); g.note("table with capacity %zu", c); pool.emplace_back(std::unique_ptr<H>(new H(c)), M()); }
    else { g.note("new table"); pool.emplace_back(std::unique_ptr<H>(new H()), M()); }
  };
  auto check = [&](size_t t, const char* what) {
    const H& h = *pool[t].first;
    M& m = pool[t].second;
    REQUIRE(h.size() == m.size(), "after %s: table %zu has %zu entries, expected %zu", what, t, h.size(), m.size());
    REQUIRE(h.isEmpty() == m.empty() && bool(h) == !m.empty(), "after %s: isEmpty/bool wrong", what);
    M seen;
    for (const auto& kv : h) {
      SS k = K::rd(kv.first), v = V::rd(kv.second);
      REQUIRE(seen.insert(std::make_pair(k, v)).second, "after %s: iteration shows key %s twice", what, q(k).c_str());
    }
    REQUIRE(seen == m, "after %s: iteration over table %zu shows different entries than expected", what, t);
    for (auto& kv : m) {
      KT k = K::mk(kv.first);
      REQUIRE(h.contains(k), "after %s: key %s is missing", what, q(kv.first).c_str());
      REQUIRE(V::rd(h.getValue(k)) == kv.second, "after %s: key %s has value %s, expected %s", what, q(kv.first).c_str(), q(V::rd(h.getValue(k))).c_str(), q(kv.second).c_str());
    }
  };
  auto refused = [&](bool no, KT* key, VT* value, const SS& k, const SS& v) {
    if (!no) return;
    g.label("refused-move");
    if (key) REQUIRE(K::rd(*key) == k, "a refused insert took the key it was given");
    if (value) REQUIRE(V::rd(*value) == v, "a refused insert took the value it was given");
  };
  fresh();
  unsigned n = 0;
  bool removed = false;
  while (g.more(25) && n++ < 150) {
    size_t t = g.draw(pool.size());
    SS k = K::gen(g), v = V::gen(g);
    if (g.draw(4) && !pool[t].second.empty()) { auto it = pool[t].second.begin(); std::advance(it, g.draw(pool[t].second.size())); k = it->first; }
    bool has = pool[t].second.count(k) > 0;
    H& h = *pool[t].first;
    M& m = pool[t].second;
    KT kk = K::mk(k);
    VT vv = V::mk(v);
    unsigned op = (unsigned)g.draw(20);
    bool huge = g.huge();
    if (huge || g.draw(1500) == 1499) {  // many keys at once, some removed again
      unsigned c = (unsigned)(huge ? g.hugeLen(g.scaleMax) : g.longLen(1100)); g.note("table %zu: bulk insert of %u keys", t, c); g.label("many-keys");
      for (unsigned i = 0; i < c; ++i) { SS x = K::nth(i); if (h.insert(K::mk(x), vv) != !m.count(x)) pbt::fail("bulk insert of %s reported wrongly", q(x).c_str()); m.insert(std::make_pair(x, v)); }
      check(t, "bulk insert");
      unsigned from = (unsigned)g.draw(c + 1), to = (unsigned)g.draw(c + 1);
      for (unsigned i = from; i < to; ++i) { SS x = K::nth(i); if (h.remove(K::mk(x)) != (m.erase(x) > 0)) pbt::fail("bulk remove of %s reported wrongly", q(x).c_str()); }
      check(t, "bulk remove");
      if (g.draw(3)) { for (unsigned i = 0; i < c; ++i) { SS x = K::nth(i); h.remove(K::mk(x)); m.erase(x); } }
      check(t, "bulk removal of all");
      continue;
    }
    switch (op) {
      case 0: case 1: case 2: {
        g.note("table %zu insert %s -> %s", t, q(k).c_str(), q(v).c_str());
        bool r;
        switch (g.draw(4)) {
          case 0: r = h.insert(kk, vv); outside.emplace_back(vv, v); outkeys.emplace_back(kk, k); break;
          case 1: { KT mk(kk); r = h.insert(std::move(mk), vv); outside.emplace_back(vv, v); refused(!r, &mk, nullptr, k, v); break; }
          case 2: { VT mv(vv); r = h.insert(kk, std::move(mv)); refused(!r, nullptr, &mv, k, v); break; }
          default: { KT mk(kk); VT mv(vv); r = h.insert(std::move(mk), std::move(mv)); refused(!r, &mk, &mv, k, v); break; }
        }
        REQUIRE(r == !has, "insert of %s returned %d", has ? "an existing key" : "a new key", r);
        if (!has) m[k] = v; else g.label("insert-existing");
        break;
      }
      case 3: case 4: {
        g.note("table %zu [%s] = %s", t, q(k).c_str(), q(v).c_str());
        if (g.draw(2)) h[kk] = vv; else h[KT(kk)] = vv;
        m[k] = v;
        if (has) g.label("overwrite");
        break;
      }
      case 5: { g.note("table %zu [%s]", t, q(k).c_str()); VT& r = h[kk]; SS want = has ? m[k] : V::rd(VT()); REQUIRE(V::rd(r) == want, "subscript shows %s, expected %s", q(V::rd(r)).c_str(), q(want).c_str()); m[k] = want; break; }
      case 6: case 7: { g.note("table %zu remove %s", t, q(k).c_str()); bool r = h.remove(kk); REQUIRE(r == has, "remove of %s key returned %d", has ? "an existing" : "an absent", r); m.erase(k); if (has) { removed = true; g.label("remove"); } break; }
      case 8: { const H& c = h; g.note("table %zu lookup %s", t, q(k).c_str()); SS want = has ? m[k] : V::rd(VT());
        REQUIRE(V::rd(c[kk]) == want, "lookup shows %s, expected %s", q(V::rd(c[kk])).c_str(), q(want).c_str());
        REQUIRE(V::rd(c.getValue(kk)) == want && c.contains(kk) == has, "getValue/contains wrong");
        REQUIRE((c.find(kk) != c.end()) == has, "const find wrong");
        auto it = h.find(kk);
        REQUIRE((it != h.end()) == has && (!has || (K::rd(it->first) == k && V::rd(it->second) == want)), "find wrong");
        if (!has) g.label("absent-lookup");
        break; }
      case 9: { if (pool.size() < 4) { g.note("copy of table %zu", t); pool.emplace_back(std::unique_ptr<H>(new H(h)), m); g.label("copy"); } break; }
      case 10: { size_t u = g.draw(pool.size()); g.note("table %zu = table %zu", u, t); *pool[u].first = h; M c = m; pool[u].second = c; break; }
      case 11: { if (pool.size() < 4) { g.note("move of table %zu", t); H* nh = new H(std::move(h)); M c = m; pool[t].second.clear(); for (auto& kv : *pool[t].first) pool[t].second[K::rd(kv.first)] = V::rd(kv.second); pool.emplace_back(std::unique_ptr<H>(nh), c); } break; }
      case 12: { size_t u = g.draw(pool.size()); if (u == t) break; g.note("table %zu = move(table %zu)", u, t); *pool[u].first = std::move(h); pool[u].second = m; m.clear(); for (auto& kv : h) m[K::rd(kv.first)] = V::rd(kv.second); break; }
      case 13: { size_t u = g.draw(pool.size()); g.note("swap %zu %zu", t, u); swap(*pool[t].first, *pool[u].first); std::swap(pool[t].second, pool[u].second); break; }
      case 14: { if (g.draw(3)) break; g.note("clear %zu", t); h.clear(); m.clear(); break; }
      case 15: { // edit through the iterator
        if (m.empty()) break;
        g.note("table %zu: set the value of %s through an iterator", t, q(k).c_str());
        if (!has) break;
        auto it = h.find(kk); REQUIRE(it != h.end(), "find lost key %s", q(k).c_str()); it->second = vv; m[k] = v; break; }
      case 16: { // a looked up value is a copy
        VT got = static_cast<const H&>(h).getValue(kk);
        outside.emplace_back(got, V::rd(got)); break; }
      case 17: { // from an initializer list (no key twice)
        SS k2 = K::gen(g), v2 = V::gen(g);
        if (K::rd(K::mk(k2)) == K::rd(kk)) break;
        g.label("initializer-list");
        if (g.draw(2) || pool.size() >= 4) { g.note("table %zu = {{%s, %s}, {%s, %s}}", t, q(k).c_str(), q(v).c_str(), q(k2).c_str(), q(v2).c_str()); h = {{kk, vv}, {K::mk(k2), V::mk(v2)}}; m.clear(); m[k] = v; m[k2] = v2; }
        else { g.note("new table {{%s, %s}, {%s, %s}}", q(k).c_str(), q(v).c_str(), q(k2).c_str(), q(v2).c_str()); M c; c[k] = v; c[k2] = v2; pool.emplace_back(std::unique_ptr<H>(new H{{kk, vv}, {K::mk(k2), V::mk(v2)}}), c); }
        break; }
      default: { // edit objects that share storage with table entries
        g.note("edit outside copies");
        for (auto& o : outside) o.first = V::mk(V::gen(g));
        outside.clear();
        if (pool.size() > 1 && g.draw(2)) { size_t d = g.draw(pool.size()); g.note("destroy table %zu", d); pool.erase(pool.begin() + d); }
      }
    }
    for (size_t i = 0; i < pool.size(); ++i) check(i, "step");
    for (auto& o : outside) REQUIRE(V::rd(o.first) == o.second, "a value outside the table changed");
    for (auto& o : outkeys) REQUIRE(K::rd(o.first) == o.second, "a key outside the table changed");
  }
  if (removed) g.nontrivial();
}
// edits of String keys/values that share storage with the table
static void c14alias(Src& g) {
  bd::HashTable<BS, BS> h;
  std::map<SS, SS> m;
  std::vector<BS> ks, vs;
  unsigned n = 1 + (unsigned)g.draw(12);
  for (unsigned i = 0; i < n; ++i) {
    SS base = g.bytesOver("aB!b", 6);
    BS B(base);
    size_t a = g.draw(base.size() + 1), k = g.draw(base.size() - a + 1);
    BS key = B.substring(a, k);
    SS ms = base.substr(a, k);
    if (g.draw(2)) key.hash();
    g.note("key %s (view of %s)", q(ms).c_str(), q(base).c_str());
    bool had = m.count(ms);
    if (h.insert(key, B) != !had) pbt::fail("insert reported wrongly");
    if (!had) m[ms] = base;
    ks.push_back(key); vs.push_back(B);
  }
  g.nontrivial();
  for (unsigned i = 0; i < n; ++i) {
    switch (g.draw(6)) {
      case 0: ks[i] += 'x'; break;
      case 1: if (ks[i].length()) ks[i][0] = 'Z'; break;
      case 2: vs[i].insert(size_t(0), 'Q'); break;
      case 3: vs[i].clear(); break;
      case 4: if (vs[i].length()) { vs[i].mdata()[0] = 'W'; } break;
      default: ks[i].resize(40, 'r'); break;
    }
  }
  REQUIRE(h.size() == m.size(), "size %zu, expected %zu", h.size(), m.size());
  for (auto& kv : m) {
    const bd::HashTable<BS, BS>& c = h;
    REQUIRE(c.contains(BS(kv.first)), "key %s lost after an edit of a String sharing its storage", q(kv.first).c_str());
    expect(c.getValue(BS(kv.first)), kv.second, "value");
  }
  // values edited in place must not reach their sharers
  for (auto& kv : m) { BS before(h[BS(kv.first)]); SS bt = val(before); h[BS(kv.first)] += "tail"; expect(before, bt, "copy of a value"); expect(h.getValue(BS(kv.first)), kv.second + "tail", "edited value"); }
}
PROPERTY("C14.String-String", "HashTable<String,String> histories", (c14<KS, KS>), 60000, 1500000, false, "histories over up to 4 tables with colliding keys; non-trivial when a key was removed");
PROPERTY("C14.int-String", "HashTable<int,String> histories", (c14<KI, KS>), 40000, 800000, false, "as C14.String-String");
PROPERTY("C14.String-Array", "HashTable<String,Array<String>> histories", (c14<KS, KA>), 40000, 800000, false, "as C14.String-String");
PROPERTY("C14.Array-int", "HashTable<Array<String>,int> histories", (c14<KA, KI>), 40000, 800000, false, "as C14.String-String");
PROPERTY("C14.alias", "keys and values sharing storage", c14alias, 200000, 3000000, false, "keys are views of values and are edited outside afterwards; every case is non-trivial");

// ---- C19 / C20 --------------------------------------------------------------
static const char STD64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static SS refEnc(const SS& d, const SS& al) {
  SS o;
  for (size_t i = 0; i < d.size(); i += 3) {
    unsigned v = (unsigned char)d[i] << 16;
    if (i + 1 < d.size()) v |= (unsigned char)d[i + 1] << 8;
    if (i + 2 < d.size()) v |= (unsigned char)d[i + 2];
    o += al[v >> 18];
    o += al[(v >> 12) & 63];
    o += i + 1 < d.size() ? al[(v >> 6) & 63] : '=';
    o += i + 2 < d.size() ? al[v & 63] : '=';
  }
  return o;
}
static SS alphabet(Src& g, bool& custom) {
  custom = g.draw(2);
  SS s(STD64, 64);
  if (!custom) return s;
  switch (g.draw(4)) {
    case 0: s[62] = '-'; s[63] = '_'; break;
    case 1: { // any 64 distinct bytes but the padding character
      SS all;
      for (int c = 1; c < 256; ++c) if (c != '=') all += (char)c;
      uint64_t r = g.draw(0);
      for (size_t i = all.size(); i > 1; --i) { r = r * 6364136223846793005ull + 1442695040888963407ull; std::swap(all[i - 1], all[(r >> 33) % i]); }
      s = all.substr(0, 64);
      g.label("alphabet-any-bytes");
      break;
    }
    case 2: { uint64_t r = g.draw(0); for (size_t i = 64; i > 1; --i) { r = r * 6364136223846793005ull + 1442695040888963407ull; std::swap(s[i - 1], s[(r >> 33) % i]); } g.label("alphabet-permuted"); break; }
    default: { for (int i = 0; i < 64; ++i) s[i] = (char)(128 + 2 * i % 128 + (i >= 64)); for (int i = 0; i < 64; ++i) s[i] = (char)(192 + i); g.label("alphabet-high"); }
  }
  return s;
}
struct Buf {  // exact-size heap buffer
  unsigned char* p; size_t n;
  explicit Buf(const SS& s) : p((unsigned char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); if (!n) *p = 0x7e; }
  ~Buf() { free(p); }
};
static void c19one(Src& g, char* cs) {
  SS d = g.bytes2(60, 5000);
  if (g.draw(3) == 0) { uint64_t r = g.draw(0); for (auto& c : d) { r = r * 6364136223846793005ull + 1442695040888963407ull; c = (char)(r >> 40); } }
  bool custom;
  SS al = alphabet(g, custom);
  SS e = refEnc(d, al);
  memcpy(cs, al.data(), 64); cs[64] = 0;  // the caller's buffer, reused between rounds
  const char* charset = custom ? cs : nullptr;
  if (custom && al == SS(STD64, 64) && g.draw(2)) charset = nullptr;
  g.note("%s alphabet %s", q(d).c_str(), custom ? q(al, 64).c_str() : "standard");
  if (d.size() > 2) g.nontrivial();
  g.label(d.size() % 3 == 0 ? "length-0-mod-3" : d.size() % 3 == 1 ? "length-1-mod-3" : "length-2-mod-3");
  Buf in(d);
  { // buffer form, exact output buffer with guards
    std::unique_ptr<char[]> out(new char[e.size() + 1]);
    memset(out.get(), 0x5a, e.size() + 1);
    size_t len = d.size();
    bd::b64enc_buf(in.p, &len, out.get(), charset);
    REQUIRE(len == e.size(), "b64enc_buf reports %zu characters, expected %zu", len, e.size());
    REQUIRE(SS(out.get(), len) == e, "b64enc_buf gave %s, expected %s", q(out.get(), len).c_str(), q(e).c_str());
  }
  { size_t len = d.size(); char* p = bd::b64enc(in.p, &len, charset); SS r(p, len); bool nul = p[len] == 0; free(p); REQUIRE(len == e.size() && r == e && nul, "b64enc gave %s (%zu characters, %sterminated), expected %s", q(r).c_str(), len, nul ? "" : "un", q(e).c_str()); }
  expect(bd::base64Encode(BS(d), charset), e, "base64Encode");
  { BS base("xx"); base += BS(d); BS v = base.substring(2); expect(bd::base64Encode(v, charset), e, "base64Encode of a view"); }
  Buf ein(e);
  { size_t len = e.size(); char* p = bd::b64dec(ein.p, &len, charset); SS r(p, std::min(len, e.size())); bool nul = p[len] == 0; free(p); REQUIRE(len == d.size() && r == d && nul, "b64dec gave %s (%zu bytes), expected %s", q(r).c_str(), len, q(d).c_str()); }
  expect(bd::base64Decode(BS(e), charset), d, "base64Decode");
  expect(bd::base64Decode(bd::base64Encode(BS(d), charset), charset), d, "decode of encode");
  { // buffer form, its table form of the alphabet
    char idx[256];
    memset(idx, -1, sizeof idx);
    for (int i = 0; i < 64; ++i) idx[(unsigned char)al[i]] = (char)i;
    std::unique_ptr<char[]> out(new char[e.size() / 4 * 3 + 1]);
    size_t len = e.size();
    bd::b64dec_buf(ein.p, &len, out.get(), custom ? idx : nullptr);
    REQUIRE(len == d.size() && SS(out.get(), len) == d, "b64dec_buf gave %zu bytes %s, expected %s", len, q(out.get(), std::min(len, e.size())).c_str(), q(d).c_str());
  }
}
static void c19(Src& g) {
  std::unique_ptr<char[]> cs(new char[65]);
  unsigned n = 0;
  do c19one(g, cs.get()); while (g.draw(4) == 3 && ++n < 4);
}
PROPERTY("C19", "base64 against RFC 4648", c19, 400000, 8000000, false, "random bytes and alphabets, all forms; non-trivial from 3 bytes on");

static void c20(Src& g) {
  bool custom;
  SS al = alphabet(g, custom);
  SS d = g.bytes2(30, 3000);
  SS e = refEnc(d, al);
  SS in;
  size_t good = 0;  // complete well-formed groups (no padding) before the damage
  switch (g.draw(6)) {
    case 0: in = g.bytes2(50, 5000); break;
    case 1: in = e.substr(0, g.draw(e.size() + 1)); g.label("truncated"); break;
    case 2: in = e; if (!in.empty()) for (unsigned k = 1 + (unsigned)g.draw(3); k-- > 0;) in[g.draw(in.size())] = (char)g.draw(256); g.label("damaged"); break;
    case 3: in = e; in.insert(g.draw(in.size() + 1), SS(1 + g.draw(3), '=')); g.label("padding-inside"); break;
    case 4: in = e + g.bytesOver("=\n A", 5); g.label("trailing"); break;
    default: in = g.exactly(g.len2(40, 2000), al + "="); break;
  }
  for (size_t i = 0; i + 4 <= in.size(); i += 4) {
    bool ok = true;
    for (size_t j = i; j < i + 4; ++j) if (al.find(in[j]) == NPOS) ok = false;
    if (!ok) break;
    ++good;
  }
  SS want;
  for (size_t i = 0; i < good; ++i) {
    unsigned v = 0;
    for (size_t j = 0; j < 4; ++j) v = v << 6 | (unsigned)al.find(in[4 * i + j]);
    want += (char)(v >> 16); want += (char)(v >> 8); want += (char)v;
  }
  size_t maxOut = (in.size() + 3) / 4 * 3;
  char cs[65]; memcpy(cs, al.data(), 64); cs[64] = 0;
  g.note("decode %s alphabet %s", q(in).c_str(), custom ? q(al, 64).c_str() : "standard");
  if (in.size() % 4 || good * 4 != in.size()) g.nontrivial();
  if (in.size() % 4) g.label("length-not-multiple-of-4");
  Buf bin(in);
  SS first;
  {
    char idx[256];
    memset(idx, -1, sizeof idx);
    for (int i = 0; i < 64; ++i) idx[(unsigned char)al[i]] = (char)i;
    char* out = (char*)malloc(maxOut ? maxOut : 1);  // no room beyond three bytes per started group
    size_t len = in.size();
    bd::b64dec_buf(bin.p, &len, out, custom ? idx : nullptr);
    bool ok = len <= maxOut;
    first = SS(out, std::min(len, maxOut));
    free(out);
    REQUIRE(ok, "b64dec_buf reports %zu bytes for %zu characters", len, in.size());
  }
  REQUIRE(first.compare(0, want.size(), want) == 0 && first.size() >= want.size(), "b64dec_buf gave %s, the groups before the damage are %s", q(first).c_str(), q(want).c_str());
  { size_t len = in.size(); char* p = bd::b64dec(bin.p, &len, custom ? cs : nullptr); REQUIRE(len <= maxOut, "b64dec reports %zu bytes for %zu characters", len, in.size()); SS r(p, len); bool nul = p[len] == 0; free(p); REQUIRE(nul, "b64dec result not terminated"); REQUIRE(r == first, "b64dec gave %s, b64dec_buf %s", q(r).c_str(), q(first).c_str()); }
  { // a String whose text ends at its buffer's end, and a view
    BS s(in.begin(), in.end());
    BS r = bd::base64Decode(s, custom ? cs : nullptr);
    expect(r, first, "base64Decode");
    BS t(in + "QUJD");
    BS v = t.substring(0, (ssize_t)in.size());
    BS r2 = bd::base64Decode(v, custom ? cs : nullptr);
    expect(r2, first, "base64Decode of a view (must not see what follows it)");
  }
}
PROPERTY("C20", "base64 decoding of arbitrary input", c20, 500000, 10000000, false, "garbage, truncated, damaged and mispadded input in exact-size buffers; non-trivial when the input is not entirely complete well-formed groups");

// ---- C21 ------------------------------------------------------------------
static void c21(Src& g) {
  SS src = g.draw(20) ? g.bytesOver(SS("ab\x80\xff" "c", 5), 40) : g.bytesOver("xyz", 5000);
  if (g.huge()) src = g.exactly(g.hugeLen(g.scaleMax), SS("ab\x80\xff" "c", 5));
  size_t siz = 0;
  switch (g.draw(6)) { case 0: siz = 0; break; case 1: siz = 1; break; case 2: siz = src.size(); break; case 3: siz = src.size() + 1; break; case 4: siz = src.size() + g.draw(10); break; default: siz = g.draw(src.size() + 3); }
  struct Raw { char* p; size_t n; Raw(size_t n_) : p((char*)malloc(n_ ? n_ : 1)), n(n_) { memset(p, 0x77, n ? n : 1); } ~Raw() { free(p); } };
  Raw s(src.size() + 1);
  memcpy(s.p, src.c_str(), src.size() + 1);
  switch (g.draw(4)) {
    case 0: {
      g.note("strlcpy(%s, %zu)", q(src).c_str(), siz);
      if (src.size() >= siz) { g.nontrivial(); g.label("strlcpy-truncates"); }
      Raw d(siz);
      size_t r = bd::strlcpy(d.p, s.p, siz);
      REQUIRE(r == src.size(), "strlcpy returned %zu, expected %zu", r, src.size());
      if (siz) { size_t k = std::min(siz - 1, src.size()); REQUIRE(memcmp(d.p, src.data(), k) == 0 && d.p[k] == 0, "strlcpy with size %zu left %s", siz, q(d.p, std::min(siz, k + 1)).c_str()); for (size_t i = k + 1; i < siz; ++i) REQUIRE(d.p[i] == 0x77 || d.p[i] == 0, "strlcpy wrote garbage behind the terminator"); }
      else REQUIRE(d.p[0] == 0x77, "strlcpy with size 0 wrote");
      break;
    }
    case 1: {
      SS dst = g.bytesOver2("mn", 20, 2000);
      size_t dn;  // size given
      switch (g.draw(5)) { case 0: dn = dst.size(); break; case 1: dn = dst.size() + 1; break; case 2: dn = dst.size() + 1 + src.size(); break; case 3: dn = g.draw(dst.size() + 1); break; default: dn = dst.size() + g.draw(src.size() + 3); }
      bool unterminated = dn <= dst.size();
      g.note("strlcat(%s, %s, %zu)%s", q(dst).c_str(), q(src).c_str(), dn, unterminated ? " (no terminator within the size)" : "");
      if (unterminated) { g.label("strlcat-unterminated"); g.nontrivial(); }
      if (!unterminated && dst.size() + src.size() >= dn) { g.label("strlcat-truncates"); g.nontrivial(); }
      Raw d(dn);
      memcpy(d.p, dst.c_str(), std::min(dn, dst.size() + 1));
      size_t r = bd::strlcat(d.p, s.p, dn);
      size_t dl = std::min(dn, dst.size());
      REQUIRE(r == dl + src.size(), "strlcat returned %zu, expected %zu", r, dl + src.size());
      if (unterminated) REQUIRE(SS(d.p, dn) == dst.substr(0, dn), "strlcat changed a full destination");
      else { SS w = (dst + src).substr(0, dn - 1); REQUIRE(SS(d.p, w.size()) == w && d.p[w.size()] == 0, "strlcat left %s, expected %s", q(d.p, std::min(dn, w.size() + 1)).c_str(), q(w).c_str()); }
      break;
    }
    case 2: {
      g.note("strdup/strldup(%s, %zu)", q(src).c_str(), siz);
      if (siz < src.size()) g.nontrivial();
      char* a = bd::strdup(s.p);
      REQUIRE(a && a != s.p && SS(a) == src, "strdup gave %s", q(a ? a : "(null)").c_str());
      char* b = bd::strldup(s.p, siz);
      SS w = src.substr(0, siz);
      REQUIRE(b && b != s.p && SS(b) == w, "strldup gave %s, expected %s", q(b ? b : "(null)").c_str(), q(w).c_str());
      // fresh storage of its own
      memset(s.p, 'Q', src.size());
      REQUIRE(SS(a) == src && SS(b) == w, "a duplicate changed with its source");
      if (g.draw(2)) { free(a); REQUIRE(SS(b) == w, "duplicates share storage"); free(b); } else { free(b); REQUIRE(SS(a) == src, "duplicates share storage"); free(a); }
      if (g.draw(4) == 0) {  // the checked allocators: zeroed, and keeping what was there
        size_t n = 1 + g.len(300), k = 1 + g.len(300);
        char* z = static_cast<char*>(bd::calloc(n, 1));
        REQUIRE(z, "calloc(%zu) gave nothing", n);
        for (size_t i = 0; i < n; ++i) { REQUIRE(z[i] == 0, "calloc(%zu) is not zero at %zu", n, i); z[i] = (char)(i * 7 + 1); }
        z = static_cast<char*>(bd::realloc(z, k));
        REQUIRE(z, "realloc(%zu) gave nothing", k);
        for (size_t i = 0; i < std::min(n, k); ++i) REQUIRE(z[i] == (char)(i * 7 + 1), "realloc from %zu to %zu lost byte %zu", n, k, i);
        if (k > n) memset(z + n, 5, k - n);
        free(z);
        g.label("calloc-realloc");
      }
      if (g.draw(10) == 0) { char* c = bd::strldup("whole", NPOS); REQUIRE(SS(c) == "whole", "strldup without limit"); free(c); }
      break;
    }
    default: {
      char* held = nullptr;
      SS m;
      bool has = false;
      unsigned n = 0;
      do {
        SS t = g.bytesOver("pqr", g.draw(8) ? 30 : 3000);
        switch (g.draw(5)) {
          case 0: g.note("str_redup(null)"); bd::str_redup(&held, nullptr); has = false; REQUIRE(held == nullptr, "str_redup(null) kept a pointer"); break;
          case 1: if (has) { size_t k = g.draw(m.size() + 1); g.note("str_redup(own text + %zu)", k); SS w = m.substr(k); bd::str_redup(&held, held + k); m = w; g.label("redup-own-text"); g.nontrivial(); break; }
          // fall through
          default: { g.note("str_redup(%s)", q(t).c_str()); std::unique_ptr<char[]> x(new char[t.size() + 1]); memcpy(x.get(), t.c_str(), t.size() + 1); bd::str_redup(&held, x.get()); REQUIRE(SS(x.get()) == t, "str_redup changed its argument"); memset(x.get(), 'X', t.size()); if (has) g.nontrivial(); has = true; m = t; }
        }
        if (has) REQUIRE(held && SS(held) == m, "str_redup holds %s, expected %s", q(held ? held : "(null)").c_str(), q(m).c_str());
      } while (g.more(4) && ++n < 20);
      free(held);
    }
  }
}
PROPERTY("C21", "bounded C strings", c21, 800000, 12000000, false, "sizes around the text length in exact-size buffers; non-trivial when something is truncated, unterminated or re-duplicated");

// ---- the same at scale
PROPERTY("C14.scale-String", "tables of many keys", (scaled<c14<KS, KS>, 9000, 1>), 120, 20000, false, "as C14.String-String with up to 9000 keys; non-trivial when there are thousands");
PROPERTY("C14.scale-int", "tables of many keys", (scaled<c14<KI, KS>, 9000, 1>), 120, 20000, false, "as C14.int-String with up to 9000 keys; non-trivial when there are thousands");
PROPERTY("C19.scale", "base64 of large data", (scaled<c19, 300000, 1>), 1500, 60000, false, "as C19 with up to 300000 bytes");
PROPERTY("C20.scale", "base64 decoding of large input", (scaled<c20, 300000, 1>), 2000, 60000, false, "as C20 with up to 300000 bytes");
PROPERTY("C21.scale", "bounded C strings of large size", (scaled<c21, 300000, 1>), 6000, 100000, false, "as C21 with up to 300000 bytes");
