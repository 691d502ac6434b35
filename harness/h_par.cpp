// C35: the library used by several threads at once, each on objects of its own.
#include "pbt.h"
#include "String.h"
#include "Array.h"
#include "HashTable.h"
#include "Stream.h"
#include "AtomicFile.h"
#include "base64.h"
#include "Cstrings.h"
#include "ScriptInterpTCL.h"
#include <tcl.h>
#include <atomic>
#include <fcntl.h>
#include <sstream>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
using pbt::Src;
using pbt::q;
typedef bd::String BS;
typedef std::string SS;
typedef bd::Array<BS> AS;
typedef bd::ScriptInterpTCL SI;

// a job's own choices: a function of its seed alone, so that it can be done on a thread and again afterwards
struct R {
  uint64_t s;
  explicit R(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
  uint64_t draw(uint64_t n) { return (next() >> 11) % n; }
  SS text(const SS& al, size_t max) { SS r; size_t n = draw(max + 1); while (r.size() < n) r += al[draw(al.size())]; return r; }
};
static SS val(const BS& s) { return SS(s.data() ? s.data() : "", s.length()); }
static SS num(long long v) { return std::to_string(v) + ";"; }

typedef SS (*Job)(R&, const SS& dir);
static SS jFormat(R& r, const SS&) {
  SS o;
  for (int i = 0; i < 6; ++i) { SS t = r.text("abc %", r.draw(4) ? 60 : 9000); o += val(BS::printf("<%s|%d|%5.2f|%.*s>", t.c_str(), (int)r.draw(100000), (double)r.draw(1000) / 7, (int)r.draw(9), t.c_str())); }
  return o;
}
static SS jBase64(R& r, const SS&) {
  static const char* const cs[] = {nullptr, "zyxwvutsrqponmlkjihgfedcbaZYXWVUTSRQPONMLKJIHGFEDCBA9876543210-_", "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ./"};
  SS o;
  for (int i = 0; i < 6; ++i) {
    const char* c = cs[r.draw(3)];
    BS t(r.text(SS("ab\0\xff z", 6), 90)), e(bd::base64Encode(t, c)), d(bd::base64Decode(e, c));
    o += val(e) + (d == t ? "=" : "!") + val(bd::base64Decode(BS(r.text("abc+/=.", 30)), c));
  }
  return o;
}
static SS jText(R& r, const SS&) {
  SS o;
  for (int i = 0; i < 5; ++i) {
    BS t(r.text("ab, ", 80)), d(r.draw(2) ? "," : r.draw(2) ? " " : "ab"), x(r.text("xyab", 4));
    AS a(r.draw(2) ? t.split(d) : t.split(d, 1 + (size_t)r.draw(4)));
    o += num((long long)a.length()) + val(a.join("|", r.draw(2))) + val(t.sub(d, x)) + num((long long)t.find(d)) + num((long long)t.rfind(d)) + num(t.compare(d) > 0) + num((long long)t.hash());
    bd::HashTable<BS, BS> h; h[d] = x;
    o += val(t.subst(h));
    BS u(t); u.trim(); o += val(u); u.chomp(); o += val(newsplit(u)) + val(newsplit(u, ',')) + val(u);
    o += num((long long)t.ifind("B")) + num((long long)t.rifind("A"));
  }
  return o;
}
static SS jEdit(R& r, const SS&) {
  BS s; AS a; bd::Array<int> n;
  for (int i = 0; i < 25; ++i) {
    BS t(r.text("abc", 12));
    switch (r.draw(9)) {
      case 0: s += t; break;
      case 1: s.insert((size_t)r.draw(s.length() + 1), t); break;
      case 2: s.replace((size_t)r.draw(s.length() + 1), t); break;
      case 3: { BS w(s.substring((int)r.draw(9) - 4, (int)r.draw(9))); w += t; s = w; break; }
      case 4: a << t; a << s; break;
      case 5: if (a.length()) { AS b(a); b[r.draw(b.length())] = t; a << b.pop(); } break;
      case 6: if (a.length() > 1) a.shift(); break;
      case 7: n.push_back((int)r.draw(100)); n.insert((size_t)0, (int)r.draw(100)); break;
      default: { std::ostringstream os; os << s; std::istringstream is(val(s) + " x y\nz"); BS p, l; is >> p; getline(is, l); s += p; s += l; if (s.length() > 200) s = s(0, 9); }
    }
    (void)s.c_str();
  }
  SS o = val(s) + val(a.join(","));
  for (size_t i = 0; i < n.length(); ++i) o += num(n[i]);
  return o + num((long long)a.hash()) + num((long long)n.hash());
}
static SS jTable(R& r, const SS&) {
  bd::HashTable<BS, BS> h, k;
  for (int i = 0; i < 40; ++i) {
    BS key(r.text("ab", 3)), v(r.text("xyz", 5));
    switch (r.draw(5)) { case 0: h.insert(key, v); break; case 1: h[key] = v; break; case 2: h.remove(key); break; case 3: k = h; break; default: k[key] = h.contains(key) ? h[key] : v; }
  }
  SS o = num((long long)h.size()) + num((long long)k.size());
  for (auto a : {"", "a", "b", "aa", "ab", "ba", "bb", "aaa", "bbb"}) o += (h.contains(a) ? val(h[a]) : "-") + "/" + (k.contains(a) ? val(k[a]) : "-") + " ";
  return o;
}
static SS jCstr(R& r, const SS&) {
  SS o;
  for (int i = 0; i < 8; ++i) {
    SS t = r.text("abc", 30); char b[40] = "x"; size_t n = 1 + r.draw(39);
    o += num((long long)bd::strlcpy(b, t.c_str(), n)) + b + num((long long)bd::strlcat(b, t.c_str(), n)) + b;
    char* d = nullptr; bd::str_redup(&d, t.c_str()); o += d ? d : "(none)"; bd::str_redup(&d, "other"); o += d; free(d);
    d = bd::strldup(t.c_str(), n); o += d; free(d);
  }
  return o;
}
static SS slurp(const SS& p) { SS s; char b[4096]; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return "(absent)"; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, (size_t)n); close(fd); return s; }
static SS jStream(R& r, const SS& dir) {
  SS o, p = dir + "/stream";
  unlink(p.c_str());
  for (int i = 0; i < 4; ++i) {
    bd::Stream s;
    SS t = r.text("ab\n", r.draw(3) ? 100 : 9000);
    s << BS(t); s.seek((int)r.draw(t.size() + 1), SEEK_SET); s << BS(r.text("xyz", 10));
    o += num(s.writeFile(BS(p)));
    bd::Stream l;
    o += num(l.loadFile(BS(p))) + val(l.getline()) + num((long long)l.tell()) + val(l.read(20)) + val(l.read(30, 'a')) + num((long long)l.length());
    o += slurp(p);
  }
  unlink(p.c_str());
  return o;
}
static SS jAtomic(R& r, const SS& dir) {
  SS o, p = dir + "/atomic";
  unlink(p.c_str());
  for (int i = 0; i < 4; ++i) {
    bd::AtomicFile f;
    bool op = f.open(BS(p), r.draw(2) ? 0600 : 0644);
    SS t = r.text("abc\n", 200);
    if (op && write(f.fd(), t.data(), t.size()) != (ssize_t)t.size()) o += "write?";
    o += num(op) + num(r.draw(3) ? f.commit() : f.abort()) + slurp(p);
  }
  unlink(p.c_str());
  return o;
}
static BS cmdJoin(BS a, BS b) { return BS(a) + "+" + b; }
static int cmdSum(int a, int b) { return a + b; }
static AS cmdList(AS a, BS b) { a << b; return a; }
static int cmdThrow(BS a) { throw a; }
static SS jTcl(R& r, const SS& dir) {
  SS o;
  SI si;
  int i = 0; double d = 0; BS s; int64_t big = 0;
  si.linkVar("i", i); si.linkVar("d", d); si.linkVar("s", s); si.linkVar("big", big);
  si.createCommand("join2", cmdJoin); si.createCommand("sum2", cmdSum); si.createCommand("list2", cmdList); si.createCommand("throw2", cmdThrow);
  for (int k = 0; k < 10; ++k) {
    SS w = r.text("abc", 12); BS n(BS::printf("%d", (int)r.draw(1000)));
    switch (r.draw(9)) {
      case 0: o += val(si.eval(BS("join2 {") + BS(w) + " x} {y " + n + "}")); break;
      case 1: o += val(si.eval(BS("sum2 ") + n + " 7")); break;
      case 2: o += val(si.eval(BS("list2 {a {b c} ") + n + "} {" + BS(w) + " z}")); break;
      case 3: o += val(si.eval(BS("catch {throw2 {") + BS(w) + "}} m; set m")); break;
      case 4: o += val(si.eval(BS("set i ") + n)) + num(i); break;
      case 5: i = (int)r.draw(5000); d = (double)r.draw(100) / 4; big = (int64_t)r.next() >> 3; o += val(si.eval("list $i $d $big")); break;
      case 6: o += val(si.eval(BS("set s {") + BS(w) + "}")) + val(s); break;
      case 7: o += val(si.eval(BS("error {") + BS(w) + "}")) + val(si.eval("sum2 1")); break;
      default: {
        SS p = dir + "/s.tcl"; int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); SS t = "set x {" + w + "}\n"; if (write(fd, t.data(), t.size()) < 0) o += "?"; close(fd);
        BS res; o += num((int)si.loadScript(BS(p), res)) + val(si.eval("set x"));
      }
    }
    o += "|";
  }
  if (r.draw(2)) { si.unlinkVar("i"); si.deleteCommand("sum2"); o += val(si.eval("info commands sum2")); }
  return o;
}
static const struct { const char* name; Job f; } JOBS[] = {{"formatting", jFormat}, {"base64", jBase64}, {"texts", jText}, {"edits", jEdit}, {"tables", jTable}, {"C strings", jCstr}, {"Streams", jStream}, {"atomic updates", jAtomic}, {"Tcl", jTcl}};

struct Item { unsigned job; uint64_t seed; SS got; };
static void par(Src& g, unsigned from, unsigned to) {
  unsigned nt = 2 + (unsigned)g.draw(3);
  bool same = g.draw(3) != 0;               // the same function on every thread
  unsigned common = from + (unsigned)g.draw(to - from);
  std::vector<std::vector<Item>> work(nt);
  std::vector<SS> dirs;
  bool tcl = false;
  for (unsigned t = 0; t < nt; ++t) {
    dirs.push_back(pbt::scratch() + "/par" + std::to_string(getpid()) + "." + std::to_string(t));
    mkdir(dirs.back().c_str(), 0700);
    unsigned n = 1 + (unsigned)g.draw(4);
    for (unsigned k = 0; k < n; ++k) {
      Item it{same ? common : from + (unsigned)g.draw(to - from), g.draw(1 << 20), SS()};
      g.note("thread %u: %s, seed %llu", t, JOBS[it.job].name, (unsigned long long)it.seed);
      g.label(JOBS[it.job].name);
      tcl = tcl || JOBS[it.job].f == jTcl;
      work[t].push_back(it);
    }
  }
  std::atomic<unsigned> ready{0};
  std::vector<SS> bad(nt);
  std::vector<std::thread> ts;
  for (unsigned t = 0; t < nt; ++t) ts.emplace_back([&, t] {
    ready.fetch_add(1, std::memory_order_relaxed);
    while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
    try { for (auto& it : work[t]) { R r(it.seed); it.got = JOBS[it.job].f(r, dirs[t]); } } catch (const std::exception& e) { bad[t] = e.what(); } catch (...) { bad[t] = "an exception"; }
    if (tcl) Tcl_FinalizeThread();
  });
  for (auto& t : ts) t.join();
  g.nontrivial();
  for (unsigned t = 0; t < nt; ++t) {
    REQUIRE(bad[t].empty(), "%s was thrown on a thread", bad[t].c_str());
    for (auto& it : work[t]) {
      R r(it.seed);
      SS alone = JOBS[it.job].f(r, dirs[t]);
      if (alone != it.got) { size_t k = 0; while (k < alone.size() && k < it.got.size() && alone[k] == it.got[k]) ++k; k = k > 20 ? k - 20 : 0;
        pbt::fail("%s on a thread gave ...%s, alone it gives ...%s", JOBS[it.job].name, q(it.got.substr(k), 60).c_str(), q(alone.substr(k), 60).c_str()); }
    }
  }
  for (auto& d : dirs) { unlink((d + "/s.tcl").c_str()); rmdir(d.c_str()); }
}
static void c35(Src& g) { par(g, 0, 8); }
static void c35tcl(Src& g) { par(g, 8, 9); }
PROPERTY("C35", "separate objects on separate threads", c35, 3000, 100000, true, "2-4 real threads, each with 1-4 jobs on objects of its own, in a process that has not used the library before; the same jobs done alone are the oracle; every case is non-trivial");
PROPERTY("C35.tcl", "separate interpreters on separate threads", c35tcl, 600, 20000, true, "as C35, every thread with interpreters of its own");
