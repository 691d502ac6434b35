// C15 Stream model, C11 (Stream positions), C16 Stream <-> file, C17/C18 AtomicFile under faults
#include "strworld.h"
#include "Stream.h"
#include "AtomicFile.h"
#include <set>
#include <map>
#include <cerrno>
#include <dirent.h>
#include <climits>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>

// =============================== system calls under control ===============================
namespace sc {
static bool on = false;            // inside a library call
static unsigned count = 0;         // controlled calls so far
struct Fault { unsigned at; int err; };
static std::vector<Fault> faults;
static std::vector<const char*> seq;      // names of the calls made
static std::vector<std::string> keptTemps; // paths whose removal was made to fail
static unsigned injected = 0;
static bool closeFailed = false, renamed = false;  // since the start of the commit
static std::set<uintptr_t> mapped;      // pages
static const uintptr_t PAGE = 4096;
typedef std::pair<dev_t, ino_t> Ino;
static std::set<Ino> synced;
static void (*observer)(const char* when, const char* call) = nullptr;
static bool inObs = false;

static void observe(const char* when, const char* call) {
  if (!observer || inObs) return;
  inObs = true; on = false;
  observer(when, call);
  on = true; inObs = false;
}
// true: fail this one with the errno set
static bool enter(const char* name) {
  if (!on) return false;
  observe("before", name);
  unsigned k = count++;
  seq.push_back(name);
  for (auto& f : faults) if (f.at == k) { ++injected; errno = f.err; return true; }
  return false;
}
static void leave(const char* name) { if (!strncmp(name, "rename", 6)) renamed = true; if (on) { int e = errno; observe("after", name); errno = e; } }
static void changed(int fd) { struct stat st; if (fstat(fd, &st) == 0) synced.erase(Ino(st.st_dev, st.st_ino)); }
struct Lib { Lib() { on = true; } ~Lib() { on = false; } };
static void reset() { on = false; count = 0; faults.clear(); seq.clear(); keptTemps.clear(); injected = 0; synced.clear(); mapped.clear(); observer = nullptr; }
}
#define W2(ret, name, args, call, bad) \
  extern "C" ret __real_##name args; \
  extern "C" ret __wrap_##name args { bool ctl_ = sc::on; if (ctl_ && sc::enter(#name)) { sc::leave(#name); return bad; } ret r_ = __real_##name call; if (ctl_) sc::leave(#name); return r_; }
W2(int, mkstemp, (char* t), (t), -1)
W2(int, mkostemp, (char* t, int f), (t, f), -1)
W2(int, mkstemps, (char* t, int f), (t, f), -1)
W2(int, fchmod, (int fd, mode_t m), (fd, m), -1)
W2(int, chmod, (const char* p, mode_t m), (p, m), -1)
W2(int, rename, (const char* a, const char* b), (a, b), -1)
W2(int, renameat, (int x, const char* a, int y, const char* b), (x, a, y, b), -1)
W2(int, link, (const char* a, const char* b), (a, b), -1)
W2(int, lstat, (const char* p, struct stat* s), (p, s), -1)
W2(int, dup, (int fd), (fd), -1)
W2(off_t, lseek, (int fd, off_t o, int w), (fd, o, w), -1)
extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t);
extern "C" void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) {
  if (!sc::on) return __real_mmap(a, n, p, f, fd, o);
  if (sc::enter("mmap")) { sc::leave("mmap"); return MAP_FAILED; }
  void* r = __real_mmap(a, n, p, f, fd, o);
  if (r != MAP_FAILED) for (uintptr_t x = 0; x < n; x += sc::PAGE) sc::mapped.insert(uintptr_t(r) + x);
  sc::leave("mmap");
  return r;
}
extern "C" int __real_munmap(void*, size_t);
extern "C" int __wrap_munmap(void* a, size_t n) { int r = __real_munmap(a, n); if (r == 0 && !sc::mapped.empty()) for (uintptr_t x = 0; x < n; x += sc::PAGE) sc::mapped.erase(uintptr_t(a) + x); return r; }
extern "C" int __real_close(int);
extern "C" int __wrap_close(int fd) {
  if (!sc::on) return __real_close(fd);
  bool bad = sc::enter("close");
  int e = errno;
  int r = __real_close(fd);  // a failing close still releases the descriptor
  if (bad) { r = -1; errno = e; if (e != EINTR && !sc::renamed) sc::closeFailed = true; }
  sc::leave("close");
  return r;
}
#define WSYNC(name) \
  extern "C" int __real_##name(int); \
  extern "C" int __wrap_##name(int fd) { \
    if (!sc::on) return __real_##name(fd); \
    if (sc::enter(#name)) { sc::leave(#name); return -1; } \
    struct stat st; \
    if (fstat(fd, &st)) { sc::leave(#name); return -1; } \
    sc::synced.insert(sc::Ino(st.st_dev, st.st_ino)); \
    sc::leave(#name); \
    return 0; }
WSYNC(fsync)
WSYNC(fdatasync)
#define WUNLINK(name) \
  extern "C" int __real_##name(const char*); \
  extern "C" int __wrap_##name(const char* p) { \
    if (!sc::on) return __real_##name(p); \
    if (sc::enter(#name)) { int e = errno; sc::keptTemps.push_back(p); sc::leave(#name); errno = e; return -1; } \
    int r = __real_##name(p); sc::leave(#name); return r; }
WUNLINK(unlink)
WUNLINK(remove)
extern "C" ssize_t __real_write(int, const void*, size_t);
extern "C" ssize_t __wrap_write(int fd, const void* p, size_t n) {
  if (!sc::on) return __real_write(fd, p, n);
  if (sc::enter("write")) { sc::leave("write"); return -1; }
  sc::changed(fd);
  ssize_t r = __real_write(fd, p, n);
  sc::leave("write");
  return r;
}
extern "C" int __real_ftruncate(int, off_t);
extern "C" int __wrap_ftruncate(int fd, off_t n) {
  if (!sc::on) return __real_ftruncate(fd, n);
  if (sc::enter("ftruncate")) { sc::leave("ftruncate"); return -1; }
  sc::changed(fd);
  int r = __real_ftruncate(fd, n);
  sc::leave("ftruncate");
  return r;
}
extern "C" int __real_open(const char*, int, ...);
extern "C" int __wrap_open(const char* p, int f, ...) {
  va_list ap;
  va_start(ap, f);
  mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  if (!sc::on) return __real_open(p, f, m);
  if (sc::enter("open")) { sc::leave("open"); return -1; }
  int r = __real_open(p, f, m);
  sc::leave("open");
  return r;
}

// =============================== helpers ===============================
static int openFds() {
  static DIR* d = nullptr;
  if (!d) d = opendir("/proc/self/fd");
  if (!d) return -1;
  rewinddir(d);
  int n = 0;
  while (readdir(d)) ++n;
  return n;
}
static bool readAll(const SS& p, SS& out) {
  int fd = __real_open(p.c_str(), O_RDONLY);
  if (fd < 0) return false;
  out.clear();
  char b[8192];
  ssize_t r;
  while ((r = read(fd, b, sizeof b)) > 0) out.append(b, r);
  __real_close(fd);
  return true;
}
static void writeAll(const SS& p, const SS& data, mode_t mode) {
  int fd = __real_open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
  REQUIRE(fd >= 0, "harness: cannot create %s", p.c_str());
  size_t o = 0;
  while (o < data.size()) { ssize_t r = __real_write(fd, data.data() + o, data.size() - o); REQUIRE(r > 0, "harness: write"); o += r; }
  __real_fchmod(fd, mode);
  __real_close(fd);
}
static std::set<SS> listDir(const SS& p) {
  std::set<SS> r;
  DIR* d = opendir(p.c_str());
  REQUIRE(d != nullptr, "harness: cannot list %s", p.c_str());
  while (dirent* e = readdir(d)) { SS n = e->d_name; if (n != "." && n != "..") r.insert(n); }
  closedir(d);
  return r;
}
static void wipe(const SS& dir) {  // everything below one of our own scratch directories
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  std::vector<SS> names;
  while (dirent* e = readdir(d)) { SS n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
  closedir(d);
  for (auto& n : names) {
    SS p = dir + "/" + n;
    struct stat st;
    if (__real_lstat(p.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) { wipe(p); rmdir(p.c_str()); } else __real_unlink(p.c_str());
  }
}
// a fresh empty directory for this case
static SS caseDir() {
  static SS dir;
  static pid_t owner = 0;
  if (owner != getpid()) {
    owner = getpid();
    dir = pbt::scratch() + "/case." + std::to_string(owner);
    mkdir(dir.c_str(), 0700);
  }
  wipe(dir);
  REQUIRE(chdir(dir.c_str()) == 0, "harness: chdir %s", dir.c_str());
  umask(022);
  return dir;
}

// =============================== C15: Stream as a seekable byte buffer ===============================
struct StreamWorld {
  Src& g;
  struct Slot { std::unique_ptr<bd::Stream> s; SS m; size_t pos; };
  std::vector<Slot> v;
  std::vector<std::pair<BS, SS>> held;  // Strings given to or taken from Streams
  unsigned puts = 0, reads = 0;
  explicit StreamWorld(Src& g_) : g(g_) { v.reserve(5); held.reserve(40); }
  SS text() {
    if (g.huge()) { g.label("large-text"); return g.exactly(g.hugeLen(g.scaleMax), g.draw(2) ? "abc" : "ab\nc"); }
    switch (g.draw(24)) {
      case 20: case 21: case 22: return g.exactly(1000 + g.draw(100), "ab\nc");
      case 23: { g.label("long-text"); static const size_t sz[] = {2048, 4095, 4096, 4097, 8192, 16384}; return g.exactly(g.draw(2) ? g.pick(sz) : g.draw(20000), g.draw(2) ? "abc" : "ab\nc"); }
      default: return g.bytes(g.draw(8) ? 40 : 300);
    }
  }
  SS lines() { static const SS al("ab\n\0x", 5); return g.bytesOver(al, 40); }
  void hold(const BS& s, const SS& m) { if (held.size() >= 12) held.erase(held.begin() + g.draw(held.size())); held.emplace_back(s, m); }
  void add(bd::Stream* s, const SS& m, size_t pos) { if (v.size() >= 4) v.erase(v.begin() + g.draw(v.size())); Slot x; x.s.reset(s); x.m = m; x.pos = pos; v.push_back(std::move(x)); }
  void verify(const char* what) {
    for (size_t i = 0; i < v.size(); ++i) {
      const bd::Stream& s = *v[i].s;
      REQUIRE(s.length() == v[i].m.size(), "after %s: Stream #%zu has length %zu, expected %zu", what, i, s.length(), v[i].m.size());
      BS c = s;
      REQUIRE(same(c, v[i].m), "after %s: Stream #%zu holds %s, expected %s", what, i, q(val(c)).c_str(), q(v[i].m).c_str());
      REQUIRE(s.tell() == v[i].pos, "after %s: position of Stream #%zu is %zu, expected %zu", what, i, s.tell(), v[i].pos);
      REQUIRE((!s) == v[i].m.empty(), "after %s: operator! wrong on #%zu", what, i);
    }
    for (size_t i = 0; i < held.size(); ++i) REQUIRE(same(held[i].first, held[i].second), "after %s: a String read from or given to a Stream changed to %s, it was %s", what, q(val(held[i].first)).c_str(), q(held[i].second).c_str());
  }
  void create() {
    switch (g.draw(5)) {
      case 0: g.note("new Stream()"); add(new bd::Stream(), "", 0); break;
      case 1: { int n = g.draw(3) ? (int)g.draw(2050) : -(int)g.draw(5); g.note("new Stream(%d)", n); add(new bd::Stream(n), "", 0); break; }
      case 2: { SS t = text(); BS b(t); g.note("new Stream(%s)", q(t).c_str()); hold(b, t); add(new bd::Stream(b), t, 0); break; }
      case 3: { SS t = lines(); g.note("new Stream(temporary %s)", q(t).c_str()); add(new bd::Stream(BS(t)), t, 0); break; }
      default: { SS t = lines(); BS b(SS("zz") + t + "yy"); g.note("new Stream(window %s)", q(t).c_str()); BS w(b.substring(2, t.empty() ? 0 : (ssize_t)t.size())); add(new bd::Stream(w), t, 0); hold(b, "zz" + t + "yy"); }
    }
  }
  void put(Slot& x, const SS& t, unsigned how) {
    bd::Stream& s = *x.s;
    bool past = x.pos > x.m.size();
    if (past && t.empty()) return;
    bool threw = false;
    BS b(t);
    try {
      switch (how) {
        case 0: s.puts(b); break;
        case 1: s << b; break;
        case 2: s.puts(BS(t)); break;
        default: s << BS(t);
      }
    } catch (const std::out_of_range&) { threw = true; }
    REQUIRE(threw == past, past ? "writing at position %zu of %zu did not raise out_of_range" : "writing at position %zu of %zu raised out_of_range", x.pos, x.m.size());
    if (past) { g.label("put-past-end"); return; }
    ++puts;
    if (g.draw(3) == 0) hold(b, t);
    if (x.m.size() < x.pos + t.size()) x.m.resize(x.pos + t.size());
    x.m.replace(x.pos, t.size(), t);
    x.pos += t.size();
  }
  void step() {
    if (v.empty()) { create(); return; }
    size_t i = g.draw(v.size());
    Slot& x = v[i];
    bd::Stream& s = *x.s;
    size_t L = x.m.size();
    switch (g.draw(22)) {
      case 0: create(); break;
      case 1: case 2: case 3: { SS t = g.draw(2) ? text() : lines(); g.note("#%zu puts %s at %zu", i, q(t).c_str(), x.pos); put(x, t, (unsigned)g.draw(4)); break; }
      case 4: { g.note("#%zu puts itself", i); if (L > 5000 || x.pos > L) break; BS self = s; SS t = x.m; s << self; ++puts; x.m.resize(std::max(L, x.pos + t.size())); x.m.replace(x.pos, t.size(), t); x.pos += t.size(); break; }
      case 5: case 6: case 7: { size_t n; switch (g.draw(4)) { case 0: n = L + g.draw(5); break; case 1: n = g.draw(4) ? g.draw(6) : (size_t)-1; break; default: n = g.draw(L + 1); }
        g.note("#%zu read(%zd) at %zu", i, (ssize_t)n, x.pos); ++reads;
        BS r(s.read(n));
        SS w = x.pos < L ? x.m.substr(x.pos, n) : SS();
        REQUIRE(same(r, w), "read(%zd) at %zu of %zu returned %s, expected %s", (ssize_t)n, x.pos, L, q(val(r)).c_str(), q(w).c_str());
        x.pos += w.size(); hold(r, w); break; }
      case 8: case 9: { static const char ds[] = {'\n', 'a', 'x', '\xff'}; char d = g.pick(ds); size_t n = g.draw(3) ? L + g.draw(3) : g.draw(L + 1);
        g.note("#%zu read(%zu, delim %s) at %zu", i, n, q(SS(1, d)).c_str(), x.pos); ++reads; g.label("read-delim");
        BS r(s.read(n, d)); SS w = delim(x, n, d);
        REQUIRE(same(r, w), "read(%zu, %s) at %zu returned %s, expected %s", n, q(SS(1, d)).c_str(), x.pos, q(val(r)).c_str(), q(w).c_str());
        x.pos += w.size(); hold(r, w); break; }
      case 10: case 11: { bool lim = g.draw(3) == 0; size_t n = lim ? g.draw(12) : NPOS; g.note("#%zu getline(%zd) at %zu", i, (ssize_t)n, x.pos); ++reads;
        BS r(lim ? s.getline(n) : s.getline()); SS w = delim(x, n, '\n');
        REQUIRE(same(r, w), "getline at %zu returned %s, expected %s", x.pos, q(val(r)).c_str(), q(w).c_str());
        x.pos += w.size(); hold(r, w); break; }
      case 12: case 13: case 14: { int wh = (int)g.draw(3); int off; switch (g.draw(5)) { case 0: off = (int)g.range(-5, 5); break; case 1: { static const int big[] = {INT_MAX, INT_MIN, -1, 100000}; off = g.pick(big); break; } case 2: off = wh == SEEK_CUR ? (int)L - (int)x.pos : (int)L; break; default: off = (int)g.draw(L + 2); }
        int64_t cap = (int64_t)s.capacity(), np = wh == SEEK_SET ? off : wh == SEEK_CUR ? (int64_t)x.pos + off : cap - off;
        np = std::max<int64_t>(0, std::min(np, cap));
        g.note("#%zu seek(%d, %d) from %zu", i, off, wh, x.pos);
        int r = s.seek(off, wh);
        REQUIRE(r == (int)np && s.tell() == (size_t)np, "seek(%d, %d) from %zu with capacity %ld went to %zu and returned %d, expected %ld", off, wh, x.pos, (long)cap, s.tell(), r, (long)np);
        x.pos = (size_t)np; break; }
      case 15: g.note("#%zu truncate at %zu", i, x.pos); s.truncate(); if (x.pos < L) x.m.resize(x.pos); g.label("truncate"); break;
      case 16: { g.note("#%zu peek at %zu", i, x.pos); BS r(s.peek()); SS w = x.pos < L ? x.m.substr(x.pos) : SS(); REQUIRE(same(r, w), "peek at %zu returned %s, expected %s", x.pos, q(val(r)).c_str(), q(w).c_str()); hold(r, w); break; }
      case 17: { size_t n = g.draw(2) ? L + g.draw(30) : g.draw(3000); g.note("#%zu reserve(%zu)", i, n); s.reserve(n); REQUIRE(s.capacity() >= n, "reserve(%zu) left a capacity of %zu", n, s.capacity()); break; }
      case 18: g.note("#%zu clear", i); s.clear(); x.m.clear(); x.pos = 0; break;
      case 19: { if (v.size() >= 4) { g.note("destroy #%zu", i); v.erase(v.begin() + i); break; } if (g.draw(3)) { g.note("copy of #%zu", i); SS cm = x.m; size_t cp = x.pos; add(new bd::Stream(s), cm, cp); } else { g.note("move of #%zu", i); SS cm = x.m; size_t cp = x.pos; bd::Stream* ns = new bd::Stream(std::move(s)); movedFrom(x); add(ns, cm, cp); } g.label("copy-move"); break; }
      case 20: { size_t j = g.draw(v.size()); Slot& y = v[j]; if (g.draw(3)) { g.note("#%zu = #%zu", i, j); s = *y.s; x.m = SS(y.m); x.pos = y.pos; } else if (i != j) { g.note("#%zu = move(#%zu)", i, j); s = std::move(*y.s); x.m = y.m; x.pos = y.pos; movedFrom(y); } g.label("assign"); break; }
      default: { size_t j = g.draw(v.size()); if (i == j) break; g.note("swap #%zu #%zu", i, j); using std::swap; swap(*v[i].s, *v[j].s); std::swap(v[i].m, v[j].m); std::swap(v[i].pos, v[j].pos); }
    }
  }
  static void movedFrom(Slot& x) { BS c = *x.s; x.m = val(c); x.pos = x.s->tell(); }
  static SS delim(const Slot& x, size_t n, char d) {
    if (x.pos >= x.m.size()) return SS();
    SS w = x.m.substr(x.pos, n);
    size_t k = w.find(d);
    if (k != SS::npos) w.resize(k + 1);
    return w;
  }
};
static void c15(Src& g) {
  StreamWorld w(g);
  w.create();
  unsigned n = 0;
  while (g.more(25) && n++ < 120) { w.step(); w.verify("step"); }
  if (w.puts && w.reads) g.nontrivial();
}
PROPERTY("C15", "Stream histories", c15, 900000, 10000000, false, "random histories over up to 4 Streams against byte buffers with a position; non-trivial when something was both written and read");

PROPERTY("C15.scale", "Stream histories at scale", (scaled<c15, 300000, 3>), 12000, 400000, false, "as C15 with texts up to 300000 bytes; non-trivial when there is one");

static void c11stream(Src& g) {
  StreamWorld w(g);
  w.create();
  unsigned n = 0;
  bool nt = false;
  while (g.more(10) && n++ < 40) {
    for (auto& x : w.v) {
      if (g.draw(2)) x.s->reserve(x.m.size() + g.draw(40));
      // put the position anywhere it can be: up to the capacity
      size_t cap = x.s->capacity();
      size_t to = g.draw(3) ? std::min(cap, x.m.size() + g.draw(3)) : g.draw(cap + 1);
      x.pos = (size_t)x.s->seek((int)to, SEEK_SET);
      REQUIRE(x.pos == to, "seek(%zu) went to %zu", to, x.pos);
      if (x.pos > x.m.size()) nt = true;
      SS t = g.bytes(20);
      g.note("puts %s at %zu of %zu", q(t).c_str(), x.pos, x.m.size());
      w.put(x, t, (unsigned)g.draw(4));
    }
    w.verify("write");
    w.step();
    w.verify("step");
  }
  if (nt) g.nontrivial();
}
PROPERTY("C11.stream", "Stream write positions", c11stream, 40000, 3000000, false, "writes at every reachable position, valid or past the end; non-trivial when one was past the end");

// =============================== C16: Stream <-> file ===============================
struct Probe : bd::Stream {  // sees whether loading is reported while loading
  unsigned during = 0;
  bool sawNotLoading = false;
  using bd::Stream::puts;
  void puts(const BS& s) override { if (!loading) sawNotLoading = true; ++during; bd::Stream::puts(s); }
  void puts(BS&& s) override { if (!loading) sawNotLoading = true; ++during; bd::Stream::puts(std::move(s)); }
  bool isLoading() const { return loading; }
};
static SS fileData(Src& g) {
  if (g.huge()) { g.label("large-file"); return g.exactly(g.hugeLen(g.scaleMax), SS("ab\0\n\x80\xff", 6)); }
  switch (g.draw(6)) {
    case 0: return g.bytes(40);
    case 1: { static const size_t sz[] = {4096, 4095, 4097, 8192, 1024, 1023, 1025, 65536, 12288}; return g.exactly(g.pick(sz), SS("abc\0\n\xff", 6)); }
    case 2: return SS();
    case 3: return g.exactly(g.draw(20000), SS("ab\0\n\x80\xff", 6));
    default: return g.bytes(300);
  }
}
static void c16run(Src& g, bool faulty) {
  SS dir = caseDir();
  sc::reset();
  int fds0 = openFds();
  unsigned rounds = 1 + (unsigned)g.draw(3);
  bd::Stream s;
  SS m;
  for (unsigned k = 0; k < rounds; ++k) {
    // the Stream: fresh, reused, windowed, with a position anywhere
    if (g.draw(3) || k == 0) { m = fileData(g); if (g.draw(4)) s = bd::Stream(BS(m)); else { BS big(SS("<<") + m + ">>"); s = bd::Stream(BS(big.substring(2, m.empty() ? 0 : (ssize_t)m.size()))); } }
    else { s.seek((int)m.size(), SEEK_SET); SS t = g.bytes(30); s << BS(t); m += t; }
    size_t p = g.draw(m.size() + 1);
    s.seek((int)p, SEEK_SET);
    SS path = g.draw(2) ? dir + "/f" + std::to_string(g.draw(2)) : "f" + std::to_string(g.draw(2));
    if (g.draw(5) == 0) path = dir + "/n \xc3\xa4 %s 'x'";
    bool existed = access(path.c_str(), F_OK) == 0;
    if (!existed && g.draw(3) == 0) { writeAll(path, g.draw(2) ? fileData(g) : m + "longer", 0640); existed = true; g.label("overwrites-existing"); }
    if (faulty) { sc::count = 0; sc::faults.clear(); sc::injected = 0; static const int errs[] = {EIO, ENOSPC, EACCES, ENOMEM, EINTR, EINVAL, ENODEV, EAGAIN, EPERM}; if (g.draw(4)) sc::faults.push_back({(unsigned)g.draw(6), g.pick(errs)}); }
    int r;
    mode_t mode = (mode_t)-1;
    unsigned how = (unsigned)g.draw(3);
    mode_t um = g.draw(3) ? 022 : (mode_t)g.draw(0100) * 8 + (mode_t)g.draw(8);
    um &= 077;
    umask(um);
    if (how == 0) { g.note("write %zu bytes at %zu to %s", m.size(), p, existed ? "existing file" : "new file"); sc::Lib l; r = s.writeFile(BS(path)); mode = 0600; }
    else if (how == 1) { mode = 0600 | (mode_t)g.draw(0200); g.note("write %zu bytes with mode %o, umask %o", m.size(), mode, um); sc::Lib l; r = s.writeFile(BS(path), mode); }
    else {
      int fd = __real_open(path.c_str(), O_RDWR | O_CREAT, 0600);
      REQUIRE(fd >= 0, "harness: open");
      if (g.draw(2)) { off_t o = (off_t)g.draw(30); __real_lseek(fd, o, SEEK_SET); g.note("descriptor at %ld", (long)o); g.label("descriptor-offset"); }
      g.note("write %zu bytes at %zu to a descriptor of %s", m.size(), p, existed ? "an existing file" : "a new file");
      { sc::Lib l; r = s.writeFile(fd); }
      REQUIRE(fcntl(fd, F_GETFD) != -1, "writeFile closed the descriptor it was given");
      if (g.draw(3) == 0 && r == 0) { SS now; REQUIRE(readAll(path, now) && now == m, "file differs while the descriptor is still open"); }
      __real_close(fd);
    }
    umask(022);
    unsigned injW = sc::injected;
    REQUIRE(r == 0 || injW, "writeFile reported failure (%d) although nothing failed", r);
    REQUIRE(s.tell() == p && same(BS(s), m), "writing changed the Stream");
    REQUIRE(openFds() == fds0, "%d descriptors left open by writeFile", openFds() - fds0);
    REQUIRE(sc::mapped.empty(), "writeFile left a file mapped");
    if (r == 0) {
      SS now;
      REQUIRE(readAll(path, now), "no file after a successful write");
      REQUIRE(now == m, "the file has %s (%zu bytes), expected %s (%zu bytes)", q(now).c_str(), now.size(), q(m).c_str(), m.size());
      struct stat st;
      stat(path.c_str(), &st);
      if (!existed && mode != (mode_t)-1) REQUIRE((st.st_mode & 07777) == (mode & ~um), "a new file has mode %o, requested %o with umask %o", st.st_mode & 07777, mode, um);
      if (m.size()) g.nontrivial();
    } else writeAll(path, m, 0600);
    // load it back into a Stream that held something
    Probe l;
    if (g.draw(2)) { SS t = g.bytes(50); l << BS(t); if (g.draw(2)) l.seek((int)g.draw(t.size() + 1), SEEK_SET); l.during = 0; l.sawNotLoading = false; }
    if (faulty) { sc::count = 0; sc::faults.clear(); sc::injected = 0; static const int errs[] = {EIO, EACCES, ENOMEM, EINTR, EINVAL, ENODEV, EAGAIN}; if (g.draw(4)) sc::faults.push_back({(unsigned)g.draw(6), g.pick(errs)}); }
    if (g.draw(2)) { g.note("load by name"); sc::Lib x; r = l.loadFile(BS(path)); }
    else {
      int fd = __real_open(path.c_str(), O_RDONLY);
      if (g.draw(2)) __real_lseek(fd, (off_t)g.draw(30), SEEK_SET);
      g.note("load by descriptor");
      { sc::Lib x; r = l.loadFile(fd); }
      REQUIRE(fcntl(fd, F_GETFD) != -1, "loadFile closed the descriptor it was given");
      __real_close(fd);
    }
    REQUIRE(r == 0 || sc::injected, "loadFile reported failure (%d) although nothing failed", r);
    REQUIRE(openFds() == fds0, "%d descriptors left open by loadFile", openFds() - fds0);
    REQUIRE(sc::mapped.empty(), "loadFile left a file mapped");
    REQUIRE(!l.isLoading(), "still reported as loading afterwards");
    REQUIRE(!l.sawNotLoading, "not reported as loading while loading");
    if (r == 0) {
      BS c = l;
      REQUIRE(same(c, m), "loaded %s (%zu bytes), the file has %s (%zu bytes)", q(val(c)).c_str(), c.length(), q(m).c_str(), m.size());
      REQUIRE(l.tell() == 0, "position after loading is %zu", l.tell());
      // the loaded Stream is usable
      BS line(l.getline());
      SS wl = m.substr(0, m.find('\n') == SS::npos ? SS::npos : m.find('\n') + 1);
      REQUIRE(same(line, wl), "first line of the loaded Stream is %s", q(val(line)).c_str());
    }
    SS now;
    REQUIRE(readAll(path, now) && now == m, "loading changed the file");
    if (g.draw(3) == 0) { s = l; m = val(BS(l)); }
  }
  // what cannot be opened
  sc::reset();
  SS bad = g.draw(2) ? dir + "/none/x" : dir + "/f0/x";
  g.note("open %s", bad.c_str());
  bd::Stream t(BS("keep"));
  if (access(bad.c_str(), F_OK)) {
    REQUIRE(t.loadFile(BS(bad)) != 0, "loading a file that is not there reported success");
    REQUIRE(t.writeFile(BS(bad)) != 0, "writing into a directory that is not there reported success");
    REQUIRE(t.loadFile(-1) != 0 && t.writeFile(-1) != 0, "using a bad descriptor reported success");
    REQUIRE(openFds() == fds0, "descriptors left open after failures");
  }
  if (g.draw(4) == 0) {  // wrong direction
    SS path = dir + "/ro";
    writeAll(path, "previous", 0600);
    int fd = __real_open(path.c_str(), O_RDONLY);
    bd::Stream u(BS("new contents"));
    REQUIRE(u.writeFile(fd) != 0, "writing to a read-only descriptor reported success");
    __real_close(fd);
    SS now;
    REQUIRE(readAll(path, now) && now == "previous", "a failed write changed the file");
  }
}
static void c16(Src& g) { c16run(g, false); }
static void c16f(Src& g) { c16run(g, true); }
PROPERTY("C16", "Stream file round trips", c16, 60000, 300000, false, "write by name or descriptor over new and existing files, then load into used Streams; non-trivial when a non-empty Stream was written");
PROPERTY("C16.faults", "Stream file operations with failing system calls", c16f, 50000, 200000, false, "as C16 with one failing system call per operation: reported success still means the exact bytes, and descriptors are released");
PROPERTY("C16.scale", "Stream file round trips at scale", (scaled<c16, 600000, 2>), 2500, 40000, false, "as C16 with files up to 600000 bytes; non-trivial when there is one");

// =============================== C17 / C18: AtomicFile ===============================
enum { OPEN, OPENBAD, WRITE, COMMIT, ABORT, RENEW };
struct Op { int kind; int path; mode_t mode; SS data; int how; };
struct Target { bool exists = false; SS data; mode_t mode = 0; Target() {} };
struct AF {
  Src& g;
  bool p17, p18;
  SS dir;
  std::vector<SS> names;            // target paths below dir
  std::vector<SS> dirs;             // directories below dir
  std::vector<bool> isDir;          // target is a directory: rename onto it fails
  std::vector<Target> t;            // what each target must hold
  std::unique_ptr<bd::AtomicFile> a;
  bool open = false;
  int cur = -1;
  SS pending;
  mode_t mode = -1;
  bool committing = false, sawNew = false;
  int fds0 = 0;
  std::vector<bool> rel;
  explicit AF(Src& g_, bool x, bool y) : g(g_), p17(x), p18(y) {}
  SS full(int i) const { return dir + "/" + names[i]; }
  static AF* self;
  SS deferred;  // seen inside a system call: must not throw through it
  void bad(const char* fmt, ...) {
    char b[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (sc::inObs) { if (deferred.empty()) deferred = b; } else pbt::fail("%s", b);
  }
  static void obs(const char* when, const char* call) { self->check(when, call); }
  // what is at the target right now (as after a crash here)
  void check(const char* when, const char* call) {
    if (!sc::inObs && !deferred.empty()) { SS d = deferred; deferred.clear(); pbt::fail("%s", d.c_str()); }
    for (size_t i = 0; i < names.size(); ++i) {
      if (isDir[i]) continue;
      SS now;
      bool ex = readAll(full(i), now);
      const Target& o = t[i];
      if (ex == o.exists && (!ex || now == o.data)) continue;
      if (committing && (int)i == cur && ex && now == pending) {
        sawNew = true;
        struct stat st;
        if (p17 && stat(full(i).c_str(), &st) == 0 && !sc::synced.count(sc::Ino(st.st_dev, st.st_ino)))
          bad("%s %s: the new contents are in place but were not flushed to stable storage", when, call);
        continue;
      }
      if (p17) bad("%s %s: %s holds %s, neither its complete previous contents (%s) nor complete new ones", when, call, names[i].c_str(), ex ? q(now, 40).c_str() : "nothing", o.exists ? q(o.data, 40).c_str() : "absent");
      if (p18) bad("%s %s: %s was touched outside a commit", when, call, names[i].c_str());
    }
  }
  SS tempFound() {
    // entries that are neither targets nor directories
    SS found;
    int n = 0;
    for (auto& d : dirs) {
      for (auto& e : listDir(dir + "/" + d)) {
        SS p = d.empty() ? e : d + "/" + e;
        if (std::find(names.begin(), names.end(), p) != names.end() || std::find(dirs.begin(), dirs.end(), p) != dirs.end()) continue;
        SS f = dir + "/" + p;
        bool kept = false;
        struct stat s1, s2;
        for (auto& kk : sc::keptTemps) if (stat(kk.c_str(), &s1) == 0 && stat(f.c_str(), &s2) == 0 && s1.st_ino == s2.st_ino) kept = true;
        if (kept) continue;
        ++n;
        found = p;
      }
    }
    if (n > 1) pbt::fail("%d temporary files are left, e.g. %s", n, found.c_str());
    return found;
  }
  void after(const char* what) {
    check("after", what);
    if (!p18) return;
    bool lib = a->is_open();
    REQUIRE(lib == open, "after %s: is_open() is %d", what, lib);
    REQUIRE((a->fd() != -1) == open, "after %s: fd() is %d", what, a->fd());
    SS tf = tempFound();
    if (!open) {
      REQUIRE(tf.empty(), "after %s: temporary file %s is left", what, tf.c_str());
      REQUIRE(openFds() == fds0, "after %s: %d descriptors left open", what, openFds() - fds0);
    } else {
      REQUIRE(openFds() == fds0 + 1, "after %s: %d descriptors open, expected 1", what, openFds() - fds0);
      SS d = names[cur].find('/') == SS::npos ? SS() : names[cur].substr(0, names[cur].rfind('/'));
      SS td = tf.find('/') == SS::npos ? SS() : tf.substr(0, tf.rfind('/'));
      REQUIRE(!tf.empty() && td == d, "after %s: the temporary file is %s, not in the directory of %s", what, tf.empty() ? "nowhere" : tf.c_str(), names[cur].c_str());
      struct stat s1, s2;
      REQUIRE(fstat(a->fd(), &s1) == 0 && stat((dir + "/" + tf).c_str(), &s2) == 0 && s1.st_ino == s2.st_ino, "after %s: fd() is not the temporary file", what);
    }
  }
  void exec(const Op& o, bool note) {
    unsigned inj0 = sc::injected;
    switch (o.kind) {
      case OPEN: case OPENBAD: {
        SS p = o.kind == OPENBAD ? (o.how & 1 ? dir + "/missing/x" : dir + "/" + names[0] + "/x") : (rel[o.path] ? names[o.path] : full(o.path));
        if (o.kind == OPENBAD && !(o.how & 1) && isDir[0]) p = dir + "/missing/x";
        if (note) g.note("open(%s, mode %o)", p.c_str(), (unsigned)o.mode);
        bool r;
        { sc::Lib l; r = o.mode == (mode_t)-1 && (o.how & 2) ? a->open(BS(p)) : a->open(BS(p), o.mode); }
        bool inj = sc::injected != inj0;
        if (o.kind == OPENBAD) { REQUIRE(!p18 || !r, "open of %s reported success", p.c_str()); }
        else if (p18) REQUIRE(r || inj, "open of %s failed although nothing failed", p.c_str());
        open = r;
        if (p18) REQUIRE(r == a->is_open(), "open() returned %d, is_open() is %d", r, a->is_open());
        if (r) { cur = o.path; mode = o.mode; pending.clear(); }
        after("open");
        break;
      }
      case WRITE:
        if (!open || a->fd() < 0) return;
        if (note) g.note("write %zu bytes", o.data.size());
        if (o.how & 1) { bd::Stream st((BS(o.data))); if (st.writeFile(a->fd())) pbt::fail("harness: write"); pending = o.data; }
        else {
          size_t k = 0;
          while (k < o.data.size()) { ssize_t r = __real_write(a->fd(), o.data.data() + k, o.data.size() - k); REQUIRE(r > 0, "harness: write to fd()"); k += r; }
          off_t at = __real_lseek(a->fd(), 0, SEEK_CUR);
          (void)at;
          SS now = pending;
          // after writeFile() the descriptor's position may be anywhere; read back what is there
          char b[8192]; now.clear(); ssize_t r; off_t off = 0;
          while ((r = pread(a->fd(), b, sizeof b, off)) > 0) { now.append(b, r); off += r; }
          pending = now;
        }
        sc::synced.clear();
        after("write");
        break;
      case COMMIT: {
        if (note) g.note(open ? "commit" : "commit (not open)");
        committing = open;
        sawNew = false;
        bool was = open, r;
        sc::closeFailed = sc::renamed = false;
        { sc::Lib l; r = a->commit(); }
        if (p17) REQUIRE(!(r && sc::closeFailed), "commit reported success although closing the new file before publishing it failed");
        bool inj = sc::injected != inj0;
        open = false;
        if (!was) { committing = false; REQUIRE(!r, "commit reported success although nothing was open"); after("commit while closed"); break; }
        SS now;
        bool ex = !isDir[cur] && readAll(full(cur), now);
        bool holds = ex && now == pending;
        if (isDir[cur]) { REQUIRE(!r, "commit over a directory reported success"); }
        else {
          if (p17) REQUIRE(r == holds || (!r && t[cur].exists && t[cur].data == pending && holds), "commit returned %d, the target %s", r, holds ? "holds the new contents" : "does not hold the new contents");
          REQUIRE(r || inj, "commit failed although nothing failed");
          if (r) {
            check("after", "commit");
            t[cur].exists = true; t[cur].data = pending;
            struct stat st;
            stat(full(cur).c_str(), &st);
            t[cur].mode = st.st_mode & 07777;
            if (p18) REQUIRE(t[cur].mode == (mode == (mode_t)-1 ? 0600 : (mode & 07777)), "the committed file has mode %o, requested %o", t[cur].mode, (unsigned)mode);
          }
        }
        committing = false;
        after("commit");
        break;
      }
      case ABORT: { if (note) g.note("abort"); bool was = open, r; { sc::Lib l; r = a->abort(); } open = false; if (p18) REQUIRE(r == was, "abort returned %d", r); after("abort"); break; }
      default:
        if (note) g.note("destroy and make a new AtomicFile");
        { sc::Lib l; a.reset(); }
        open = false;
        a.reset(new bd::AtomicFile());
        after("destruction");
    }
  }
  void setup(const std::vector<Target>& init) {
    sc::reset();
    dir = caseDir();
    for (auto& d : dirs) if (!d.empty()) mkdir((dir + "/" + d).c_str(), 0700);
    for (size_t i = 0; i < names.size(); ++i) {
      if (isDir[i]) mkdir(full(i).c_str(), 0700);
      else if (init[i].exists) writeAll(full(i), init[i].data, init[i].mode);
    }
    t = init;
    deferred.clear();
    open = false; cur = -1; pending.clear(); committing = false;
    fds0 = openFds();
    a.reset(new bd::AtomicFile());
    self = this;
    sc::observer = obs;
  }
  void runAll(const std::vector<Op>& ops, const std::vector<Target>& init, const std::vector<sc::Fault>& f, bool note) {
    setup(init);
    sc::faults = f;
    for (auto& o : ops) exec(o, note);
    if (note) g.note("destroy");
    unsigned was = open;
    (void)was;
    { sc::Lib l; a.reset(); }
    open = false;
    check("after", "destruction");
    if (p18) { SS tf = tempFound(); REQUIRE(tf.empty(), "after destruction: temporary file %s is left", tf.c_str()); REQUIRE(openFds() == fds0, "after destruction: %d descriptors left open", openFds() - fds0); }
    sc::observer = nullptr;
  }
};
AF* AF::self;

static void atomic(Src& g, bool p17, bool p18) {
  AF w(g, p17, p18);
  w.dirs = {"", "sub", "other dir"};
  // two or three targets
  unsigned nt = 1 + (unsigned)g.draw(3);
  static const char* const base[] = {"target", ".hidden", "a b %s%n", "XXXXXX", "t.XXXXXX", "\xc3\xa9\n'\"", "-x"};
  std::vector<Target> init;
  for (unsigned i = 0; i < nt; ++i) {
    SS n = base[g.draw(7)];
    if (g.draw(6) == 0) n += SS(200, 'l');
    n += std::to_string(i);
    unsigned d = (unsigned)g.draw(3);
    if (d) n = w.dirs[d] + "/" + n;
    w.names.push_back(n);
    w.rel.push_back(g.draw(2));
    w.isDir.push_back(g.draw(16) == 0);
    Target t;
    t.exists = g.draw(3) != 0;
    t.mode = 0400 | (mode_t)g.draw(0400);
    t.data = t.exists ? "old" + std::to_string(i) + g.bytes(20) : SS();
    if (t.exists && g.draw(8) == 0) t.data.clear();
    init.push_back(t);
  }
  // the file mode must not depend on the umask
  static const mode_t masks[] = {022, 0, 077, 002, 027};
  struct Um { mode_t old; explicit Um(mode_t m) : old(umask(m)) {} ~Um() { umask(old); } } um(g.pick(masks));
  // the script
  std::vector<Op> ops;
  unsigned serial = 0;
  bool committed = false;
  bool likelyOpen = false;
  unsigned n = 0;
  do {
    Op o;
    o.path = (int)g.draw(nt);
    static const mode_t modes[] = {(mode_t)-1, 0600, 0644, 0400, 0777, 0666, 0, 02755, 01777, 04711};
    o.mode = g.draw(3) ? g.pick(modes) : (mode_t)g.draw(01000);
    o.how = (int)g.draw(4);
    unsigned k = (unsigned)g.draw(16);
    if (!likelyOpen) o.kind = k < 12 ? OPEN : k == 12 ? OPENBAD : k == 13 ? COMMIT : k == 14 ? ABORT : RENEW;
    else o.kind = k < 5 ? WRITE : k < 12 ? COMMIT : k == 12 ? ABORT : k == 13 ? RENEW : k == 14 ? OPEN : OPENBAD;
    if (o.kind == WRITE) { o.data = "new" + std::to_string(++serial) + (g.draw(8) ? g.bytes(30) : g.exactly(4096 + g.draw(5000), "xyz")); }
    if (o.kind == OPEN) likelyOpen = true;
    if (o.kind == COMMIT && likelyOpen) committed = true;
    if (o.kind == COMMIT || o.kind == ABORT || o.kind == RENEW || o.kind == OPENBAD) likelyOpen = false;
    ops.push_back(o);
  } while (g.more(5) && ++n < 14);
  // without faults, then with every single controlled call failing, then some pairs
  w.runAll(ops, init, {}, true);
  unsigned N = sc::count;
  if (committed) g.nontrivial();
  static const int errs[] = {EIO, ENOSPC, EACCES, EINTR, EDQUOT, EINVAL, EXDEV, EPERM, EROFS, EBUSY, ENOSYS, EAGAIN};
  int e1 = g.pick(errs);
  for (unsigned k = 0; k < N; ++k) {
    if (g.tracing()) g.note("again with call %u (%s) failing: %s", k, k < sc::seq.size() ? sc::seq[k] : "", strerror(e1));
    w.runAll(ops, init, {{k, e1}}, false);
  }
  unsigned pairs = N > 1 ? 4 : 0;
  for (unsigned k = 0; k < pairs; ++k) {
    unsigned x = (unsigned)g.draw(N), y = x + 1 + (unsigned)g.draw(3);
    int e2 = g.pick(errs);
    if (g.tracing()) g.note("again with calls %u and %u failing: %s, %s", x, y, strerror(e1), strerror(e2));
    w.runAll(ops, init, {{x, e1}, {y, e2}}, false);
    g.label("double-fault");
  }
  if (N) g.label("single-faults-enumerated");
  sc::reset();
}
static void c17(Src& g) { atomic(g, true, false); }
static void c18(Src& g) { atomic(g, false, true); }
PROPERTY("C17", "AtomicFile: old or new at every call boundary and under every fault", c17, 5000, 80000, false,
    "random scripts of open/write/commit/abort/destroy; run plainly, then once with every single system call failing, then with pairs failing; the target is compared before and after every call; non-trivial when the script commits");
PROPERTY("C18", "AtomicFile: cleanup and mode", c18, 5000, 80000, false,
    "scripts and faults as C17; temporary files, descriptors, state and mode are checked after every operation; non-trivial when the script commits");

// ---- several updates under way at once, of the same target or of neighbours, among files other programs left there --------
static void atomicMany(Src& g, bool p17, bool p18) {
  sc::reset();
  SS dir = caseDir();
  static const char* const base[] = {"target", "t", ".t", "a b"};
  SS b = base[g.draw(4)];
  std::vector<SS> names = {b, g.draw(2) ? b + "2" : "sub/" + b};
  mkdir((dir + "/sub").c_str(), 0700);
  std::map<SS, SS> want;                     // every file that is not a temporary of ours
  for (auto& n : names) if (g.draw(3)) want[n] = "old " + n;
  static const char* const junk[] = {".%.tmp", "%.tmp", "%~", "%.new", ".%.XXXXXX", ".%.000000", "%.XXXXXX", "%.bak", ".%.swp", "%.lock"};
  for (auto j : junk) if (g.draw(3) == 0) { SS n(j); n.replace(n.find('%'), 1, b); want[n] = "someone else's"; }
  for (auto pid : {"." + b + "." + std::to_string(getpid()), b + "." + std::to_string(getpid())}) if (g.draw(3) == 0) want[pid] = "someone else's";
  for (auto& w : want) writeAll(dir + "/" + w.first, w.second, 0644);
  struct One { std::unique_ptr<bd::AtomicFile> a; bool open = false; unsigned t = 0; SS data; One() : a(new bd::AtomicFile()) {} };
  std::vector<One> fs(2 + g.draw(3));
  int fds0 = openFds();
  unsigned most = 0, commits = 0, serial = 0, k = 0;
  while (g.more(16) && k++ < 60) {
    unsigned i = (unsigned)g.draw(fs.size());
    One& f = fs[i];
    switch (g.draw(8)) {
      case 0: case 1: case 2: {
        f.t = (unsigned)g.draw(2);
        g.note("%u: open %s", i, names[f.t].c_str());
        bool r = f.a->open(BS(dir + "/" + names[f.t]));
        REQUIRE(r && f.a->is_open() && f.a->fd() >= 0, "open of %s failed although nothing failed", names[f.t].c_str());
        f.open = true; f.data.clear();
        break;
      }
      case 3: case 4:
        if (f.open) {
          SS d = "update " + std::to_string(++serial) + " by " + std::to_string(i) + g.bytes(20);
          g.note("%u: write %s", i, q(d, 40).c_str());
          REQUIRE(__real_write(f.a->fd(), d.data(), d.size()) == (ssize_t)d.size(), "harness: write to fd()");
          f.data += d;
        }
        break;
      case 5: case 6:
        if (f.open) {
          g.note("%u: commit", i);
          REQUIRE(f.a->commit(), "commit of %s failed although nothing failed", names[f.t].c_str());
          f.open = false; want[names[f.t]] = f.data; ++commits;
        }
        break;
      default:
        if (g.draw(2)) { g.note("%u: abort", i); REQUIRE(f.a->abort() == f.open, "abort reports the wrong thing"); }
        else { g.note("%u: destroy", i); f.a.reset(); f.a.reset(new bd::AtomicFile()); }
        f.open = false;
    }
    unsigned nopen = 0;
    for (auto& o : fs) nopen += o.open;
    most = std::max(most, nopen);
    // what is there
    std::map<SS, SS> have;
    unsigned temps = 0;
    for (auto d : {SS(), SS("sub/")}) for (auto& e : listDir(dir + "/" + d)) {
      if (d.empty() && e == "sub") continue;
      SS n = d + e, now;
      readAll(dir + "/" + n, now);
      if (want.count(n)) have[n] = now; else ++temps;
    }
    for (auto& w : want) {
      bool target = w.first == names[0] || w.first == names[1];
      if (target ? p17 || p18 : p18) REQUIRE(have.count(w.first) && have[w.first] == w.second, "%s holds %s, expected %s", w.first.c_str(), have.count(w.first) ? q(have[w.first], 60).c_str() : "nothing", q(w.second, 60).c_str());
    }
    if (p18) {
      REQUIRE(temps == nopen, "%u temporary files, %u updates under way", temps, nopen);
      REQUIRE(openFds() == fds0 + (int)nopen, "%d descriptors open, %u updates under way", openFds() - fds0, nopen);
    }
    for (auto& o : fs) {
      REQUIRE(o.a->is_open() == o.open, "is_open() is %d", o.a->is_open());
      if (!o.open) continue;
      SS now; char buf[4096]; ssize_t r; off_t off = 0;
      while ((r = pread(o.a->fd(), buf, sizeof buf, off)) > 0) { now.append(buf, (size_t)r); off += r; }
      REQUIRE(now == o.data, "the new contents of an update under way are %s, written were %s", q(now, 60).c_str(), q(o.data, 60).c_str());
    }
  }
  if (most > 1 && commits) g.nontrivial();
  if (most > 1) g.label("several-open");
}
static void c17many(Src& g) { atomicMany(g, true, false); }
static void c18many(Src& g) { atomicMany(g, false, true); }
PROPERTY("C17.many", "several AtomicFile updates under way at once", c17many, 4000, 60000, false, "up to 4 AtomicFiles on two targets, among files of other programs; non-trivial when two are open at once and one commits");
PROPERTY("C18.many", "several AtomicFile updates under way at once", c18many, 4000, 60000, false, "as C17.many");
