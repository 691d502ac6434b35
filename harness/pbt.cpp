#include "pbt.h"
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/syscall.h>

extern "C" int __llvm_profile_write_file(void) __attribute__((weak));  // coverage builds (tools/coverage.py)

namespace pbt {

enum { ST_IDLE = 0, ST_RUNNING = 1, ST_FAILED = 2, ST_HANG = 3, ST_DONE = 4 };
static const size_t MAXC = 1 << 17;
struct Shm {
  volatile uint64_t caseIdx;
  volatile uint32_t status;
  volatile uint32_t n;
  volatile uint32_t overflow;
  volatile uint64_t evals;
  char msg[3000];
  uint64_t choices[MAXC];
};

std::vector<Property>& registry() { static std::vector<Property> r; return r; }

void fail(const char* fmt, ...) {
  Fail f;
  va_list va;
  va_start(va, fmt);
  vsnprintf(f.msg, sizeof f.msg, fmt, va);
  va_end(va);
  throw f;
}

static inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

uint64_t Src::draw(uint64_t n) {
  uint64_t v;
  if (n == 0) v = replay ? 0 : splitmix(rng);  // full 64-bit
  else if (replay) v = 0; else v = n == 1 ? 0 : splitmix(rng) % n;
  if (replay) {
    v = idx < in->size() ? (*in)[idx] : 0;
    if (n && v >= n) v %= n;
  }
  ++idx;
  if (shm->n < MAXC) { shm->choices[shm->n] = v; shm->n = shm->n + 1; }
  else shm->overflow = 1;
  return v;
}

static const size_t kSpecial[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513,
  1000, 1023, 1024, 1025, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 20000, 65535, 65536, 65537};
size_t Src::len(size_t max) {
  if (max == 0) return 0;
  uint64_t k = draw(40);
  size_t n;
  if (k < 26) n = draw(9);
  else if (k < 35) n = draw(33);
  else if (k < 38) n = kSpecial[draw(6)];
  else {
    uint64_t j = draw(20);
    if (j < 15) n = kSpecial[draw(18)];
    else if (j < 19) n = draw(301);
    else n = kSpecial[draw(sizeof kSpecial / sizeof *kSpecial)];
  }
  return n > max ? (k & 1 ? max : n % (max + 1)) : n;
}
std::string Src::exactly(size_t n, const std::string& al) {
  std::string s(n, 'a');
  // long strings are periodic with some noise so that the choice sequence stays short
  size_t lim = n <= 48 ? n : 24;
  for (size_t i = 0; i < lim; ++i) s[i] = al[draw(al.size())];
  for (size_t i = lim; i < n; ++i) s[i] = s[i - lim];
  if (n > 48) {
    for (unsigned k = 0; k < 4; ++k) { size_t i = draw(n); s[i] = al[draw(al.size())]; }
    s[n - 1] = al[draw(al.size())];
  }
  return s;
}
std::string Src::bytesOver(const std::string& al, size_t max) { return exactly(len(max), al); }
std::string Src::bytes(size_t max) {
  static const std::string als[] = {
    std::string("ab"), std::string("abAB c"), std::string("abc\0\n\r \t", 8),
    std::string("\0\x01\x7f\x80\xff" "az", 7), std::string("aZ,.=:\"{}[]$\\;/"),
  };
  uint64_t k = draw(6);
  if (k < 5) return bytesOver(als[k], max);
  size_t n = len(max);
  std::string s(n, 'a');
  size_t lim = n <= 48 ? n : 32;
  for (size_t i = 0; i < lim; ++i) s[i] = (char)draw(256);
  for (size_t i = lim; i < n; ++i) s[i] = (char)(s[i - lim] + (i / 32));
  return s;
}
size_t Src::len2(size_t small, size_t big) { if (huge()) return hugeLen(scaleMax); return draw(30) < 29 ? len(small) : longLen(big); }
size_t Src::longLen(size_t big) {
  size_t n = 0;
  switch (draw(4)) {
    case 0: n = draw(std::min<size_t>(big, 300) + 1); break;
    case 1: n = draw(big + 1); break;
    default: n = kSpecial[draw(sizeof kSpecial / sizeof *kSpecial)];
  }
  return n > big ? draw(big + 1) : n;
}
size_t Src::hugeLen(size_t max) {
  static const size_t edge[] = {4096, 8192, 32768, 65536, 65536, 131072, 196608, 262144};
  size_t n = 0;
  switch (draw(4)) {
    case 0: n = longLen(70000); break;
    case 1: n = draw(max + 1); break;
    default: { size_t e = edge[draw(8)]; size_t d = draw(draw(2) ? 20 : 2000); n = draw(2) ? e + d : e - d; }
  }
  return std::min(n, max);
}
size_t Src::crowd() {
  static const size_t edge[] = {127, 128, 255, 256, 257, 511, 1024, 32767, 32768, 65535, 65536};
  switch (draw(5)) {
    case 0: return draw(20);
    case 1: return draw(700);
    case 2: return edge[draw(11)] + draw(4);
    default: return edge[draw(6)] + draw(4);
  }
}
std::string Src::bytes2(size_t small, size_t big) {
  bool h = huge();
  if (!h && draw(30) < 29) return bytes(small);
  static const std::string als[] = {std::string("ab"), std::string("abc\0\n\r \t", 8), std::string("\0\x01\x7f\x80\xff" "az", 7), std::string("aZ,.=:\"{}[]$\\;/")};
  return exactly(h ? hugeLen(scaleMax) : longLen(big), als[draw(4)]);
}
uint64_t Src::u64() {
  switch (draw(6)) {
    case 0: return draw(10);
    case 1: return (uint64_t)-(int64_t)draw(10);
    case 2: { uint64_t b = draw(64); int64_t d = range(-2, 2); return (uint64_t(1) << b) + (uint64_t)d; }
    case 3: { uint64_t b = draw(64); int64_t d = range(-2, 2); return (uint64_t)0 - (uint64_t(1) << b) + (uint64_t)d; }
    case 4: return draw(100000);
    default: return draw(0) >> draw(64);
  }
}
void Src::note(const char* fmt, ...) {
  if (traceFd < 0) return;
  char buf[4096];
  va_list va;
  va_start(va, fmt);
  int n = vsnprintf(buf, sizeof buf - 1, fmt, va);
  va_end(va);
  if (n < 0) return;
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
  buf[n++] = '\n';
  ssize_t r = ::write(traceFd, buf, n);
  (void)r;
}

std::string q(const char* p, size_t n) { return q(std::string(p, n)); }
std::string q(const std::string& s, size_t max) {
  std::string o = "\"";
  char b[8];
  size_t n = std::min(s.size(), max);
  for (size_t i = 0; i < n; ++i) {
    unsigned char c = s[i];
    if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t";
    else if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    else o += c;
  }
  o += '"';
  if (s.size() > n) { snprintf(b, sizeof b, "..."); o += b; o += "(" + std::to_string(s.size()) + " bytes)"; }
  return o;
}

static Shm* newShm() {
  void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return static_cast<Shm*>(p);
}

static Shm* g_shm = nullptr;
static void onCpu(int) {
  if (g_shm) { g_shm->status = ST_HANG; snprintf(g_shm->msg, sizeof g_shm->msg, "no progress: CPU budget of the case used up (hang)"); }
  _exit(97);
}
// A case that is blocked for good uses no processor time: at every tick of a wall clock, see whether the process ran, or
// waited for a processor, since the last one.
static const unsigned TICK = 12, TICKS = 4;
static unsigned g_idle;
static double g_ran;
static double ranSoFar() {
  struct timespec ts;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
  double r = ts.tv_sec + ts.tv_nsec * 1e-9;
  int fd = (int)syscall(SYS_openat, AT_FDCWD, "/proc/self/schedstat", O_RDONLY);
  if (fd >= 0) {
    char b[100];
    long n = syscall(SYS_read, fd, b, sizeof b - 1);
    syscall(SYS_close, fd);
    const char* c = b;
    b[n > 0 ? n : 0] = 0;
    while (*c && *c != ' ') ++c;
    unsigned long long w = 0;
    if (*c) for (++c; *c >= '0' && *c <= '9'; ++c) w = w * 10 + (unsigned)(*c - '0');
    r += w * 1e-9;
  }
  return r;
}
static void onTick(int) {
  int e = errno;
  double r = ranSoFar();
  g_idle = r - g_ran < 0.1 ? g_idle + 1 : 0;
  g_ran = r;
  errno = e;
  if (g_idle < TICKS) return;
  if (g_shm) { g_shm->status = ST_HANG; snprintf(g_shm->msg, sizeof g_shm->msg, "no progress: blocked for good (hang)"); }
  _exit(97);
}
static void armCpu(unsigned secs) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &it, nullptr);
  it.it_value.tv_sec = it.it_interval.tv_sec = secs ? TICK : 0;
  setitimer(ITIMER_REAL, &it, nullptr);
  g_idle = 0;
  g_ran = -1e9;
}

static double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static uint64_t hashStr(const char* s) { uint64_t h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull; return h; }
static uint64_t hashChoices(const Shm* s) {
  uint64_t h = 1469598103934665603ull;
  for (uint32_t i = 0; i < s->n; ++i) { uint64_t v = s->choices[i]; h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }
  return h;
}

// Runs one case in this process. Returns true if it passed.
static bool runOnce(const Property& p, Src& g, bool& balance) {
  g.shm->n = 0;
  balance = false;
  g.shm->overflow = 0;
  g.shm->status = ST_RUNNING;
  g_shm = g.shm;
  armCpu(p.cpuSeconds);
  bool ok = true;
  try {
    p.fn(g);
  } catch (const Fail& f) {
    ok = false;
    balance = f.balance;
    snprintf(g.shm->msg, sizeof g.shm->msg, "%s", f.msg);
  } catch (const std::exception& e) {
    ok = false;
    snprintf(g.shm->msg, sizeof g.shm->msg, "unexpected exception: %s", e.what());
  } catch (...) {
    ok = false;
    snprintf(g.shm->msg, sizeof g.shm->msg, "unexpected exception");
  }
  armCpu(0);
  mem::onAlloc = nullptr; mem::onFree = nullptr; mem::track(false);
  g.shm->status = ok ? ST_DONE : ST_FAILED;
  return ok;
}
static bool runOne(const Property& p, Src& g) {
  bool balance;
  bool ok = runOnce(p, g, balance);
  for (unsigned k = 0; k < 3 && !ok && balance && !g.shm->overflow; ++k) {
    std::vector<uint64_t> c(g.shm->choices, g.shm->choices + g.shm->n);
    Src r(g);
    r.replay = true; r.in = &c; r.idx = 0; r.nontriv = false; r.nlabels = 0; r.traceFd = -1;
    ok = runOnce(p, r, balance);
  }
  g.shm->evals = g.shm->evals + 1;
  return ok;
}

static void seedSrc(Src& g, const Property& p, uint64_t seed, uint64_t i) {
  g.replay = false;
  g.idx = 0;
  uint64_t s = seed * 0x9E3779B97F4A7C15ull ^ hashStr(p.id) ^ (i * 0xD1B54A32D192ED03ull);
  splitmix(s);
  g.rng = s;
  g.nontriv = false;
  g.nlabels = 0;
  g.sizeHint = i % 101;
}

static std::string g_scratch;
const std::string& scratch() { return g_scratch; }

static void childSetup(const std::string& errFile) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  signal(SIGPROF, onCpu);
  signal(SIGALRM, onTick);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  if (!errFile.empty()) {
    int fd = open(errFile.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
  }
}

static std::string slurp(const std::string& f, size_t max = 1 << 20) {
  std::ifstream i(f, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
  if (s.size() > max) s.resize(max);
  return s;
}
static std::string sanSummary(const std::string& err) {
  std::istringstream is(err);
  std::string l, first;
  while (std::getline(is, l)) {
    size_t e = l.find("ERROR: AddressSanitizer");
    if (e != std::string::npos) { first = l.substr(e); break; }
    if (l.find("runtime error:") != std::string::npos) { first = l; break; }
    if (l.find("WARNING: ThreadSanitizer") != std::string::npos) { first = l; break; }
  }
  // strip addresses
  std::string o;
  for (size_t i = 0; i < first.size(); ++i) {
    if (first.compare(i, 2, "0x") == 0) { o += "0x.."; i += 2; while (i < first.size() && isxdigit((unsigned char)first[i])) ++i; --i; }
    else o += first[i];
  }
  return o.substr(0, 300);
}

struct Outcome { bool failed = false; std::string msg; std::vector<uint64_t> choices; };

// Run a choice sequence in a fork; with traceFile also writes a readable trace.
static Outcome runForked(const Property& p, Shm* shm, const std::vector<uint64_t>& in, const std::string& dir,
    const char* traceFile = nullptr, const uint64_t* seedCase = nullptr, bool* nontriv = nullptr) {
  Outcome o;
  std::string err = dir + "/err." + std::to_string(getpid());
  shm->status = ST_IDLE; shm->n = 0; shm->msg[0] = 0; shm->caseIdx = 0;
  pid_t pid = fork();
  if (pid == 0) {
    childSetup(err);
    Src g;
    memset(&g.labels, 0, sizeof g.labels);
    g.shm = shm;
    if (traceFile) g.traceFd = open(traceFile, O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0600);
    if (seedCase) seedSrc(g, p, seedCase[0], seedCase[1]);
    else { g.replay = true; g.in = &in; }
    bool ok = runOne(p, g);
    shm->caseIdx = g.nontriv;
    _exit(ok ? 0 : 98);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (nontriv) *nontriv = shm->caseIdx != 0;
  o.choices.assign(shm->choices, shm->choices + shm->n);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
  o.failed = true;
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 97)) o.msg = shm->msg;
  else {
    o.msg = sanSummary(slurp(err));
    if (o.msg.empty()) o.msg = WIFSIGNALED(st) ? "process killed by signal " + std::to_string(WTERMSIG(st)) : "process exited with status " + std::to_string(WEXITSTATUS(st));
  }
  unlink(err.c_str());
  return o;
}

static Outcome shrink(const Property& p, Shm* shm, Outcome best, const std::string& dir, double maxSecs) {
  double t0 = now();
  unsigned execs = 0;
  auto attempt = [&](const std::vector<uint64_t>& c) {
    ++execs;
    Outcome o = runForked(p, shm, c, dir);
    if (!o.failed) return false;
    // canonical: what was actually consumed
    if (o.choices.size() < best.choices.size() || (o.choices.size() == best.choices.size() && o.choices < best.choices)) { best = o; return true; }
    return false;
  };
  auto timeUp = [&] { return now() - t0 > maxSecs || execs > 6000; };
  bool progress = true;
  while (progress && !timeUp()) {
    progress = false;
    // truncate tail / delete chunks
    for (size_t k = std::max<size_t>(1, best.choices.size() / 2); k >= 1 && !timeUp(); k /= 2) {
      for (size_t i = best.choices.size(); i > 0 && !timeUp();) {
        size_t s = i > k ? i - k : 0;
        if (s + k > best.choices.size()) { i = s; continue; }
        std::vector<uint64_t> c(best.choices);
        c.erase(c.begin() + s, c.begin() + s + k);
        if (attempt(c)) { progress = true; if (i > best.choices.size()) i = best.choices.size(); }
        else i = k > 1 ? (i > k / 2 ? i - std::max<size_t>(1, k / 2) : 0) : i - 1;
      }
      if (k == 1) break;
    }
    // lower values
    for (size_t i = 0; i < best.choices.size() && !timeUp(); ++i) {
      if (!best.choices[i]) continue;
      std::vector<uint64_t> c(best.choices);
      c[i] = 0;
      if (attempt(c)) { progress = true; continue; }
      uint64_t lo = 0, hi = i < best.choices.size() ? best.choices[i] : 0;
      while (hi - lo > 1 && !timeUp() && i < best.choices.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        c = best.choices; c[i] = mid;
        if (attempt(c)) { progress = true; if (i >= best.choices.size()) break; hi = best.choices[i]; if (hi <= lo) break; }
        else lo = mid;
      }
    }
  }
  return best;
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

static void usage() { fprintf(stderr, "usage: prog --prop ID [--cases N] [--seed S] [--workers W] [--time SECS] [--out FILE] [--replaydir DIR] [--config NAME] [--replay FILE] [--list]\n"); exit(2); }

static bool readReplay(const std::string& f, std::vector<uint64_t>& out) {
  std::ifstream i(f);
  std::string l;
  bool got = false;
  while (std::getline(i, l)) {
    if (l.compare(0, 8, "choices:") == 0) {
      std::istringstream is(l.substr(8));
      uint64_t v;
      out.clear();
      while (is >> v) out.push_back(v);
      got = true;
    }
  }
  return got;
}

// Reports the failing case: confirm, shrink, write the replay file. Returns path ("" if not reproducible).
static std::string reportFailure(const Property& p, Shm* shm, const std::vector<uint64_t>& choices, const std::string& firstMsg,
    const std::string& dir, const std::string& replaydir, const std::string& config, uint64_t seed, uint64_t caseIdx, std::string& msgOut) {
  Outcome o;
  for (int k = 0; k < 3 && !o.failed; ++k) o = runForked(p, shm, choices, dir);
  if (!o.failed) return "";
  const bool slow = o.msg.find("blocked for good") != std::string::npos;
  if (!slow) o = shrink(p, shm, o, dir, 45);
  std::string tf = dir + "/trace";
  Outcome fin = slow ? o : runForked(p, shm, o.choices, dir, tf.c_str());
  if (!fin.failed) for (int k = 0; k < 3 && !fin.failed; ++k) fin = runForked(p, shm, o.choices, dir, tf.c_str());
  if (!fin.failed) fin = o;
  msgOut = fin.msg;
  char path[600];
  snprintf(path, sizeof path, "%s/%s-%s-%llu-%llu.replay", replaydir.c_str(), p.id, config.c_str(), (unsigned long long)seed, (unsigned long long)caseIdx);
  std::ofstream f(path);
  f << "# property " << p.id << " (" << p.name << ") config " << config << " seed " << seed << " case " << caseIdx << "\n";
  f << "# failure: " << fin.msg << "\n";
  if (firstMsg != fin.msg) f << "# first seen as: " << firstMsg << "\n";
  std::istringstream is(slurp(tf, 20000));
  std::string l;
  while (std::getline(is, l)) f << "#   " << l << "\n";
  f << "choices:";
  for (uint64_t v : o.choices) f << " " << v;
  f << "\n";
  return path;
}

int main_(int argc, char** argv) {
  std::string prop, out, replaydir = ".", config = "default", replay, workdir;
  uint64_t seed = 1, cases = 0, workers = 8;
  double maxTime = 300;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> const char* { if (++i >= argc) usage(); return argv[i]; };
    if (a == "--prop") prop = val();
    else if (a == "--cases") cases = strtoull(val(), 0, 10);
    else if (a == "--seed") seed = strtoull(val(), 0, 10);
    else if (a == "--workers") workers = strtoull(val(), 0, 10);
    else if (a == "--time") maxTime = atof(val());
    else if (a == "--out") out = val();
    else if (a == "--replaydir") replaydir = val();
    else if (a == "--config") config = val();
    else if (a == "--replay") replay = val();
    else if (a == "--workdir") workdir = val();
    else if (a == "--list") list = true;
    else usage();
  }
  if (list) {
    for (auto& p : registry()) printf("%s\t%s\t%u\t%u\t%s\n", p.id, p.name, p.quick, p.thorough, p.rule);
    return 0;
  }
  const Property* pp = nullptr;
  for (auto& p : registry()) if (prop == p.id) pp = &p;
  if (!pp) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  const Property& p = *pp;
  if (!cases) cases = p.quick;
  char tmpl[600];
  snprintf(tmpl, sizeof tmpl, "%s/pbt.XXXXXX", workdir.empty() ? "/tmp" : workdir.c_str());
  if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
  std::string dir = tmpl;
  g_scratch = dir;
  auto rmdirAll = [&] { std::string c = "rm -rf '" + dir + "'"; int r = system(c.c_str()); (void)r; };

  if (!replay.empty()) {
    std::vector<uint64_t> c;
    if (!readReplay(replay, c)) { fprintf(stderr, "bad replay file\n"); rmdirAll(); return 2; }
    Shm* shm = newShm();
    std::string tf = dir + "/trace";
    Outcome o = runForked(p, shm, c, dir, tf.c_str());
    std::string t = slurp(tf);
    fwrite(t.data(), 1, t.size(), stdout);
    printf("%s%s\n", o.failed ? "FAILED: " : "passed", o.msg.c_str());
    rmdirAll();
    return o.failed ? 1 : 0;
  }

  double t0 = now();
  struct W { pid_t pid; Shm* shm; bool done; };
  std::vector<W> ws;
  for (uint64_t w = 0; w < workers; ++w) {
    Shm* shm = newShm();
    pid_t pid = fork();
    if (pid == 0) {
      childSetup(dir + "/err.w" + std::to_string(w));
      Src g;
      g.shm = shm;
      std::unordered_set<uint64_t> seen;
      std::map<std::string, uint64_t> lab;
      uint64_t evals = 0, nontriv = 0, overflow = 0;
      std::vector<uint64_t> samples;
      bool timedOut = false;
      for (uint64_t i = w; i < cases; i += workers) {
        if ((i & 15) == (w & 15) || p.forkPerCase) if (now() - t0 > maxTime) { timedOut = true; break; }
        shm->caseIdx = i;
        seedSrc(g, p, seed, i);
        bool ok;
        if (p.forkPerCase) {
          // labels and flags come back through a pipe
          int pf[2];
          if (pipe(pf)) _exit(3);
          pid_t c = fork();
          if (c == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(pf[0]);
            bool k = runOne(p, g);
            std::string s;
            s += g.nontriv ? "1" : "0";
            for (unsigned q = 0; q < g.nlabels; ++q) { s += g.labels[q]; s += '\n'; }
            ssize_t r = write(pf[1], s.data(), s.size()); (void)r;
            if (__llvm_profile_write_file) __llvm_profile_write_file();
            _exit(k ? 0 : 98);
          }
          close(pf[1]);
          std::string s;
          char b[512];
          ssize_t r;
          while ((r = read(pf[0], b, sizeof b)) > 0) s.append(b, r);
          close(pf[0]);
          int st = 0;
          while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
          ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
          if (!ok && shm->status == ST_RUNNING) { shm->status = ST_FAILED; std::string m = sanSummary(slurp(dir + "/err.w" + std::to_string(w))); snprintf(shm->msg, sizeof shm->msg, "%s", m.empty() ? "crash" : m.c_str()); }
          if (!s.empty()) {
            g.nontriv = s[0] == '1';
            std::istringstream is(s.substr(1));
            std::string l;
            while (std::getline(is, l)) ++lab[l];
          }
        } else {
          ok = runOne(p, g);
          for (unsigned q = 0; q < g.nlabels; ++q) ++lab[g.labels[q]];
        }
        if (!ok) _exit(98);
        ++evals;
        if (shm->overflow) ++overflow;
        if (g.nontriv) { ++nontriv; if (seen.size() < 4000000) seen.insert(hashChoices(shm)); if (samples.size() < 2) samples.push_back(i); }
      }
      std::ofstream f(dir + "/res.w" + std::to_string(w), std::ios::binary);
      f << evals << " " << nontriv << " " << timedOut << " " << overflow << "\n" << samples.size();
      for (uint64_t s : samples) f << " " << s;
      f << "\n" << lab.size() << "\n";
      for (auto& kv : lab) f << kv.second << " " << kv.first << "\n";
      f << seen.size() << "\n";
      for (uint64_t h : seen) f.write(reinterpret_cast<const char*>(&h), 8);
      f.close();
      if (__llvm_profile_write_file) __llvm_profile_write_file();
      _exit(0);
    }
    ws.push_back(W{pid, shm, false});
  }
  // wait
  int failedW = -1;
  std::string firstMsg;
  size_t left = ws.size();
  bool killed = false;
  std::vector<int> failing;
  while (left) {
    int st = 0;
    pid_t pid = waitpid(-1, &st, 0);
    if (pid < 0) { if (errno == EINTR) continue; break; }
    for (size_t w = 0; w < ws.size(); ++w) if (ws[w].pid == pid && !ws[w].done) {
      ws[w].done = true;
      --left;
      bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
      if (!ok && !killed) {
        failing.push_back((int)w);
        failedW = (int)w;
        if (ws[w].shm->status == ST_FAILED || ws[w].shm->status == ST_HANG) firstMsg = ws[w].shm->msg;
        else firstMsg = sanSummary(slurp(dir + "/err.w" + std::to_string(w)));
        if (firstMsg.empty()) firstMsg = "worker died (status " + std::to_string(st) + ")";
        for (auto& x : ws) if (!x.done) kill(x.pid, SIGKILL);
        killed = true;
      }
    }
  }
  uint64_t evals = 0, nontriv = 0, overflow = 0;
  bool timedOut = false;
  std::map<std::string, uint64_t> lab;
  std::unordered_set<uint64_t> seen;
  std::vector<uint64_t> samples;
  for (size_t w = 0; w < ws.size(); ++w) {
    std::ifstream f(dir + "/res.w" + std::to_string(w), std::ios::binary);
    if (!f) { evals += ws[w].shm->evals; continue; }
    uint64_t e = 0, n = 0, ns = 0, nl = 0, nh = 0, ov = 0;
    int to = 0;
    f >> e >> n >> to >> ov >> ns;
    evals += e; nontriv += n; overflow += ov; if (to) timedOut = true;
    for (uint64_t i = 0; i < ns; ++i) { uint64_t s; f >> s; samples.push_back(s); }
    f >> nl;
    for (uint64_t i = 0; i < nl; ++i) { uint64_t c; std::string l; f >> c; std::getline(f, l); if (!l.empty() && l[0] == ' ') l.erase(0, 1); lab[l] += c; }
    f >> nh;
    f.get();
    for (uint64_t i = 0; i < nh; ++i) { uint64_t h; f.read(reinterpret_cast<char*>(&h), 8); seen.insert(h); }
  }
  std::string replayPath, msg;
  uint64_t failCase = 0;
  bool flaky = false;
  if (failedW >= 0) {
    Shm* s = ws[failedW].shm;
    failCase = s->caseIdx;
    std::vector<uint64_t> c(s->choices, s->choices + s->n);
    Shm* shm = newShm();
    replayPath = reportFailure(p, shm, c, firstMsg, dir, replaydir, config, seed, failCase, msg);
    if (replayPath.empty()) flaky = true;
  }
  std::vector<std::string> sampleTexts;
  std::sort(samples.begin(), samples.end());
  if (failedW < 0) {
    Shm* shm = newShm();
    for (uint64_t s : samples) {
      if (sampleTexts.size() >= 4) break;
      std::string tf = dir + "/strace";
      uint64_t sc[2] = {seed, s};
      runForked(p, shm, {}, dir, tf.c_str(), sc);
      std::string t = slurp(tf, 1500);
      sampleTexts.push_back("case " + std::to_string(s) + ":\n" + t);
    }
  }
  if (!out.empty()) {
    std::ofstream f(out);
    f << "{\"id\":" << jstr(p.id) << ",\"name\":" << jstr(p.name) << ",\"config\":" << jstr(config) << ",\"seed\":" << seed
      << ",\"cases_requested\":" << cases << ",\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << seen.size()
      << ",\"choice_overflow\":" << overflow << ",\"time_capped\":" << (timedOut ? "true" : "false") << ",\"rule\":" << jstr(p.rule) << ",\"wall_s\":" << (now() - t0);
    f << ",\"labels\":{";
    bool first = true;
    for (auto& kv : lab) { f << (first ? "" : ",") << jstr(kv.first) << ":" << kv.second; first = false; }
    f << "},\"samples\":[";
    for (size_t i = 0; i < sampleTexts.size(); ++i) f << (i ? "," : "") << jstr(sampleTexts[i]);
    f << "],\"violation\":";
    if (failedW >= 0) f << "{\"replay\":" << jstr(replayPath) << ",\"message\":" << jstr(msg.empty() ? firstMsg : msg) << ",\"case\":" << failCase << ",\"reproducible\":" << (flaky ? "false" : "true") << "}";
    else f << "null";
    f << "}\n";
  }
  rmdirAll();
  if (failedW >= 0) {
    fprintf(stderr, "%s [%s]: case %llu failed: %s\n  replay: %s\n", p.id, config.c_str(), (unsigned long long)failCase, (msg.empty() ? firstMsg : msg).c_str(), flaky ? "(not reproducible)" : replayPath.c_str());
    return flaky ? 4 : 1;
  }
  fprintf(stderr, "%s [%s]: %llu cases, %zu distinct non-trivial, %.1fs%s\n", p.id, config.c_str(), (unsigned long long)evals, seen.size(), now() - t0, timedOut ? " (time cap)" : "");
  return 0;
}
}  // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif
