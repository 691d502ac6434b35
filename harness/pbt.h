// pbt: choice-sequence property-based testing engine.
// A case is a sequence of bounded choices; everything generated is a function of it.
#ifndef PBT_H
#define PBT_H
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <functional>

namespace pbt {

struct Fail { char msg[3000]; bool balance = false; };
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

struct Shm;

class Src {
  public:
    Shm* shm;
    bool replay = false;
    const std::vector<uint64_t>* in = nullptr;  // replayed choices
    size_t idx = 0;
    uint64_t rng = 0;
    int traceFd = -1;
    bool nontriv = false;
    uint64_t sizeHint = 0;  // grows with the case index (0..100)
    const char* labels[64];
    unsigned nlabels = 0;

    uint64_t draw(uint64_t n);  // uniform in [0,n)
    bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }  // shrinks to false
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
    // Continue a loop? Shrinks to "stop". Expected number of iterations about mean.
    bool more(unsigned mean) { return draw(mean + 1) != 0; }
    template <class T, size_t N> const T& pick(const T (&a)[N]) { return a[draw(N)]; }
    template <class T> const T& pick(const std::vector<T>& a) { return a[draw(a.size())]; }
    // Length biased to small values and to boundaries; at most max.
    size_t len(size_t max);
    // Some byte string; kind of alphabet chosen by a draw.
    std::string bytes(size_t max);
    std::string bytesOver(const std::string& alphabet, size_t max);
    // Usually at most small; sometimes long, up to big.
    size_t longLen(size_t big);
    size_t scaleMax = 0; unsigned scaleLeft = 0;  // while scaleLeft, bytes2/bytesOver2/len2 often give hugeLen(scaleMax)
    bool huge() { if (!scaleLeft || draw(2)) return false; --scaleLeft; nontrivial(); return true; }
    size_t hugeLen(size_t max = 300000);  // mostly around and above the 16-bit sizes
    size_t crowd();                       // how many objects share: mostly around the 8-bit and 16-bit counts
    size_t len2(size_t small, size_t big);
    std::string bytes2(size_t small, size_t big);
    std::string bytesOver2(const std::string& alphabet, size_t small, size_t big) { return exactly(len2(small, big), alphabet); }
    std::string exactly(size_t n, const std::string& alphabet);
    uint64_t u64();  // boundary-biased 64-bit value

    void label(const char* l) {
      for (unsigned i = 0; i < nlabels; ++i) if (labels[i] == l) return;
      if (nlabels < 64) labels[nlabels++] = l;
    }
    void nontrivial() { nontriv = true; }
    bool tracing() const { return traceFd >= 0; }
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
};

typedef void (*PropFn)(Src&);

struct Property {
  const char* id;        // e.g. "C01" (or "C01.array")
  const char* name;
  PropFn fn;
  unsigned quick, thorough;  // number of cases
  bool forkPerCase;
  const char* rule;      // when a case counts as non-trivial
  unsigned cpuSeconds;   // CPU budget per case before it counts as a hang
};
std::vector<Property>& registry();
struct Reg { Reg(const Property& p) { registry().push_back(p); } };

std::string q(const std::string& s, size_t max = 80);  // printable form
std::string q(const char* p, size_t n);

const std::string& scratch();  // directory of this run; removed afterwards

int main_(int argc, char** argv);

// allocation tracking (operator new/delete are replaced, see alloc.cpp)
namespace mem {
  extern long liveBlocks();
  extern long liveBytes();
  typedef void (*AllocHook)(size_t n);
  typedef void (*FreeHook)(void* p, size_t n);
  extern thread_local AllocHook onAlloc;
  extern thread_local FreeHook onFree;
  extern thread_local long failAfter;      // that many allocations succeed, the next one throws bad_alloc; -1: none fails
  extern thread_local bool failSticky;     // and so do all later ones
  extern thread_local unsigned long failed;
  extern thread_local bool mirror;         // blocks above 1 GiB take no memory: see alloc.cpp
  extern thread_local size_t refuseAbove;  // larger requests throw bad_alloc and count as failed; 0: they fail the case
  extern thread_local unsigned long allocs, allocBytes;  // counted so far
  // table of live blocks (only blocks allocated while tracking is on)
  void track(bool on);
  const void* blockOf(const void* p);  // base of the live tracked block holding p (its end included), or null
  size_t blockSize(const void* base);
}
}  // namespace pbt

// the same property with up to Left of its texts or sizes of the order of Max
template <void (*F)(pbt::Src&), size_t Max, unsigned Left> static void scaled(pbt::Src& g) { g.scaleMax = Max; g.scaleLeft = Left; F(g); }

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(id, name, fn, quick, thorough, isolate, rule) \
  static ::pbt::Reg PBT_CAT(_reg_, __LINE__)(::pbt::Property{id, name, fn, quick, thorough, isolate, rule, 20})
#define REQUIRE(c, ...) do { if (!(c)) ::pbt::fail(__VA_ARGS__); } while (0)
// Something is left behind at the end of a case. It counts only if the same case leaves something behind every time it is
// repeated in the same process: what is made once and kept (a function's static variable) does not.
#define BALANCE(c, ...) do { if (!(c)) { try { ::pbt::fail(__VA_ARGS__); } catch (::pbt::Fail& f_) { f_.balance = true; throw; } } } while (0)
#endif
