// Replaced operator new/delete: counting, poisoning and hooks. malloc underneath, so ASan redzones stay exact.
#include "pbt.h"
#include <cstdlib>
#include <new>
#include <atomic>
#include <malloc.h>
#include <sys/mman.h>
#include <unistd.h>
namespace pbt { namespace mem {
static std::atomic<long> g_blocks{0}, g_bytes{0};
long liveBlocks() { return g_blocks.load(std::memory_order_relaxed); }
long liveBytes() { return g_bytes.load(std::memory_order_relaxed); }
thread_local AllocHook onAlloc = nullptr;
thread_local FreeHook onFree = nullptr;
thread_local long failAfter = -1;
thread_local bool failSticky = false;
thread_local size_t refuseAbove = 0;
thread_local unsigned long failed = 0;
thread_local unsigned long allocs = 0, allocBytes = 0;
static const unsigned TAB = 1 << 14;
static struct { char* p; size_t n; } tab[TAB];
static unsigned ntab = 0;
static bool tracking = false;
void track(bool on) { tracking = on; ntab = 0; }
const void* blockOf(const void* q) {
  const char* c = static_cast<const char*>(q);
  for (unsigned i = 0; i < ntab; ++i) if (tab[i].p && c >= tab[i].p && c <= tab[i].p + tab[i].n) return tab[i].p;
  return nullptr;
}
size_t blockSize(const void* b) { for (unsigned i = 0; i < ntab; ++i) if (tab[i].p == b) return tab[i].n; return 0; }
static void add(void* p, size_t n) {
  for (unsigned i = 0; i < ntab; ++i) if (!tab[i].p) { tab[i].p = (char*)p; tab[i].n = n; return; }
  if (ntab < TAB) { tab[ntab].p = (char*)p; tab[ntab].n = n; ++ntab; }
}
static void del(void* p) { for (unsigned i = 0; i < ntab; ++i) if (tab[i].p == p) { tab[i].p = nullptr; return; } }
// Blocks of gigabytes, for lengths that do not fit 31 bits: address space backed by one page range, mapped again and again,
// so that the whole block can be written (a String erases its text) without using memory. Bytes one RANGE apart are the same byte.
thread_local bool mirror = false;
static const size_t RANGE = size_t(3) << 20, MIRROR_ABOVE = size_t(1) << 30;
static struct { char* p; size_t n; } mir[8];
static void* mirrored(size_t n) {
  unsigned k = 0;
  while (k < 8 && mir[k].p) ++k;
  if (k == 8) throw std::bad_alloc();
  size_t len = (n + RANGE - 1) / RANGE * RANGE;
  int fd = memfd_create("mirror", 0);
  if (fd < 0) throw std::bad_alloc();
  void* base = ftruncate(fd, RANGE) ? MAP_FAILED : mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  bool ok = base != MAP_FAILED;
  for (size_t o = 0; ok && o < len; o += RANGE) ok = mmap(static_cast<char*>(base) + o, RANGE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED;
  close(fd);
  if (!ok) { if (base != MAP_FAILED) munmap(base, len); throw std::bad_alloc(); }
  mir[k].p = static_cast<char*>(base); mir[k].n = len;
  return base;
}
static bool unmirror(void* p) {
  for (auto& m : mir) if (m.p && m.p == p) { munmap(m.p, m.n); m.p = nullptr; return true; }
  return false;
}
static void* doNew(size_t n) {
  ++allocs; allocBytes += n;
  if (failAfter >= 0) {
    if (failAfter == 0) { if (!failSticky) failAfter = -1; ++failed; throw std::bad_alloc(); }
    --failAfter;
  }
  if (refuseAbove && n > refuseAbove) { ++failed; throw std::bad_alloc(); }
  if (mirror && n > MIRROR_ABOVE) return mirrored(n);
  if (n > (size_t(1) << 31)) pbt::fail("allocation of %zu bytes requested", n);
  void* p = ::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  size_t u = malloc_usable_size(p);
  g_blocks.fetch_add(1, std::memory_order_relaxed);
  g_bytes.fetch_add((long)u, std::memory_order_relaxed);
  memset(p, 0xA5, n < 65536 ? n : 65536);
  if (tracking) add(p, n);
  if (onAlloc) { AllocHook h = onAlloc; onAlloc = nullptr; h(n); if (!onAlloc) onAlloc = h; }
  return p;
}
static void doDelete(void* p) {
  if (!p) return;
  if (unmirror(p)) return;
  size_t u = malloc_usable_size(p);
  if (tracking) del(p);
  if (onFree) { FreeHook h = onFree; onFree = nullptr; h(p, u); if (!onFree) onFree = h; }
  g_blocks.fetch_sub(1, std::memory_order_relaxed);
  g_bytes.fetch_sub((long)u, std::memory_order_relaxed);
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_ASAN)
  memset(p, 0xDD, u < 65536 ? u : 65536);
  __asm__ volatile("" : : "r"(p) : "memory");
#endif
  ::free(p);
}
}}
#ifndef SCHED_REAL_THREADS  // ThreadSanitizer has its own
void* operator new(size_t n) { return pbt::mem::doNew(n); }
void* operator new[](size_t n) { return pbt::mem::doNew(n); }
void operator delete(void* p) noexcept { pbt::mem::doDelete(p); }
void operator delete[](void* p) noexcept { pbt::mem::doDelete(p); }
void operator delete(void* p, size_t) noexcept { pbt::mem::doDelete(p); }
void operator delete[](void* p, size_t) noexcept { pbt::mem::doDelete(p); }
#endif
