// Included before everything in the schedule harness: std::atomic as the library sees it lets the harness's
// scheduler switch threads before and after every operation.
#ifndef HOOKATOMIC_H
#define HOOKATOMIC_H
#ifdef __cplusplus
#include <bits/stdc++.h>
namespace sched { extern void (*point)(); inline void yield() { if (point) point(); } }
namespace std {
template <class T> class hooked_atomic {
  std::atomic<T> a;
  struct Y { Y() { sched::yield(); } ~Y() { sched::yield(); } };
 public:
  typedef T value_type;
  hooked_atomic() noexcept = default;
  constexpr hooked_atomic(T v) noexcept : a(v) {}
  hooked_atomic(const hooked_atomic&) = delete;
  hooked_atomic& operator=(const hooked_atomic&) = delete;
  T operator=(T v) noexcept { Y y; return a = v; }
  operator T() const noexcept { Y y; return a.load(); }
  bool is_lock_free() const noexcept { return a.is_lock_free(); }
  T load(memory_order o = memory_order_seq_cst) const noexcept { Y y; return a.load(o); }
  void store(T v, memory_order o = memory_order_seq_cst) noexcept { Y y; a.store(v, o); }
  T exchange(T v, memory_order o = memory_order_seq_cst) noexcept { Y y; return a.exchange(v, o); }
  bool compare_exchange_weak(T& e, T d, memory_order o = memory_order_seq_cst) noexcept { Y y; return a.compare_exchange_weak(e, d, o); }
  bool compare_exchange_weak(T& e, T d, memory_order s, memory_order f) noexcept { Y y; return a.compare_exchange_weak(e, d, s, f); }
  bool compare_exchange_strong(T& e, T d, memory_order o = memory_order_seq_cst) noexcept { Y y; return a.compare_exchange_strong(e, d, o); }
  bool compare_exchange_strong(T& e, T d, memory_order s, memory_order f) noexcept { Y y; return a.compare_exchange_strong(e, d, s, f); }
  template <class D> T fetch_add(D v, memory_order o = memory_order_seq_cst) noexcept { Y y; return a.fetch_add(v, o); }
  template <class D> T fetch_sub(D v, memory_order o = memory_order_seq_cst) noexcept { Y y; return a.fetch_sub(v, o); }
  template <class D> T fetch_and(D v, memory_order o = memory_order_seq_cst) noexcept { Y y; return a.fetch_and(v, o); }
  template <class D> T fetch_or(D v, memory_order o = memory_order_seq_cst) noexcept { Y y; return a.fetch_or(v, o); }
  template <class D> T fetch_xor(D v, memory_order o = memory_order_seq_cst) noexcept { Y y; return a.fetch_xor(v, o); }
  static constexpr bool is_always_lock_free = true;
  T operator++() noexcept { Y y; return ++a; }
  T operator++(int) noexcept { Y y; return a++; }
  T operator--() noexcept { Y y; return --a; }
  T operator--(int) noexcept { Y y; return a--; }
  template <class D> T operator+=(D v) noexcept { Y y; return a += v; }
  template <class D> T operator-=(D v) noexcept { Y y; return a -= v; }
};
template <class T> T atomic_load(const hooked_atomic<T>* p) { return p->load(); }
template <class T> T atomic_load_explicit(const hooked_atomic<T>* p, memory_order o) { return p->load(o); }
template <class T, class D> void atomic_store(hooked_atomic<T>* p, D v) { p->store(v); }
template <class T, class D> void atomic_store_explicit(hooked_atomic<T>* p, D v, memory_order o) { p->store(v, o); }
template <class T, class D> void atomic_init(hooked_atomic<T>* p, D v) { p->store(v, memory_order_relaxed); }
template <class T, class D> T atomic_exchange(hooked_atomic<T>* p, D v) { return p->exchange(v); }
template <class T, class D> bool atomic_compare_exchange_strong(hooked_atomic<T>* p, T* e, D v) { return p->compare_exchange_strong(*e, v); }
template <class T, class D> bool atomic_compare_exchange_weak(hooked_atomic<T>* p, T* e, D v) { return p->compare_exchange_weak(*e, v); }
template <class T, class D> T atomic_fetch_add(hooked_atomic<T>* p, D v) { return p->fetch_add(v); }
template <class T, class D> T atomic_fetch_sub(hooked_atomic<T>* p, D v) { return p->fetch_sub(v); }
template <class T, class D> T atomic_fetch_add_explicit(hooked_atomic<T>* p, D v, memory_order o) { return p->fetch_add(v, o); }
template <class T, class D> T atomic_fetch_sub_explicit(hooked_atomic<T>* p, D v, memory_order o) { return p->fetch_sub(v, o); }
}
#if !defined(SCHED_REAL_THREADS) && !defined(SCHED_PLAIN_ATOMIC)
#define atomic hooked_atomic
#define atomic_int hooked_atomic<int>
#define atomic_uint hooked_atomic<unsigned>
#define atomic_long hooked_atomic<long>
#define atomic_size_t hooked_atomic<size_t>
#define atomic_bool hooked_atomic<bool>
#endif
#endif
#endif
