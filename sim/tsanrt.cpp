// Entry points of the -fsanitize=thread instrumentation (own runtime: no libtsan) and the simulated heap.
// Compiled WITHOUT -fsanitize=thread.
#include "core.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {

// ------------------------------------------------------------------ heap
// Bump allocator at a fixed address, private to each simulated process (copied by fork). Memory is never
// reused within a run: freed blocks stay poisoned.
static char * const HEAP = (char *) 0x200000000000ull;
static const size_t HEAPSZ = 512u << 20;
static unsigned char * const SHADOW = (unsigned char *) 0x210000000000ull; // 1 byte per 8
static size_t g_used = 0;
static bool g_heapReady = false;

struct Hdr { uint64_t size; uint64_t magic; };
static const uint64_t HMAGIC = 0x48E4D00DB10C5AFEull;

void heapInit() {
  if (mmap(HEAP, HEAPSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *) HEAP) { perror("heap"); _exit(3); }
  if (mmap(SHADOW, HEAPSZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *) SHADOW) { perror("shadow"); _exit(3); }
  g_heapReady = true;
}

static inline bool inHeap(const void * p) { return (uint64_t) ((const char *) p - HEAP) < HEAPSZ; }

static void * simAlloc(size_t n, size_t align) {
  if (align < 16) align = 16;
  size_t off = g_used + 16 + sizeof(Hdr);
  off = (off + align - 1) & ~(align - 1);
  size_t end = off + ((n + 7) & ~size_t(7)) + 16;
  if (end > HEAPSZ) invalid("simulated heap exhausted (%zu bytes asked)", n);
  g_used = (end + 15) & ~size_t(15);
  Hdr * h = (Hdr *) (HEAP + off - sizeof(Hdr));
  h->size = n; h->magic = HMAGIC;
  memset(SHADOW + (off - sizeof(Hdr)) / 8, 0xFA, sizeof(Hdr) / 8);
  memset(SHADOW + off / 8, 0, n / 8);
  size_t t = off / 8 + n / 8;
  if (n & 7) SHADOW[t++] = (unsigned char) (n & 7);
  while (t < g_used / 8) SHADOW[t++] = 0xFA;
  if (S->dirty) memset(HEAP + off, S->dirty, n);
  return HEAP + off;
}

static void simFree(void * p) {
  Hdr * h = (Hdr *) ((char *) p - sizeof(Hdr));
  if (h->magic != HMAGIC) {
    if (g_active && tl_me >= 0) fail("memory-error", h->magic == ~HMAGIC ? "a heap block is freed twice" : "an address that is not a heap block is freed");
    return;
  }
  h->magic = ~HMAGIC;
  size_t n = h->size;
  memset(p, 0xDD, n);
  memset(SHADOW + (size_t) ((char *) p - HEAP) / 8, 0xFD, (n + 7) / 8);
}

static void heapBad(const void * p, size_t n, bool write, unsigned char s) {
  fail("memory-error", "%s of %zu bytes %s", write ? "write" : "read", n, s == 0xFD ? "in a heap block that was already freed" : "outside of the bounds of a heap block");
}

static inline void heapCheck(const void * p, size_t n, bool write) {
  size_t off = (size_t) ((const char *) p - HEAP);
  if (__builtin_expect(off >= HEAPSZ, 1)) return;
  size_t a = off / 8, b = (off + n - 1) / 8;
  for (size_t i = a; i <= b; ++i) {
    unsigned char s = SHADOW[i];
    if (__builtin_expect(s == 0, 1)) continue;
    if (s >= 8) { heapBad(p, n, write, s); return; }
    size_t last = i == b ? (off + n - 1) & 7 : 7;
    if (last >= s) { heapBad(p, n, write, s); return; }
  }
}
void heapAccess(const void * p, size_t n, bool write) { if (n && g_active && tl_me >= 0) heapCheck(p, n, write); }

static inline void access(const void * p, size_t n, bool write) {
  if (!g_active || tl_quiet || tl_me < 0) return;
  heapCheck(p, n, write);
  Task & t = S->T[tl_me];
  if (__builtin_expect(++t.steps >= t.nextStop, 0)) { --t.steps; memStop(); }
}

static void * newImpl(size_t n, size_t al, bool nothrow) {
  if (!g_active || tl_me < 0 || tl_quiet) {
    void * p = al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1)) : malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
  }
  if (tl_allocFault > 0 && tl_quiet == 0) {
    if (fault(F_BADALLOC, tl_allocFault)) { note("allocation of %zu bytes fails", n); if (nothrow) return nullptr; throw std::bad_alloc(); }
  }
  if (n > (32u << 20)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  return simAlloc(n, al);
}
static void delImpl(void * p) {
  if (!p) return;
  if (inHeap(p)) simFree(p); else free(p);
}

} // namespace sim

using namespace sim;

void * operator new(size_t n) { return newImpl(n, 16, false); }
void * operator new[](size_t n) { return newImpl(n, 16, false); }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return newImpl(n, 16, true); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return newImpl(n, 16, true); }
void * operator new(size_t n, std::align_val_t a) { return newImpl(n, (size_t) a, false); }
void * operator new[](size_t n, std::align_val_t a) { return newImpl(n, (size_t) a, false); }
void * operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return newImpl(n, (size_t) a, true); }
void * operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return newImpl(n, (size_t) a, true); }
void operator delete(void * p) noexcept { delImpl(p); }
void operator delete[](void * p) noexcept { delImpl(p); }
void operator delete(void * p, size_t) noexcept { delImpl(p); }
void operator delete[](void * p, size_t) noexcept { delImpl(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { delImpl(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { delImpl(p); }
void operator delete(void * p, std::align_val_t) noexcept { delImpl(p); }
void operator delete[](void * p, std::align_val_t) noexcept { delImpl(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { delImpl(p); }
void operator delete[](void * p, size_t, std::align_val_t) noexcept { delImpl(p); }
void operator delete(void * p, std::align_val_t, const std::nothrow_t &) noexcept { delImpl(p); }
void operator delete[](void * p, std::align_val_t, const std::nothrow_t &) noexcept { delImpl(p); }

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void * p) { access(p, n, false); } \
  void __tsan_write##n(void * p) { access(p, n, true); } \
  void __tsan_unaligned_read##n(void * p) { access(p, n, false); } \
  void __tsan_unaligned_write##n(void * p) { access(p, n, true); } \
  void __tsan_volatile_read##n(void * p) { access(p, n, false); } \
  void __tsan_volatile_write##n(void * p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, size_t n) { if (n) access(p, n, false); }
void __tsan_write_range(void * p, size_t n) { if (n) access(p, n, true); }
void __tsan_vptr_update(void ** p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void ** p) { access(p, 8, false); }

static inline void atomicPoint() { if (on()) { ev(50, 0); schedule(K_SYNC, true); } }
static inline bool simOn() { return g_active && tl_me >= 0; }

#define ATOMICS(n, T) \
T __tsan_atomic##n##_load(const volatile T * a, int mo) { \
  if (simOn()) { heapAccess((const void *) a, sizeof(T), false); atomicPoint(); atomicAcq(a, mo); } return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##n##_store(volatile T * a, T v, int mo) { \
  if (simOn()) { heapAccess((const void *) a, sizeof(T), true); atomicPoint(); atomicRel(a, mo, false); } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_exchange(volatile T * a, T v, int mo) { \
  if (simOn()) { heapAccess((const void *) a, sizeof(T), true); atomicPoint(); atomicAcq(a, mo); atomicRel(a, mo, true); } return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
static inline T cas##n(volatile T * a, T c, T v, int mo, int fmo, bool & ok) { \
  if (simOn()) { heapAccess((const void *) a, sizeof(T), true); atomicPoint(); \
    if (*a == c) { atomicAcq(a, mo); atomicRel(a, mo, true); } else atomicAcq(a, fmo); } \
  ok = __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T * a, T * c, T v, int mo, int fmo) { bool ok; T r = cas##n(a, *c, v, mo, fmo, ok); if (!ok) *c = r; return ok; } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T * a, T * c, T v, int mo, int fmo) { \
  if (on() && choose(2, 0.05)) { *c = __atomic_load_n(a, __ATOMIC_SEQ_CST); return 0; } \
  bool ok; T r = cas##n(a, *c, v, mo, fmo, ok); if (!ok) *c = r; return ok; } \
T __tsan_atomic##n##_compare_exchange_val(volatile T * a, T c, T v, int mo, int fmo) { bool ok; return cas##n(a, c, v, mo, fmo, ok); }
#define FETCH(n, T, op) \
T __tsan_atomic##n##_fetch_##op(volatile T * a, T v, int mo) { \
  if (simOn()) { heapAccess((const void *) a, sizeof(T), true); atomicPoint(); atomicAcq(a, mo); atomicRel(a, mo, true); } return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST); }
#define ALL(n, T) ATOMICS(n, T) FETCH(n, T, add) FETCH(n, T, sub) FETCH(n, T, and) FETCH(n, T, or) FETCH(n, T, xor) FETCH(n, T, nand)
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)

void __tsan_atomic_thread_fence(int mo) { if (simOn()) { atomicPoint(); fence(mo); } __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

}
