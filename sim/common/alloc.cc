// Deterministic allocator: every heap address and the content of fresh memory is
// a function of the plan.  It replaces malloc for the whole process.
#include <errno.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>

#include "common/core.hh"

namespace {
typedef sim::u64 u64;
const uintptr_t BASE = 0x100000000000ULL;
const size_t ARENA = 24ULL << 30;
const u64 LIVE = 0x51ab1e5eed11feedULL, DEAD = 0xdeadb10cdeadb10cULL;
const size_t RED = 16;  // red zone after each block

struct Head {      // 32 bytes before the user pointer
  u64 magic;
  u64 size;        // user size
  u64 cls;         // capacity class index, and the byte of the red zone in the second byte
  u64 off;         // distance from start of the chunk to the user pointer
};
struct FreeNode { FreeNode* next; };

const int NSMALL = 128;             // 16 .. 2048 by 16
const int NCLS = NSMALL + 64;
FreeNode* freeHead[NCLS];
FreeNode* freeTail[NCLS];
u64 freeCount[NCLS];
uintptr_t brk_ = 0, end_ = 0, minChunk = 0;  // blocks below minChunk belong to an earlier region and are never reused
u64 layoutRng = 0;
bool shuffle = false;
int fillMode = 0;
unsigned char redByte = 0xa7;
u64 fillRng = 88172645463325252ULL;
long failAt = 0, failFired = 0;
u64 nAlloc = 0;
volatile int lock_ = 0;
// start-of-block bitmap for liveness queries (1 bit per 16 bytes), lazily mapped
unsigned char* startMap = nullptr;

void lock() { while (__sync_lock_test_and_set(&lock_, 1)) {} }
void unlock() { __sync_lock_release(&lock_); }

void die(const char* m) {
  ssize_t r = write(2, m, strlen(m));
  (void)r;
  if (sim::trace) strncpy(sim::trace->died, m, sizeof sim::trace->died - 1);
  abort();
}
void init() {
  void* p = mmap((void*)BASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED || p != (void*)BASE) {
    const char* m = "sim: cannot map the arena\n";
    ssize_t r = write(2, m, strlen(m)); (void)r;
    _exit(3);
  }
  void* q = mmap(nullptr, ARENA / 128, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  startMap = (unsigned char*)q;
  brk_ = BASE + 4096;
  end_ = BASE + ARENA;
}
int classOf(size_t n, size_t& cap) {
  if (n == 0) n = 1;
  if (n <= NSMALL * 16) {
    int c = (int)((n + 15) / 16) - 1;
    cap = (size_t)(c + 1) * 16;
    return c;
  }
  // 2 classes per power of two above 2048
  size_t p = 2048;
  int c = NSMALL;
  while (true) {
    if (n <= p + p / 2) { cap = p + p / 2; return c; }
    if (n <= 2 * p) { cap = 2 * p; return c + 1; }
    p *= 2; c += 2;
    if (c >= NCLS - 2) die("sim: allocation too large\n");
  }
}
void fillBytes(void* ptr, size_t n) {
  u64* w = (u64*)ptr;
  size_t k = n / 8;
  u64 v = 0;
  switch (fillMode) {
    case 0: memset(ptr, 0, n); return;
    case 1: memset(ptr, 0xff, n); return;
    case 2: v = 0x7ff8dead00000000ULL; break;
    case 3:
      for (size_t i = 0; i < k; ++i) { fillRng ^= fillRng << 13; fillRng ^= fillRng >> 7; fillRng ^= fillRng << 17; w[i] = fillRng; }
      memset((char*)ptr + 8 * k, 0x5a, n - 8 * k);
      return;
    case 4: v = 0x3fd3333333333333ULL; break;  // 0.3
    default: v = 0x7e37e43c8800759cULL; break;  // 1e300
  }
  for (size_t i = 0; i < k; ++i) w[i] = v;
  memset((char*)ptr + 8 * k, 0x3f, n - 8 * k);
}
inline void setStart(uintptr_t p, bool on) {
  size_t i = (p - BASE) / 16;
  if (on) startMap[i >> 3] |= (unsigned char)(1 << (i & 7));
  else startMap[i >> 3] &= (unsigned char)~(1 << (i & 7));
}
u64 lrand() { layoutRng ^= layoutRng << 13; layoutRng ^= layoutRng >> 7; layoutRng ^= layoutRng << 17; return layoutRng; }

void* allocate(size_t n, size_t align, bool zero) {
  if (n > (size_t)1 << 40) { errno = ENOMEM; return nullptr; }
  lock();
  if (!brk_) init();
  ++nAlloc;
  if (failAt > 0 && --failAt == 0) { ++failFired; unlock(); errno = ENOMEM; return nullptr; }
  size_t extra = align > 16 ? align : 0;
  size_t cap;
  int c = classOf(n + RED + extra, cap);
  uintptr_t chunk = 0;
  // released blocks wait until enough of the same class are free, so that a stale
  // pointer keeps pointing to poisoned memory for a while
  u64 need = (shuffle || fillMode) ? 8 : 1;
  if (freeCount[c] >= need) {
    // shuffle: take one of the first few of the list
    u64 skip = shuffle ? lrand() % (freeCount[c] < 4 ? freeCount[c] : 4) : 0;
    FreeNode* prev = nullptr; FreeNode* f = freeHead[c];
    while (skip--) { prev = f; f = f->next; }
    if (prev) prev->next = f->next; else freeHead[c] = f->next;
    if (freeTail[c] == f) freeTail[c] = prev;
    --freeCount[c];
    chunk = (uintptr_t)f;
  } else {
    uintptr_t pad = shuffle ? 16 * (lrand() % 9) : 0;
    if (brk_ + pad + 32 + cap > end_) die("sim: arena exhausted\n");
    chunk = brk_ + pad;
    brk_ = chunk + 32 + cap;
  }
  uintptr_t user = chunk + 32;
  if (extra) user = (user + align - 1) & ~(uintptr_t)(align - 1);
  Head* h = (Head*)(user - 32);
  h->magic = LIVE; h->size = n; h->cls = (u64)c | ((u64)redByte << 16); h->off = user - chunk;
  setStart(user, true);
  if (zero) memset((void*)user, 0, n);
  else if (fillMode) fillBytes((void*)user, n);
  memset((void*)(user + n), redByte, RED);
  unlock();
  if (sim::mem::onAlloc) sim::mem::onAlloc((void*)user, n);
  return (void*)user;
}
bool redOk(Head* h, uintptr_t user) {
  for (size_t i = 0; i < RED; ++i) if (((unsigned char*)user)[h->size + i] != (unsigned char)(h->cls >> 16)) return false;
  return true;
}
void release(void* p) {
  if (!p) return;
  uintptr_t user = (uintptr_t)p;
  if (user < BASE || user >= BASE + ARENA) return;  // not ours (loader)
  Head* h = (Head*)(user - 32);
  if (h->magic != LIVE) die(h->magic == DEAD ? "sim heap: block released twice\n" : "sim heap: release of an invalid pointer\n");
  if (!redOk(h, user)) die("sim heap: write past the end of a block\n");
  if (sim::mem::onFree) sim::mem::onFree(p, h->size);
  lock();
  setStart(user, false);
  uintptr_t chunk = user - h->off;
  int c = (int)(h->cls & 0xffff);
  h->magic = DEAD;
  if (fillMode) fillBytes(p, h->size);
  FreeNode* f = (FreeNode*)chunk;  // overlays the head when the block is not over-aligned
  f->next = nullptr;
  if (chunk < minChunk) { unlock(); return; }
  if (freeTail[c]) freeTail[c]->next = f; else freeHead[c] = f;
  freeTail[c] = f;
  ++freeCount[c];
  unlock();
}
}  // namespace

namespace sim {
namespace mem {
void (*onAlloc)(void*, size_t) = nullptr;
void (*onFree)(void*, size_t) = nullptr;
void region(int k) {
  lock();
  if (!brk_) init();
  brk_ = BASE + ((uintptr_t)k << 32) + 4096;
  minChunk = brk_;
  memset(freeHead, 0, sizeof freeHead);
  memset(freeTail, 0, sizeof freeTail);
  memset(freeCount, 0, sizeof freeCount);
  unlock();
}
void configure(u64 seed, int fill) {
  lock();
  shuffle = seed != 0;
  layoutRng = mix(seed) | 1;
  fillRng = mix(seed + 77) | 1;
  fillMode = fill;
  static const unsigned char red[6] = {0xa7, 0xff, 0x7f, 0x3f, 0xc1, 0x5c};
  redByte = red[fill % 6];
  unlock();
}
int fill() { return fillMode; }
void fillPattern(void* p, size_t n) { fillBytes(p, n); }
void armFailure(long n) { lock(); failAt = n; failFired = 0; unlock(); }
long disarmFailure() { lock(); long r = failFired; failAt = 0; failFired = 0; unlock(); return r; }
long swapFailure(long n) { long r = failAt; failAt = n; return r; }
bool locked() { return lock_ != 0; }
u64 allocations() { return nAlloc; }
int live(const void* p, size_t n) {
  uintptr_t a = (uintptr_t)p;
  if (a < BASE || a >= BASE + ARENA) return -1;
  // nearest block start at or before a (bounded search)
  if (!startMap) return 0;
  size_t i = (a - BASE) / 16;
  while (true) {
    unsigned m = startMap[i >> 3] & ((2u << (i & 7)) - 1);  // starts at or before i in this byte
    if (m) {
      int k = 31 - __builtin_clz(m);
      uintptr_t user = BASE + (((i & ~(size_t)7) + (size_t)k) * 16);
      Head* h = (Head*)(user - 32);
      return a + n <= user + h->size ? 1 : 0;
    }
    if (i < 8) return 0;
    i = (i & ~(size_t)7) - 1;
    // skip long empty stretches
    while (i >= 64 && !*(u64*)(startMap + ((i >> 3) & ~(size_t)7))) i = ((i >> 3) & ~(size_t)7) * 8 - 1;
  }
}
const void* checkHeap() {
  lock();
  const void* bad = nullptr;
  size_t nbytes = (brk_ - BASE) / 128 + 1;
  for (size_t b = (minChunk - BASE) / 128; b < nbytes && !bad; ++b) {
    unsigned char m = startMap[b];
    for (int k = 0; m && k < 8; ++k)
      if (m & (1 << k)) {
        uintptr_t user = BASE + ((b * 8 + (size_t)k) * 16);
        if (!redOk((Head*)(user - 32), user)) { bad = (void*)user; break; }
      }
  }
  unlock();
  return bad;
}
}  // namespace mem
}  // namespace sim

extern "C" {
void* malloc(size_t n) { return allocate(n, 16, false); }
void free(void* p) { release(p); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return allocate(n, 16, true);
}
void* realloc(void* p, size_t n) {
  if (!p) return allocate(n, 16, false);
  if (!n) { release(p); return nullptr; }
  uintptr_t user = (uintptr_t)p;
  if (user < BASE || user >= BASE + ARENA) {
    void* q = allocate(n, 16, false);
    if (q) memcpy(q, p, n);
    return q;
  }
  Head* h = (Head*)(user - 32);
  if (h->magic != LIVE) die("sim heap: realloc of an invalid pointer\n");
  void* q = allocate(n, 16, false);
  if (!q) return nullptr;
  memcpy(q, p, n < h->size ? n : h->size);
  release(p);
  return q;
}
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = allocate(n, al < 16 ? 16 : al, false);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
void* aligned_alloc(size_t al, size_t n) { return allocate(n, al < 16 ? 16 : al, false); }
void* memalign(size_t al, size_t n) { return allocate(n, al < 16 ? 16 : al, false); }
void* valloc(size_t n) { return allocate(n, 4096, false); }
void* pvalloc(size_t n) { return allocate((n + 4095) & ~(size_t)4095, 4096, false); }
size_t malloc_usable_size(void* p) {
  if (!p) return 0;
  Head* h = (Head*)((uintptr_t)p - 32);
  return h->magic == LIVE ? h->size : 0;
}
}
