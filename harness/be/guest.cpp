// The part of the big-endian machine's program that is not the library: an
// entry point that performs one call of the public interface, and just enough
// of a run-time (no operating system, one thread, no exceptions).
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>
#include <string>
#include <string_view>
#include "idna.h"

template class std::basic_string<char>;
template class std::basic_string<char32_t>;

extern "C" {
struct Block {  // also known to machine.cpp
  uint32_t op, in, in_n, st, st_n, out, out_n, ret;
};
Block g_block;

static std::string* s8;
static std::u32string* s32;

void g_call() {
  using namespace ada::idna;
  Block& b = g_block;
  if (!s8) { s8 = new std::string; s32 = new std::u32string; }
  std::string_view in((const char*)b.in, b.in_n);
  std::u32string_view in32((const char32_t*)b.in, b.in_n);
  std::string o8;
  std::u32string o32;
  bool wide = b.op == 8 || b.op == 11 || b.op == 12;
  if (wide) o32.assign((const char32_t*)b.st, b.st_n);
  else if (b.op != 18 && b.op != 20) o8.assign((const char*)b.st, b.st_n);
  b.ret = 0;
  switch (b.op) {
    case 1: o8 = to_ascii(in); break;
    case 2: b.ret = to_ascii(in, o8); break;
    case 3: o8 = to_unicode(in); break;
    case 4: b.ret = to_unicode(in, o8); break;
    case 5: b.ret = contains_forbidden_domain_code_point(in); break;
    case 7: o32 = map(in32); wide = true; break;
    case 8: b.ret = map(in32, o32); break;
    case 9: ascii_map((char*)b.in, b.in_n); break;
    case 10: b.ret = is_already_nfc(in32); break;
    case 11: b.ret = normalize(o32); break;
    case 12: b.ret = punycode_to_utf32(in, o32); break;
    case 13: b.ret = verify_punycode(in); break;
    case 14: b.ret = utf32_to_punycode(in32, o8); break;
    case 15: b.ret = is_label_valid(in32); break;
    case 16: b.ret = valid_name_code_point((char32_t)b.in, b.in_n != 0); break;
    case 17: b.ret = (uint32_t)utf32_length_from_utf8((const char*)b.in, b.in_n); break;
    case 18: b.ret = (uint32_t)utf8_to_utf32((const char*)b.in, b.in_n, (char32_t*)b.st); break;
    case 19: b.ret = (uint32_t)utf8_length_from_utf32((const char32_t*)b.in, b.in_n); break;
    case 20: b.ret = (uint32_t)utf32_to_utf8((const char32_t*)b.in, b.in_n, (char*)b.st); break;
    default: __builtin_trap();
  }
  if (wide) {
    *s32 = static_cast<std::u32string&&>(o32);
    b.out = (uint32_t)(uintptr_t)s32->data();
    b.out_n = s32->size();
  } else {
    *s8 = static_cast<std::string&&>(o8);
    b.out = (uint32_t)(uintptr_t)s8->data();
    b.out_n = s8->size();
  }
}

// ---------------------------------------------------------------- run-time
void abort() noexcept { for (;;) __builtin_trap(); }
void __assert_fail(const char*, const char*, unsigned, const char*) noexcept { abort(); }
void __cxa_pure_virtual() { abort(); }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int atexit(void (*)(void)) noexcept { return 0; }
void* __dso_handle = nullptr;
int __cxa_guard_acquire(uint64_t* g) { return *(volatile char*)g == 0; }
void __cxa_guard_release(uint64_t* g) { *(volatile char*)g = 1; }
void __cxa_guard_abort(uint64_t*) {}

#define NOBUILTIN __attribute__((no_builtin))
NOBUILTIN void* memcpy(void* d, const void* s, size_t n) noexcept {
  for (size_t i = 0; i < n; i++) ((char*)d)[i] = ((const char*)s)[i];
  return d;
}
NOBUILTIN void* memmove(void* d, const void* s, size_t n) noexcept {
  if ((uintptr_t)d <= (uintptr_t)s) for (size_t i = 0; i < n; i++) ((char*)d)[i] = ((const char*)s)[i];
  else while (n--) ((char*)d)[n] = ((const char*)s)[n];
  return d;
}
NOBUILTIN void* memset(void* d, int c, size_t n) noexcept {
  for (size_t i = 0; i < n; i++) ((char*)d)[i] = (char)c;
  return d;
}
NOBUILTIN int memcmp(const void* a, const void* b, size_t n) noexcept {
  for (size_t i = 0; i < n; i++) {
    int d = ((const unsigned char*)a)[i] - ((const unsigned char*)b)[i];
    if (d) return d;
  }
  return 0;
}
NOBUILTIN static void* find_(const void* s, int c, size_t n) noexcept {
  for (size_t i = 0; i < n; i++) if (((const unsigned char*)s)[i] == (unsigned char)c) return (char*)s + i;
  return nullptr;
}
void* memchr_(const void* s, int c, size_t n) noexcept __asm__("memchr");
void* memchr_(const void* s, int c, size_t n) noexcept { return find_(s, c, n); }
NOBUILTIN int bcmp(const void* a, const void* b, size_t n) noexcept { return memcmp(a, b, n); }
NOBUILTIN size_t strlen(const char* s) noexcept { size_t n = 0; while (s[n]) n++; return n; }
NOBUILTIN int strcmp(const char* a, const char* b) noexcept {
  while (*a && *a == *b) { a++; b++; }
  return (unsigned char)*a - (unsigned char)*b;
}
NOBUILTIN int strncmp(const char* a, const char* b, size_t n) noexcept {
  for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; }
  return 0;
}

// power-of-two size classes, never given back to the machine; blocks are filled
// with rubbish when handed out and when taken back
extern char g_heap[], g_heap_end[];
static char* brk_;
struct Free { Free* next; };
static Free* bins[32];
void* malloc(size_t n) noexcept {
  int k = 4;
  while (k < 31 && ((size_t)1 << k) < n + 8) k++;
  if (k >= 27) return nullptr;
  char* p;
  if (bins[k]) { p = (char*)bins[k]; bins[k] = bins[k]->next; }
  else {
    if (!brk_) brk_ = g_heap;
    if ((size_t)(g_heap_end - brk_) < ((size_t)1 << k)) return nullptr;
    p = brk_;
    brk_ += (size_t)1 << k;
  }
  *(uint32_t*)p = k;
  __builtin_memset(p + 8, 0xA5, n);
  return p + 8;
}
void free(void* q) noexcept {
  if (!q) return;
  char* p = (char*)q - 8;
  uint32_t k = *(uint32_t*)p;
  if (k < 4 || k > 27) abort();
  __builtin_memset(q, 0xDD, ((size_t)1 << k) - 8);
  ((Free*)p)->next = bins[k];
  bins[k] = (Free*)p;
}
void* calloc(size_t a, size_t b) noexcept { void* p = malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void* realloc(void* q, size_t n) noexcept {
  void* p = malloc(n);
  if (p && q) { uint32_t k = *(uint32_t*)((char*)q - 8); size_t m = ((size_t)1 << k) - 8; memcpy(p, q, m < n ? m : n); free(q); }
  return p;
}
int posix_memalign(void** r, size_t, size_t n) noexcept { *r = malloc(n); return *r ? 0 : 12; }

// 64-bit arithmetic and atomics the compiler calls for on a 32-bit machine
uint64_t __udivmod64(uint64_t a, uint64_t b, uint64_t* r) {
  uint64_t q = 0, m = 0;
  for (int i = 63; i >= 0; i--) {
    m = (m << 1) | ((a >> i) & 1);
    q <<= 1;
    if (m >= b) { m -= b; q |= 1; }
  }
  *r = m;
  return q;
}
uint64_t __udivdi3(uint64_t a, uint64_t b) { uint64_t r; return __udivmod64(a, b, &r); }
uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; __udivmod64(a, b, &r); return r; }
int64_t __divdi3(int64_t a, int64_t b) { uint64_t r, q = __udivmod64(a < 0 ? -(uint64_t)a : a, b < 0 ? -(uint64_t)b : b, &r); return (a < 0) != (b < 0) ? -q : q; }
int64_t __moddi3(int64_t a, int64_t b) { uint64_t r; __udivmod64(a < 0 ? -(uint64_t)a : a, b < 0 ? -(uint64_t)b : b, &r); return a < 0 ? -r : r; }
uint64_t __ashldi3(uint64_t a, int n) {
  uint32_t h = (uint32_t)(a >> 32), l = (uint32_t)a;
  n &= 63;
  if (n >= 32) { h = l << (n - 32); l = 0; }
  else if (n) { h = (h << n) | (l >> (32 - n)); l <<= n; }
  return (uint64_t)h << 32 | l;
}
uint64_t __lshrdi3(uint64_t a, int n) {
  uint32_t h = (uint32_t)(a >> 32), l = (uint32_t)a;
  n &= 63;
  if (n >= 32) { l = h >> (n - 32); h = 0; }
  else if (n) { l = (l >> n) | (h << (32 - n)); h >>= n; }
  return (uint64_t)h << 32 | l;
}
int64_t __ashrdi3(int64_t a, int n) {
  int32_t h = (int32_t)(a >> 32);
  uint32_t l = (uint32_t)a;
  n &= 63;
  if (n >= 32) { l = (uint32_t)(h >> (n - 32)); h >>= 31; }
  else if (n) { l = (l >> n) | ((uint32_t)h << (32 - n)); h >>= n; }
  return (int64_t)((uint64_t)(uint32_t)h << 32 | l);
}
int __popcountsi2(uint32_t x) { int n = 0; while (x) { x &= x - 1; n++; } return n; }
int __popcountdi2(uint64_t x) { return __popcountsi2((uint32_t)x) + __popcountsi2((uint32_t)(x >> 32)); }
uint64_t __atomic_load_8(const volatile void* p, int) { return *(const volatile uint64_t*)p; }
void __atomic_store_8(volatile void* p, uint64_t v, int) { *(volatile uint64_t*)p = v; }
uint64_t __atomic_exchange_8(volatile void* p, uint64_t v, int) { uint64_t o = *(volatile uint64_t*)p; *(volatile uint64_t*)p = v; return o; }
uint64_t __atomic_fetch_add_8(volatile void* p, uint64_t v, int) { uint64_t o = *(volatile uint64_t*)p; *(volatile uint64_t*)p = o + v; return o; }
uint64_t __atomic_fetch_sub_8(volatile void* p, uint64_t v, int) { uint64_t o = *(volatile uint64_t*)p; *(volatile uint64_t*)p = o - v; return o; }
bool __atomic_compare_exchange_8(volatile void* p, void* e, uint64_t v, int, int) {
  uint64_t o = *(volatile uint64_t*)p;
  if (o == *(uint64_t*)e) { *(volatile uint64_t*)p = v; return true; }
  *(uint64_t*)e = o;
  return false;
}
// one thread
int pthread_mutex_lock(void*) noexcept { return 0; }
int pthread_mutex_unlock(void*) noexcept { return 0; }
int pthread_mutex_trylock(void*) noexcept { return 0; }
int pthread_rwlock_rdlock(void*) noexcept { return 0; }
int pthread_rwlock_wrlock(void*) noexcept { return 0; }
int pthread_rwlock_unlock(void*) noexcept { return 0; }
int pthread_once(int* o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
int sched_yield() noexcept { return 0; }
int usleep(unsigned) { return 0; }
int nanosleep(const void*, void*) { return 0; }
long syscall(long, ...) noexcept { return 0; }
}

void* operator new(size_t n) { void* p = malloc(n); if (!p) abort(); return p; }
void* operator new[](size_t n) { void* p = malloc(n); if (!p) abort(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n); }
void* operator new(size_t n, std::align_val_t) { void* p = malloc(n); if (!p) abort(); return p; }
void* operator new[](size_t n, std::align_val_t) { void* p = malloc(n); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
namespace std {
const nothrow_t nothrow{};
void terminate() noexcept { abort(); }
void __throw_bad_alloc() { abort(); }
void __throw_bad_array_new_length() { abort(); }
void __throw_length_error(const char*) { abort(); }
void __throw_logic_error(const char*) { abort(); }
void __throw_invalid_argument(const char*) { abort(); }
void __throw_out_of_range(const char*) { abort(); }
void __throw_out_of_range_fmt(const char*, ...) { abort(); }
void __throw_bad_function_call() { abort(); }
void __throw_system_error(int) { abort(); }
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { abort(); }
}  // namespace std
