// Harness-side interface: the same harness runs symbolically (bitcode + symx) and natively (counterexample replay).
#pragma once
#include <cstddef>
#ifdef SX_BC // libstdc++'s templates are instantiated here rather than taken from the library binary
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <new>
#include <stdexcept>
#include <utility>
extern "C" {
uint64_t sx_sym(const char *name, unsigned bits);      // a fresh symbolic value
void sx_assume(int cond);
void sx_check(int cond, const char *msg);              // the assertion handed to the solver
uint64_t sx_concretize(uint64_t v);                    // fork over every feasible value
void sx_reach(const char *msg);                        // reachability witness (guard against vacuity)
uint64_t sx_param(unsigned i);
uint64_t sx_objsize(const void *p);
void sx_freeze(int on);                                // until switched off, nothing may write to the heap blocks allocated so far (nor to variables of the library)
#ifndef SX_BC
void *sx_arena(size_t n, size_t al); bool sx_arena_free(void *p); // replay: blocks that can be frozen
#endif
}
#define SX_ENTRY extern "C" __attribute__((used, noinline)) void
static inline uint64_t sx_pick(const char *name, unsigned bits, uint64_t n) { // 0..n-1, one path per value
#ifdef SX_RND // development only: random native runs
  (void)bits; return sx_sym(name, 64) % n;
#endif
  uint64_t v = sx_sym(name, bits); sx_assume(v < n); return sx_concretize(v);
}
static inline bool sx_flag(const char *name) { return sx_concretize(sx_sym(name, 1)) != 0; }

// ---- allocation accounting (replaces the global allocation functions in both worlds)
inline long sx_live = 0;            // blocks obtained through operator new and not yet released
inline long sx_fail_at = -1;        // >=0: number of further allocations that succeed before one throws bad_alloc
static inline void *sx_new(size_t n, size_t al) {
  if (sx_fail_at == 0) { sx_fail_at = -1; throw std::bad_alloc(); }
  if (sx_fail_at > 0) sx_fail_at--;
  void *p = nullptr;
  if (n > (1u << 24)) throw std::bad_alloc();
#ifndef SX_BC
  if ((p = sx_arena(n, al)) != nullptr) { sx_live++; return p; }
#endif
  if (al <= 16) p = malloc(n); else if (posix_memalign(&p, al, n)) p = nullptr;
  if (!p) throw std::bad_alloc();
  sx_live++; return p;
}
static inline void sx_del(void *p) {
#ifndef SX_BC
  if (p && sx_arena_free(p)) { sx_live--; return; }
#endif
  if (p) { sx_live--; free(p); } }
static inline void sx_dels(void *p, size_t n) { if (p) { sx_check(sx_objsize(p) == n, "a block is released with the size it was allocated with"); sx_del(p); } }
void *operator new(size_t n) { return sx_new(n, 16); }
void *operator new[](size_t n) { return sx_new(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return sx_new(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return sx_new(n, (size_t)a); }
void operator delete(void *p) noexcept { sx_del(p); }
void operator delete[](void *p) noexcept { sx_del(p); }
void operator delete(void *p, size_t n) noexcept { sx_dels(p, n); }
void operator delete[](void *p, size_t n) noexcept { sx_dels(p, n); }
void operator delete(void *p, std::align_val_t) noexcept { sx_del(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sx_del(p); }
void operator delete(void *p, size_t n, std::align_val_t) noexcept { sx_dels(p, n); }
void operator delete[](void *p, size_t n, std::align_val_t) noexcept { sx_dels(p, n); }
#if defined(SX_BC) && !defined(NDEBUG)
extern "C" __attribute__((noinline, used)) void __assert_fail(const char *, const char *, unsigned, const char *) noexcept { sx_check(0, "an internal assertion of the library holds"); abort(); }
#endif
#ifdef SX_BC
extern "C" { // wide-character functions of libc
__attribute__((noinline, used)) wchar_t *wmemset(wchar_t *p, wchar_t c, size_t n) noexcept { for (size_t i = 0; i < n; i++) p[i] = c; return p; }
__attribute__((noinline, used)) wchar_t *wmemcpy(wchar_t *p, const wchar_t *q, size_t n) noexcept { return (wchar_t *)memcpy(p, q, n * sizeof(wchar_t)); }
__attribute__((noinline, used)) wchar_t *wmemmove(wchar_t *p, const wchar_t *q, size_t n) noexcept { return (wchar_t *)memmove(p, q, n * sizeof(wchar_t)); }
__attribute__((noinline, used)) int wmemcmp(const wchar_t *p, const wchar_t *q, size_t n) noexcept { for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
#define SX_CMPFN(name, T, U, N) __attribute__((noinline, used)) int name { for (size_t i = 0; i < N; i++) { U x = (U)p[i], y = (U)q[i]; if (x != y) return x < y ? -1 : 1; if (x == 0) return 0; } return 0; }
SX_CMPFN(strcmp(const char *p, const char *q) noexcept, char, unsigned char, (size_t)-1)
SX_CMPFN(strncmp(const char *p, const char *q, size_t n) noexcept, char, unsigned char, n)
SX_CMPFN(wcscmp(const wchar_t *p, const wchar_t *q) noexcept, wchar_t, wchar_t, (size_t)-1)
SX_CMPFN(wcsncmp(const wchar_t *p, const wchar_t *q, size_t n) noexcept, wchar_t, wchar_t, n)
__attribute__((noinline, used)) char *strncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
__attribute__((noinline, used)) wchar_t *wcsncpy(wchar_t *d, const wchar_t *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
__attribute__((noinline, used)) size_t wcslen(const wchar_t *p) noexcept { size_t n = 0; while (p[n]) n++; return n; }
}
namespace std { // libstdc++'s out-of-line throw helpers
void __throw_bad_alloc() { throw std::bad_alloc(); }
void __throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __throw_length_error(const char *) { throw std::length_error(""); }
void __throw_logic_error(const char *) { throw std::logic_error(""); }
void __throw_out_of_range(const char *) { throw std::out_of_range(""); }
void __throw_out_of_range_fmt(const char *, ...) { throw std::out_of_range(""); }
void __throw_invalid_argument(const char *) { throw std::invalid_argument(""); }
}
#endif
