// Byte-string hash functions (hashes.h, hash_crc32.h, fnv1a.h, hash_helper.h): each is a function of exactly the bytes it was given.
#include "sx.h"
#include <string>
#include "jstd/basic/stddef.h"
#include "jstd/hasher/hashes.h"
#include "jstd/hasher/hash_crc32.h"
#include "jstd/hasher/fnv1a.h"
#include "jstd/hasher/hash_helper.h"
namespace H = jstd::hashes;
typedef unsigned char u8x;
static unsigned FN() { return (unsigned)sx_param(3); }
static uint64_t fn(const char *p, size_t n) {
  switch (FN()) {
  case 0: { return H::BKDRHash(p, n); }
  case 1: { return H::Times31(p, n); }
  case 2: { return H::Times31Std(p, n); }
  case 3: { return H::APHash(p, n); }
  case 4: { return H::DJBHash(p, n); }
  case 5: { return H::OpenSSL_Hash(p, n); }
  case 6: { return rocksdb::hashes::Hash(p, n, (uint32_t)sx_param(2)); }
  case 7: { return H::hash_crc32(p, n); }
  case 8: { return H::intel_crc32_x86(p, n); }
  case 9: { return H::intel_crc32_simple_x64(p, n); }
  case 10: { return H::intel_crc32_simple_x86(p, n); }
  case 11: { return H::FNV1A_Yoshimura(p, n); }
  case 12: { return H::FNV1A_Yoshimitsu_TRIADii_xmm(p, n); }
  case 13: { return H::FNV1A_penumbra(p, n); }
  case 14: { return H::msvc_fnv_1a((const unsigned char *)p, n); }
  case 15: { return jstd::HashUtils<uint32_t>().primaryHash(p, n, jstd::kDefaultHashSeed32); }
  case 16: { return jstd::HashUtils<uint64_t>().primaryHash(p, n, jstd::kDefaultHashSeed64); }
  case 17: { return jstd::HashUtils<uint64_t>().primaryHash_old(p, n, 7) ^ jstd::HashUtils<uint32_t>().primaryHash_new(p, n, 7) ^ jstd::HashUtils<uint32_t>().secondaryHash(p, n); }
  case 18: { return jstd::hash<jstd::string_view>()(jstd::string_view(p, n)); }
  case 19: { return jstd::hash<jstd::string_view, uint32_t, jstd::HashFunc_Time31>()(jstd::string_view(p, n)); }
  case 20: { return jstd::hash_helper<const char *, uint32_t, jstd::HashFunc_CRC32C>::getHashCode(p, n); }
  case 21: { std::string s(p, n); return jstd::hash<std::string>()(s); }
  case 22: { std::wstring s(n, L'x'); for (size_t i = 0; i < n; i++) s[i] = (wchar_t)(u8x)p[i]; return jstd::hash<std::wstring>()(s); }
  case 23: { std::string s(p, n); return jstd::hash<std::string, uint32_t, jstd::HashFunc_Time31Std>()(s); }
  case 24: { char *q = (char *)malloc(n + 1); memcpy(q, p, n); q[n] = 0; uint64_t h = jstd::hash<const char *>()(q); free(q); return h; }
  case 25: { typedef jstd::string_hash_helper<jstd::string_view> SH; return SH::getHashCode(jstd::string_view(p, n)); }
  default: return 0;
  }
}
typedef unsigned char u8;
static char *fresh(size_t n, size_t off, const u8 *from) { char *b = (char *)malloc(n + off + (n + off == 0)) + off; for (size_t i = 0; i < n; i++) b[i] = (char)from[i]; return b; }
// The same content in two exactly sized buffers of different alignment: equal hashes, and no byte outside [p, p + n) is read.
SX_ENTRY t_typed() { // keys of the types the library hashes by value: equal keys, equal hashes
  // IEEE equality holds between identical non-NaN values and between the two zeros: y is x, or x with its sign flipped
  float f = __builtin_bit_cast(float, (uint32_t)sx_sym("f", 32)), g = f; double d = __builtin_bit_cast(double, sx_sym("d", 64)), e = d; if (sx_flag("flip")) { g = -f; e = -d; }
  if (f == g) sx_check(jstd::hash<float>()(f) == jstd::hash<float>()(g), "equal float keys have equal hashes");
  if (d == e) sx_check(jstd::hash<double>()(d) == jstd::hash<double>()(e), "equal double keys have equal hashes");
  if (d == e) sx_check(jstd::hash<double, uint32_t, jstd::HashFunc_Time31>()(d) == jstd::hash<double, uint32_t, jstd::HashFunc_Time31>()(e), "equal double keys have equal Time31 hashes");
  uint64_t v = sx_sym("v", 64);
  sx_check(jstd::hash<uint32_t>()((uint32_t)v) == (uint32_t)v && jstd::hash<int>()((int)v) == (uint32_t)v && jstd::hash<bool>()(v & 1) == (v & 1) && jstd::hash<uint64_t>()(v) == (uint32_t)v && jstd::hash<short>()((short)v) == (uint32_t)(short)v, "integral keys hash to themselves");
  int *p = (int *)malloc(sizeof(int)); *p = (int)v; int x = (int)v; sx_check(jstd::hash<int *>()(p) == jstd::hash_helper<int *>::getHashCode(&x), "a pointer key hashes the object it points to"); free(p);
  sx_reach("end");
}
struct SX_ID { size_t operator()(uint64_t v) const { return v; } };
SX_ENTRY t_policy() { // every hash policy maps every hash into the table
  uint64_t h = sx_sym("h", 64); unsigned lg = (unsigned)sx_param(0);
  jstd::fibonacci_hash_policy<SX_ID> f; jstd::mum_hash_policy<SX_ID> m; size_t cap = (size_t)1 << lg;
  sx_check(f.template index_for_hash<uint64_t>(h, 1) <= 1 && m.template index_for_hash<uint64_t>(h, 1) <= 1, "initial state");
  f.commit(f.calc_next_capacity(cap)); m.commit(m.calc_next_capacity(cap)); jstd::fibonacci_hash_policy<SX_ID> f2(f); jstd::mum_hash_policy<SX_ID> m2(m);
  sx_check(cap == (size_t)1 << lg, "a power of two is kept"); size_t i = f.template index_for_hash<uint64_t>(h, cap - 1), j = m.template index_for_hash<uint64_t>(h, cap - 1), k = f.template index_for_hash<std::string>(h, cap - 1), l = m.template index_for_hash<std::string>(h, cap - 1);
  sx_check(i < cap && j < cap && k < cap && l < cap, "the home position lies in the table");
  sx_check(i == f2.template index_for_hash<uint64_t>(h, cap - 1) && j == m2.template index_for_hash<uint64_t>(h, cap - 1), "a copied policy agrees"); sx_check(f.round_index(h, cap - 1) == h % cap && m.round_index(h, cap - 1) == h % cap, "round_index wraps");
  f.reset(); m.reset(); sx_check(f.template index_for_hash<uint64_t>(h, 1) <= 1 && m.template index_for_hash<uint64_t>(h, 1) <= 1, "reset"); sx_reach("end");
}
SX_ENTRY t_int() { // integer mixers against their definitions
  uint64_t v = sx_sym("v", 64), w = sx_sym("w", 64); uint32_t a = (uint32_t)v, b = (uint32_t)w;
  sx_check(H::fibonacci_hash(v) == (v * 11400714818402800987ull) >> 28 && H::fibonacci_hash64(v) == (v * 11400714818402800987ull) >> 28, "fibonacci_hash64"); sx_check(H::fibonacci_hash32(v) == ((uint64_t)a * 2654435761ull) >> 12, "fibonacci_hash32");
  sx_check(H::mum_hash32(a, b) == ((uint32_t)((uint64_t)a * b) ^ (uint32_t)(((uint64_t)a * b) >> 32)) && H::mum_mul_mix32(a, b) == H::mum_hash32(a, b), "mum_hash32"); sx_check(H::mum_hash(v) == H::mum_hash64(v, 11400714818402800987ull) && H::mum_mul_mix(v) == H::mum_mul_mix64(v, 0x9E3779B97F4A7C15ull) && H::mum_mul_mix64(v, w) == H::mum_hash64(v, w), "mum_hash, mum_mul_mix");
  H::_uint128_t p = H::uint128_mul(v, w); sx_check(p.low == v * w && p.high == (uint64_t)(((unsigned __int128)v * w) >> 64), "uint128_mul is the 128-bit product"); sx_reach("end");
}
SX_ENTRY t_pure() {
  size_t lo = sx_param(0), hi = sx_param(1);
  for (size_t n = lo; n <= hi; n++) {
    u8 *c = (u8 *)malloc(n + 1); for (size_t i = 0; i < n; i++) c[i] = (u8)sx_sym("byte", 8);
    char *a = fresh(n, 0, c), *b = fresh(n, n % 8 + 1, c);
    uint64_t h = fn(a, n), g = fn(b, n);
    sx_check(h == g, "equal contents have equal hashes, wherever they are stored");
    for (size_t i = 0; i < n; i++) sx_check((u8)a[i] == c[i] && (u8)b[i] == c[i], "hashing does not change the key");
    free(c); free(a); free(b - (n % 8 + 1));
  }
  sx_reach("end");
}
// A change of a single byte always changes the hash.
SX_ENTRY t_single() {
  size_t n = sx_param(0), k = sx_param(1); u8 *c = (u8 *)malloc(n + 1);
  for (size_t i = 0; i < n; i++) c[i] = (u8)sx_sym("byte", 8);
  char *a = fresh(n, 0, c), *b = fresh(n, 0, c); u8 o = (u8)sx_sym("other", 8); sx_assume(o != c[k]); b[k] = (char)o;
  sx_check(fn(a, n) != fn(b, n), "keys of one length that differ in a single byte have different hashes"); sx_reach("end");
}
static uint64_t ref(const u8 *p, size_t n) {
  uint32_t h = 0; size_t i = 0;
  switch (FN()) {
  case 0: for (; i < n; i++) h = h * 131 + p[i]; break;
  case 1: case 2: case 19: case 23: for (; i < n; i++) h = h * 31 + p[i]; break;
  case 3: for (; i < n; i++) h ^= i % 2 ? ~((h << 11) ^ p[i] ^ (h >> 5)) : (h << 7) ^ p[i] ^ (h >> 3); break;
  case 4: h = 5381; for (; i < n; i++) h = h * 33 + p[i]; break;
  case 9: case 10: h = ~0u; for (; i < n; i++) h = _mm_crc32_u8(h, p[i]); h = ~h; break; // CRC-32C
  case 14: { uint64_t v = 14695981039346656037ull; for (; i < n; i++) v = (v ^ p[i]) * 1099511628211ull; return v; } // FNV-1a; lengths 4 and 8 are hashed by words
  case 6: h = (uint32_t)sx_param(2) ^ (uint32_t)n * 0xc6a4a793u;
    for (; i + 4 <= n; i += 4) { h += p[i] | p[i + 1] << 8 | p[i + 2] << 16 | (uint32_t)p[i + 3] << 24; h *= 0xc6a4a793u; h ^= h >> 16; }
    if (i < n) { for (size_t k = n; k-- > i;) h += (uint32_t)(int32_t)(signed char)p[k] << 8 * (k - i); h *= 0xc6a4a793u; h ^= h >> 24; } break;
  }
  return h;
}
SX_ENTRY t_ref() {
  size_t lo = sx_param(0), hi = sx_param(1);
  for (size_t n = lo; n <= hi; n++) {
    if (FN() == 14 && (n == 4 || n == 8)) continue;
    u8 *c = (u8 *)malloc(n + 1); for (size_t i = 0; i < n; i++) c[i] = (u8)sx_sym("byte", 8);
    sx_check(fn((const char *)c, n) == ref(c, n), "the hash is the one the named algorithm defines"); free(c);
  }
  sx_reach("end");
}

// keys of wider characters: exactly these characters are hashed, and each of them
template <class C> static uint64_t wfn(const C *p, size_t n) {
  typedef jstd::basic_string_view<C> SV;
  switch (FN()) {
  case 0: return H::BKDRHash(p, n);
  case 1: return H::Times31(p, n);
  case 2: return H::Times31Std(p, n);
  case 3: return H::APHash(p, n);
  case 4: return H::DJBHash(p, n);
  case 5: return jstd::string_hash_helper<SV>::getHashCode(SV(p, n));
  case 6: return jstd::string_hash_helper<SV, uint32_t, jstd::HashFunc_Time31>::getHashCode(SV(p, n));
  case 7: return jstd::string_hash_helper<SV, uint32_t, jstd::HashFunc_Time31Std>::getHashCode(SV(p, n));
  }
  if constexpr (sizeof(C) == sizeof(wchar_t)) switch (FN()) {
  case 8: return jstd::hash<jstd::wstring_view>()(jstd::wstring_view((const wchar_t *)p, n));
  case 9: return jstd::hash<jstd::wstring_view, uint32_t, jstd::HashFunc_Time31>()(jstd::wstring_view((const wchar_t *)p, n));
  case 10: { std::wstring s((const wchar_t *)p, n); return jstd::hash<std::wstring, uint32_t, jstd::HashFunc_Time31Std>()(s); }
  case 11: return jstd::hash_helper<const wchar_t *, uint32_t, jstd::HashFunc_CRC32C>::getHashCode((const wchar_t *)p, n);
  case 12: return jstd::hash_helper<const wchar_t *, uint32_t, jstd::HashFunc_Time31>::getHashCode((const wchar_t *)p, n);
  }
  return 0;
}
template <class C> static void wide() {
  size_t n = sx_param(0), k = sx_param(1); C *a = (C *)malloc(n * sizeof(C) + (n == 0)), *b = (C *)((char *)malloc(n * sizeof(C) + sizeof(C)) + sizeof(C)), *c = (C *)malloc(n * sizeof(C) + (n == 0));
  for (size_t i = 0; i < n; i++) for (size_t q = 0; q < sizeof(C); q++) ((u8 *)(a + i))[q] = ((u8 *)(b + i))[q] = ((u8 *)(c + i))[q] = (u8)sx_sym("byte", 8);
  uint64_t h = wfn(a, n); sx_check(h == wfn(b, n), "equal contents have equal hashes, wherever they are stored");
  for (size_t i = 0; i < n; i++) sx_check(a[i] == c[i] && b[i] == c[i], "hashing does not change the key");
  if (k < n) { unsigned q = sx_pick("byte", 8, sizeof(C)); u8 o = (u8)sx_sym("other", 8); sx_assume(o != ((u8 *)(a + k))[q]); ((u8 *)(b + k))[q] = o; sx_check(wfn(b, n) != h, "keys of one length that differ in a single byte have different hashes"); }
  free(a); free(c); free((char *)b - sizeof(C)); sx_reach("end");
}
SX_ENTRY t_wide() { wide<wchar_t>(); }
SX_ENTRY t_short() { wide<unsigned short>(); }
// one key in its several forms: a string with a length, a view, a string object, a C string
template <class C, class S, class V> static void forms() {
  size_t n = sx_param(0); C *q = (C *)malloc((n + 1) * sizeof(C)); q[n] = 0;
  for (size_t i = 0; i < n; i++) { q[i] = (C)sx_sym("char", 8 * sizeof(C)); sx_assume(q[i] != 0); }
  typedef const C *P; typedef jstd::hash_helper<P, uint32_t, jstd::HashFunc_CRC32C> H0; typedef jstd::hash_helper<P, uint32_t, jstd::HashFunc_Time31> H1;
  auto h = H0::getHashCode(q, n), h1 = H1::getHashCode(q, n);
  if (n) sx_check(H0::getHashCode(q) == h && H1::getHashCode(q) == h1, "a C string hashes as the same characters with a length"); // (no characters: the form with a length gives 0)
  sx_check(jstd::hash<P>()(q) == jstd::hash<V>()(V(q, n)), "a C string hashes as the same view");
  sx_check(jstd::hash<S>()(S(q, n)) == jstd::hash<V>()(V(q, n)), "a string hashes as its view");
  free(q); sx_reach("end");
}
SX_ENTRY t_forms() { forms<char, std::string, jstd::string_view>(); }
SX_ENTRY t_wforms() { forms<wchar_t, std::wstring, jstd::wstring_view>(); }
SX_ENTRY t_intcrc() { // integer CRCs: the CRC-32C of the value's bytes, from all ones (and from zero)
  uint64_t v = sx_sym("v", 64); uint32_t a = ~0u, z = 0, s = ~0u;
  for (int i = 0; i < 8; i++) { a = _mm_crc32_u8(a, (u8)(v >> 8 * i)); z = _mm_crc32_u8(z, (u8)(v >> 8 * i)); if (i < 4) s = _mm_crc32_u8(s, (u8)(v >> 8 * i)); }
  sx_check(H::intel_simple_int_crc32(v) == a, "intel_simple_int_crc32"); sx_check(H::intel_int_crc32_x86((uint32_t)v) == s, "intel_int_crc32_x86");
  sx_check(H::intel_int_crc32_x64(v) == ((uint64_t)z << 32 | a), "intel_int_crc32_x64"); sx_check(H::int_hash_crc32(v) == ((uint64_t)z << 32 | a) && H::simple_int_hash_crc32(v) == a, "int_hash_crc32, simple_int_hash_crc32"); sx_reach("end");
}
