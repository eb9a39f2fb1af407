// Shared parts of the hash-map harnesses: the map under test (-DMAP), its key/value types (-DKV), the reference
// dictionary and the audit that compares a map with it.
#pragma once
#include "sx.h"
#ifndef MAP
#define MAP 15
#endif
#ifndef KV
#define KV 0
#endif
#if MAP == 15
#include "jstd/hashmap/group15_flat_map.hpp"
#elif MAP == 16
#include "jstd/hashmap/group16_flat_map.hpp"
#elif MAP == 1
#include "jstd/hashmap/robin_hash_map.h"
#elif MAP == 216
#include "jstd/hashmap/flat16_hash_map.h"
#elif MAP == 116
#include "jstd/hashmap/robin16_hash_map.h"
#elif MAP == 0
#include <unordered_map>
#endif
static const unsigned NK = 192;              // key universe: 0..15 free keys, 16.. patterned keys
static uint64_t H[NK];                       // the hash function, one free 64-bit value per key
// ---------------------------------------------------------------- key and value types
static long t_live = 0, t_ctor = 0;          // tracked objects alive; constructions so far
static long t_fail_at = -1;                  // >=0: that many more copy/value constructions succeed, the next throws
#ifdef BOOM_BAD_ALLOC // an element that cannot get its memory
typedef std::bad_alloc Boom;
#else
struct Boom {};
#endif
static inline void t_step() { if (t_fail_at == 0) { t_fail_at = -1; throw Boom(); } if (t_fail_at > 0) t_fail_at--; }
template <unsigned PAD, unsigned TAG> struct Tracked {
  Tracked *self; uint32_t id; uint32_t magic; char pad[PAD];
  static const uint32_t ALIVE = 0xA11CE000u + TAG, DEAD = 0xDEAD0000u + TAG;
  void born(uint32_t i) { self = this; id = i; magic = ALIVE; t_live++; t_ctor++; for (unsigned j = 0; j < PAD; j += 8) pad[j] = (char)(TAG + j); }
  void valid() const { sx_check(magic == ALIVE && self == this, "an element is used while it is alive and at its own address"); }
  Tracked() { born(0); }
  Tracked(uint32_t i) { t_step(); born(i); }
  Tracked(const Tracked &o) { o.valid(); t_step(); born(o.id); }
#ifdef NOEXCEPT_MOVE
  Tracked(Tracked &&o) noexcept { o.valid(); born(o.id); o.id = 0xFFFFu; }
  Tracked &operator=(Tracked &&o) noexcept { valid(); o.valid(); if (&o != this) { id = o.id; o.id = 0xFFFFu; } return *this; }
#else
  Tracked(Tracked &&o) { o.valid(); born(o.id); o.id = 0xFFFFu; }
  Tracked &operator=(Tracked &&o) { valid(); o.valid(); if (&o != this) { id = o.id; o.id = 0xFFFFu; } return *this; }
#endif
  Tracked &operator=(const Tracked &o) { valid(); o.valid(); t_step(); id = o.id; return *this; }
  ~Tracked() { valid(); magic = DEAD; self = nullptr; t_live--; }
  bool operator==(const Tracked &o) const { valid(); o.valid(); return id == o.id; }
};
template <unsigned TAG> struct TinyTracked { // two of them fit in eight bytes; too small to know its own address
  uint16_t id, magic;
  static const uint16_t ALIVE = 0xA100u + TAG, DEAD = 0xDE00u + TAG;
  void born(uint32_t i) { id = (uint16_t)i; magic = ALIVE; t_live++; t_ctor++; }
  void valid() const { sx_check(magic == ALIVE, "an element is used while it is alive"); }
  TinyTracked() { born(0); }
  TinyTracked(uint32_t i) { t_step(); born(i); }
  TinyTracked(const TinyTracked &o) { o.valid(); t_step(); born(o.id); }
  TinyTracked(TinyTracked &&o) noexcept { o.valid(); born(o.id); o.id = 0xFFFFu; }
  TinyTracked &operator=(TinyTracked &&o) noexcept { valid(); o.valid(); if (&o != this) { id = o.id; o.id = 0xFFFFu; } return *this; }
  TinyTracked &operator=(const TinyTracked &o) { valid(); o.valid(); t_step(); id = o.id; return *this; }
  ~TinyTracked() { valid(); magic = DEAD; t_live--; }
  bool operator==(const TinyTracked &o) const { valid(); o.valid(); return id == o.id; }
};
struct Plain { uint32_t id; bool operator==(const Plain &o) const { return id == o.id; } };
#if KV == 0            // small trivially copyable
typedef Plain Key; typedef uint32_t Val;
static inline Key mkKey(unsigned k) { return Key{k}; } static inline Val mkVal(uint32_t v) { return v; }
static inline uint32_t keyId(const Key &k) { return k.id; } static inline uint32_t valId(const Val &v) { return v; }
#elif KV == 1          // small, lifetime tracked
typedef Tracked<8, 1> Key; typedef Tracked<8, 2> Val;
#elif KV == 2          // large, lifetime tracked (both)
typedef Tracked<40, 1> Key; typedef Tracked<48, 2> Val;
#elif KV == 3          // large tracked key, small plain value
typedef Tracked<40, 1> Key; typedef uint32_t Val;
static inline Key mkKey(unsigned k) { return Key(k); } static inline Val mkVal(uint32_t v) { return v; }
static inline uint32_t keyId(const Key &k) { k.valid(); return k.id; } static inline uint32_t valId(const Val &v) { return v; }
#elif KV == 4          // small plain key, large tracked value
typedef Plain Key; typedef Tracked<48, 2> Val;
static inline Key mkKey(unsigned k) { return Key{k}; } static inline Val mkVal(uint32_t v) { return Val(v); }
static inline uint32_t keyId(const Key &k) { return k.id; } static inline uint32_t valId(const Val &v) { v.valid(); return v.id; }
#elif KV == 5          // built-in integer key, one-byte value
typedef uint64_t Key; typedef uint8_t Val;
static inline Key mkKey(unsigned k) { return k; } static inline Val mkVal(uint32_t v) { return (uint8_t)v; }
static inline uint32_t keyId(const Key &k) { return (uint32_t)k; } static inline uint32_t valId(const Val &v) { return v; }
#elif KV == 6          // both tracked, eight bytes together
typedef TinyTracked<1> Key; typedef TinyTracked<2> Val;
#endif
#if KV == 1 || KV == 2 || KV == 6
static inline Key mkKey(unsigned k) { return Key(k); } static inline Val mkVal(uint32_t v) { return Val(v); }
static inline uint32_t keyId(const Key &k) { k.valid(); return k.id; } static inline uint32_t valId(const Val &v) { v.valid(); return v.id; }
#endif
static inline uint32_t symVal() { uint32_t v = (uint32_t)sx_sym("value", 32); return valId(mkVal(v)); }
#ifdef SALTED          // stateful functions: a table built with one of them cannot be searched with another
struct Hs { typedef size_t result_type; typedef Key argument_type; using is_avalanching = void; unsigned salt; explicit Hs(unsigned s = 0) noexcept : salt(s) {} size_t operator()(const Key &k) const { return H[keyId(k) % NK] ^ salt * 0x8100000000000055ull; } };
struct Eq { unsigned salt; explicit Eq(unsigned s = 0) noexcept : salt(s) {} bool operator()(const Key &a, const Key &b) const { return keyId(a) == keyId(b); } };
#else
#ifdef MIXHASH         // a weak hash: the map adds its own mixing
struct Hs { typedef size_t result_type; typedef Key argument_type; size_t operator()(const Key &k) const { return H[keyId(k) % NK]; } };
#else                  // declared avalanching: the map uses it as it is
struct Hs { typedef size_t result_type; typedef Key argument_type; using is_avalanching = void; size_t operator()(const Key &k) const { return H[keyId(k) % NK]; } };
#endif
struct Eq { bool operator()(const Key &a, const Key &b) const { return keyId(a) == keyId(b); } };
#endif
#ifdef ALLOC           // a stateful allocator whose blocks are aligned for the type only and must come back to an equal allocator (ALLOC 2: it propagates; 3: on assignment only, 4: on swap only, 5: on copy assignment, 6: on move assignment only; 7: a copied map gets allocator 9)
#define AL_COPY (ALLOC == 2 || ALLOC == 3 || ALLOC == 5)
#define AL_MOVE (ALLOC == 2 || ALLOC == 3 || ALLOC == 6)
#define AL_SWAP (ALLOC == 2 || ALLOC == 4)
template <class T> struct Al {
  typedef T value_type; unsigned id;
  typedef std::integral_constant<bool, AL_COPY> propagate_on_container_copy_assignment; typedef std::integral_constant<bool, AL_MOVE> propagate_on_container_move_assignment; typedef std::integral_constant<bool, AL_SWAP> propagate_on_container_swap; typedef std::false_type is_always_equal;
#if !AL_COPY && !AL_MOVE && !AL_SWAP
  Al(const Al &) = default; Al &operator=(const Al &) = delete; // no need to assign one
#endif
#if ALLOC == 7
  Al select_on_container_copy_construction() const { return Al(9); }
#endif
  Al(unsigned i = 1) noexcept : id(i) {} template <class U> Al(const Al<U> &o) noexcept : id(o.id) {}
  static const size_t A = alignof(T), H = A < 16 ? 16 + A : 2 * A; // (an odd multiple of the alignment)
  T *allocate(size_t n) { if (n > (1u << 24) / sizeof(T)) throw std::bad_alloc(); char *p = (char *)sx_new(H + n * sizeof(T), A < 16 ? 16 : A); ((uint32_t *)p)[0] = id; ((uint32_t *)p)[1] = (uint32_t)n; return (T *)(p + H); }
  void deallocate(T *q, size_t n) { char *p = (char *)q - H; sx_check(((uint32_t *)p)[0] == id, "memory is returned to the allocator it came from"); sx_check(((uint32_t *)p)[1] == n, "memory is returned with the size it was allocated with"); sx_del(p); }
  template <class U> bool operator==(const Al<U> &o) const noexcept { return id == o.id; } template <class U> bool operator!=(const Al<U> &o) const noexcept { return id != o.id; }
};
typedef Al<std::pair<const Key, Val>> Alc;
#else
typedef std::allocator<std::pair<const Key, Val>> Alc;
#endif
#if MAP == 15
typedef jstd::group15_flat_map<Key, Val, Hs, Eq, Alc> Map;
#elif MAP == 16
typedef jstd::group16_flat_map<Key, Val, Hs, Eq, Alc> Map;
#elif MAP == 1
#ifndef LAYOUT          // otherwise bit 0: indirect keys, bit 1: indirect values, bit 2: stored hashes
typedef jstd::default_layout_policy<Key, Val> Layout;
#else
struct Layout { static constexpr bool autoDetectPairLayout = true, isIsolatedKeyValue = false, autoDetectIsIndirectKey = false, isIndirectKey = (LAYOUT & 1) != 0, autoDetectIsIndirectValue = false, isIndirectValue = (LAYOUT & 2) != 0, autoDetectStoreHash = false, needStoreHash = (LAYOUT & 4) != 0; };
#endif
typedef jstd::robin_hash_map<Key, Val, Hs, Eq, Layout, Alc> Map;
#elif MAP == 216
typedef jstd::flat16_hash_map<Key, Val, Hs, Eq> Map;
#elif MAP == 116
typedef jstd::robin16_hash_map<Key, Val, Hs, Eq> Map;
#elif MAP == 0
typedef std::unordered_map<Key, Val, Hs, Eq> Map;
#endif
typedef std::pair<const Key, Val> KVp;
typedef std::pair<Key, Val> KVm;
// ---------------------------------------------------------------- the reference dictionary
struct Model {
  bool in[NK]; uint32_t val[NK]; unsigned cnt;
  Model() { for (unsigned i = 0; i < NK; i++) in[i] = false; cnt = 0; }
  bool put(unsigned k, uint32_t v) { if (in[k]) return false; in[k] = true; val[k] = v; cnt++; return true; } // insert: keeps an existing value
  void set(unsigned k, uint32_t v) { if (!in[k]) { in[k] = true; cnt++; } val[k] = v; }
  unsigned del(unsigned k) { if (!in[k]) return 0; in[k] = false; cnt--; return 1; }
  void clear() { for (unsigned i = 0; i < NK; i++) in[i] = false; cnt = 0; }
};
static unsigned univ_free = 0, univ_pat = 0; // keys in play: 0..univ_free-1 and 16..16+univ_pat-1
template <class F> static inline void each_key(F f) { for (unsigned k = 0; k < univ_free; k++) f(k); for (unsigned k = 16; k < 16 + univ_pat; k++) f(k); }
// lookup part of the audit
static __attribute__((noinline)) void audit_lookup(Map &m, const Model &md) {
  sx_check(m.size() == md.cnt, "size() is the number of distinct keys present"); sx_check(m.empty() == (md.cnt == 0), "empty() iff size() is 0");
  const Map &c = m;
  each_key([&](unsigned k) {
    Key key = mkKey(k);
    auto it = m.find(key); sx_check((it != m.end()) == md.in[k], "find() returns end() exactly for absent keys");
    if (md.in[k]) { sx_check(keyId(it->first) == k, "find() returns the element with that key"); sx_check(valId(it->second) == md.val[k], "find() returns the value last stored for that key"); }
    sx_check(m.count(key) == (md.in[k] ? 1u : 0u), "count() is 1 exactly for present keys");
#if MAP != 0
    sx_check(m.contains(key) == md.in[k], "contains() is true exactly for present keys");
#endif
    auto ci = c.find(key); sx_check((ci != c.end()) == md.in[k], "const find() returns end() exactly for absent keys");
    if (md.in[k]) sx_check(valId(ci->second) == md.val[k], "const find() returns the stored value");
  });
}
static __attribute__((noinline)) void audit_at(Map &m, const Model &md) {
#if MAP != 216
  const Map &c = m;
  each_key([&](unsigned k) {
    Key key = mkKey(k); bool threw = false;
    try { uint32_t v = valId(m.at(key)); sx_check(md.in[k] && v == md.val[k], "at() returns the stored value"); } catch (const std::out_of_range &) { threw = true; }
    sx_check(threw == !md.in[k], "at() throws out_of_range exactly for absent keys");
    threw = false;
    try { uint32_t v = valId(c.at(key)); sx_check(md.in[k] && v == md.val[k], "const at() returns the stored value"); } catch (const std::out_of_range &) { threw = true; }
    sx_check(threw == !md.in[k], "const at() throws out_of_range exactly for absent keys");
  });
#endif
}
// iteration part of the audit: every element exactly once, in both flavours
static __attribute__((noinline)) void audit_iter(Map &m, const Model &md) {
  bool seen[NK]; for (unsigned i = 0; i < NK; i++) seen[i] = false; unsigned n = 0;
  for (auto it = m.begin(); it != m.end(); ++it) {
    unsigned k = keyId(it->first); sx_check(k < NK && md.in[k], "iteration yields only present keys");
    if (k >= NK) return; sx_check(!seen[k], "iteration yields a key once"); seen[k] = true;
    sx_check(valId(it->second) == md.val[k], "iteration yields the stored value"); n++; sx_check(n <= md.cnt, "iteration ends after size() elements"); if (n > NK) return;
  }
  sx_check(n == md.cnt, "iteration yields every element");
  const Map &c = m; unsigned n2 = 0; for (unsigned i = 0; i < NK; i++) seen[i] = false;
  for (auto it = c.begin(); it != c.end(); it++) {
    unsigned k = keyId((*it).first); sx_check(k < NK && md.in[k] && !seen[k], "const iteration yields each present key once"); if (k >= NK) return; seen[k] = true;
    sx_check(valId((*it).second) == md.val[k], "const iteration yields the stored value"); n2++; if (n2 > NK) return;
  }
  sx_check(n2 == md.cnt, "const iteration yields every element"); sx_check((m.begin() == m.end()) == (md.cnt == 0), "begin() == end() iff empty");
  unsigned n3 = 0; for (auto it = m.cbegin(); it != m.cend(); ++it) { n3++; if (n3 > NK) return; } sx_check(n3 == md.cnt, "cbegin()..cend() spans every element");
}
static __attribute__((noinline)) void audit(Map &m, const Model &md) { audit_lookup(m, md); audit_iter(m, md); }
// ---------------------------------------------------------------- hash patterns for the patterned keys
// 0: none equal (well spread)  1: all equal  2: same high bits, consecutive low bytes  3: the integers 0,1,2,..
// 9: the last homes of the table  4: two classes alternating  5: same low byte, consecutive high bits  6: clusters of six equal hashes
static inline uint64_t pat_hash(unsigned pat, unsigned i, uint64_t b, uint64_t c) {
  switch (pat) {
    case 1: return b;
    case 2: return (b & ~0xFFull) | ((b + i) & 0xFF);
    case 3: return i;
    case 4: return (i & 1) ? b : c;
    case 5: return (b & 0xFF) | ((uint64_t)i << 60) | ((uint64_t)(i >> 4) << 56);
    case 6: return b + (uint64_t)(i / 6) * 0x0900000000000009ull;
    case 7: return (uint64_t)i * 64;
    case 8: return i < 15 ? b + i : c + i;
    case 10: return i < 8 ? b : b ^ 1;              // (another overflow class from the ninth key on)
    case 11: return (c & ~0xFFFFull) | 0x87 | ((uint64_t)(i & 15) << 8);     // (0x88 as a suffix: the class of pattern 10)
    case 9: return ~(uint64_t)(i & 3);
    default: return (uint64_t)(i + 1) * 0x9E3779B97F4A7C15ull;
  }
}
// ---------------------------------------------------------------- shared by the entries
static Map *g_m;
template <class M, class It> static void chk_it(M &m, It it, unsigned k, uint32_t v, const char *msg) { sx_check(it != m.end() && keyId(it->first) == k && valId(it->second) == v, msg); }
template <class M, class It> static void chk_it(M &m, std::pair<It, bool> r, unsigned k, uint32_t v, const char *msg) { chk_it(m, r.first, k, v, msg); } // (the earlier maps' hinted insertions)
template <class M, class R> static void chk_ins(M &m, Model &md, R r, unsigned k, uint32_t v) {
  bool fresh = md.put(k, v); sx_check(r.second == fresh, "the insertion reports whether the key was new");
  chk_it(m, r.first, k, md.val[k], "the insertion returns the element with that key, an existing value kept");
}
static void setup(unsigned K, unsigned pat, unsigned P, unsigned spat, unsigned S) {
  univ_free = K; univ_pat = P + S;
#ifdef MIXHASH // multiplicative mixing of a free 64-bit value is out of the solver's reach: a few values instead
  static const uint64_t hv[] = {0, 1, 0x8000000000000000ull, 0xFFFFFFFFFFFFFFFFull, 64};
  for (unsigned k = 0; k < K; k++) H[k] = hv[sx_pick("hash", 8, K > 2 ? 3 : 5)];
#elif MAP == 1 || MAP == 116 || MAP == 216
  // robin_hash_map uses the low bits (the home) and, in the indirect layout, bits 28..35 of hash * odd constant (the tag): with eight
  // free low bits and eight free bits from 28 on, every pair of home (capacity up to 256) and tag occurs
  for (unsigned k = 0; k < K; k++) { uint64_t h = sx_sym("hash", 16); H[k] = (h & 0xFF) | (h >> 8) << 28; }
#else
  for (unsigned k = 0; k < K; k++) H[k] = sx_sym("hash", 64);
#endif
  for (unsigned i = 0; i < P; i++) H[16 + i] = pat_hash(pat, i, 0x2345678923456789ull, 0xA345678923456711ull);
  for (unsigned i = 0; i < S; i++) H[16 + P + i] = pat_hash(spat, i, 0x1345678923456733ull, 0xF345678923456755ull) + 0x0101010101010101ull;
}
static void pin(Model &md, unsigned k) { uint32_t v = valId(mkVal(k * 17 + 3)); auto r = g_m->emplace(mkKey(k), mkVal(v)); bool fresh = md.put(k, v); sx_check(r.second == fresh, "the insertion of a new key succeeds"); chk_it(*g_m, r.first, k, v, "the insertion returns the new element"); }
