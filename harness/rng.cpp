// random number generators: the reference sequences, and bounded numbers
#include "sx.h"
#include <vector>
#include <random>
#include "jstd/system/RandomGen.h"
template <class T> struct Ref; // the Mersenne twister as published: (w, n, m, r), a, (u, d), (s, b), (t, c), l, f and the key schedule's multipliers
template <> struct Ref<uint32_t> { enum : uint32_t { a = 0x9908B0DFu, d = 0xFFFFFFFFu, b = 0x9D2C5680u, c = 0xEFC60000u, f = 1812433253u, g = 1664525u, h = 1566083941u, dflt = 19650218u }; static const int W = 32, N = 624, M = 397, R = 31, u = 11, s = 7, t = 15, l = 18; typedef jstd::MT19937_32 Gen; typedef std::mt19937 Std; };
template <> struct Ref<uint64_t> { enum : uint64_t { a = 0xB5026F5AA96619E9ull, d = 0x5555555555555555ull, b = 0x71D67FFFEDA60000ull, c = 0xFFF7EEE000000000ull, f = 6364136223846793005ull, g = 3935559000370003845ull, h = 2862933555777941757ull, dflt = 19650218ull }; static const int W = 64, N = 312, M = 156, R = 31, u = 29, s = 17, t = 37, l = 43; typedef jstd::MT19937_64 Gen; typedef std::mt19937_64 Std; };
template <class T> struct MT {
  typedef Ref<T> P; T x[P::N]; int p;
  void seed(T v) { x[0] = v; for (int i = 1; i < P::N; i++) x[i] = T(P::f) * (x[i - 1] ^ (x[i - 1] >> (P::W - 2))) + T(i); p = P::N; }
  void key(T v, const T *k, unsigned n) {
    seed(v); int i = 1; unsigned j = 0;
    for (int q = n > (unsigned)P::N ? (int)n : P::N; q; q--) { x[i] = (x[i] ^ ((x[i - 1] ^ (x[i - 1] >> (P::W - 2))) * T(P::g))) + k[j] + T(j); if (++i >= P::N) { x[0] = x[P::N - 1]; i = 1; } if (++j >= n) j = 0; }
    for (int q = P::N - 1; q; q--) { x[i] = (x[i] ^ ((x[i - 1] ^ (x[i - 1] >> (P::W - 2))) * T(P::h))) - T(i); if (++i >= P::N) { x[0] = x[P::N - 1]; i = 1; } }
    x[0] = T(1) << (P::W - 1);
  }
  T next() {
    if (p >= P::N) { p = 0; const T lo = (T(1) << P::R) - 1;
      for (int k = 0; k < P::N; k++) { T y = (x[k] & ~lo) | (x[k + 1 < P::N ? k + 1 : 0] & lo); x[k] = x[k + P::M < P::N ? k + P::M : k + P::M - P::N] ^ (y >> 1) ^ ((y & 1) ? T(P::a) : T(0)); } }
    T z = x[p++]; z ^= (z >> P::u) & T(P::d); z ^= (z << P::s) & T(P::b); z ^= (z << P::t) & T(P::c); return z ^ (z >> P::l);
  }
};
template <class T> static void seq() {
  unsigned n = sx_param(0), how = sx_param(1), len = sx_param(2), bits = sx_param(3);
  T seed = (T)sx_sym("seed", bits); sx_assume(seed != 0); // (seed 0 stands for the time)
  typename Ref<T>::Gen *g; MT<T> *r = new MT<T>; static T key[704]; for (unsigned i = 0; i < len; i++) key[i] = len <= 8 || i == 0 || i == len / 2 || i == (unsigned)Ref<T>::N || i == len - 1 ? (T)sx_sym("key", bits) : T(Ref<T>::f * (i + 1)); // (long keys: four words of them arbitrary)
  std::vector<T> kv(key, key + len);
  switch (how) {
    case 0: g = new typename Ref<T>::Gen(seed); r->seed(seed); break;
    case 1: g = new typename Ref<T>::Gen(1); g->rand(); g->srand(seed); r->seed(seed); break;
    case 2: g = new typename Ref<T>::Gen(key, len, seed); r->key(seed, key, len); break;
    case 3: g = new typename Ref<T>::Gen(kv, seed); r->key(seed, key, len); break;
    case 4: g = new typename Ref<T>::Gen(1); g->rand(); g->srand(key, len, seed); r->key(seed, key, len); break;
    case 5: g = new typename Ref<T>::Gen(1); g->rand(); g->srand(kv, seed); r->key(seed, key, len); break;
    default: g = new typename Ref<T>::Gen(); r->seed(T(Ref<T>::Gen::kMTDefaultSeed)); break;
  }
  for (unsigned i = 0; i < n; i++) { T a = g->rand(), b = r->next(); sx_check(a == b, "the generator yields the sequence published for its seed"); }
  sx_check(g->rand_max() == std::numeric_limits<T>::max(), "rand_max()"); delete g; delete r; sx_reach("end");
}
SX_ENTRY t_mt32() { seq<uint32_t>(); }
SX_ENTRY t_mt64() { seq<uint64_t>(); }
// every number an underlying generator may deliver
template <class V> struct Raw {
  typedef V value_type; typedef size_t size_type;
  void srand(V = 0) {} V rand() { return (V)sx_sym("raw", sizeof(V) * 8); } V rand_max() const { return std::numeric_limits<V>::max(); }
  int32_t nextInt32() { return (int32_t)sx_sym("raw", 32); } uint32_t nextUInt32() { return (uint32_t)sx_sym("raw", 32); }
  int64_t nextInt64() { return (int64_t)sx_sym("raw", 64); } uint64_t nextUInt64() { return (uint64_t)sx_sym("raw", 64); }
  intptr_t nextInt() { return nextInt64(); } size_t nextUInt() { return nextUInt64(); }
};
typedef jstd::BasicRandomGenerator<Raw<uint64_t>> RG;
template <class T, class F> static void bound(F f) {
  unsigned B = sizeof(T) * 8; T a, b;
  switch (sx_param(1)) {
    case 0: a = (T)sx_sym("min", B); b = (T)sx_sym("max", B); break;                                                 // any two
    case 1: a = std::numeric_limits<T>::min(); b = std::numeric_limits<T>::max(); break;
    case 2: { a = (T)sx_sym("min", B); b = T(a + 5); break; }
    case 3: { a = (T)sx_sym("min", B); b = a; break; }
    case 4: { a = (T)sx_sym("min", B); b = T(a + (T(1) << (B - 2)) - 1); break; }                                    // a power of two of values
    case 5: { a = std::numeric_limits<T>::max(); b = std::numeric_limits<T>::min() + 1; break; }
    case 7: { // a given value of a given range can be drawn: the run must get to the end
      typedef typename std::make_unsigned<T>::type UT; unsigned w = sx_param(2) / 4; UT k = w & 1 ? w / 2 + 0u : w / 2;
      switch (sx_param(2) % 4) { case 0: a = std::numeric_limits<T>::min(); break; case 1: a = T(-3); break; case 2: a = T(std::numeric_limits<T>::max() - 6); break; default: a = 5; break; }
      b = sx_param(2) % 4 == 1 && T(-3) > 0 ? T(a + 2) : T(a + 6); k %= UT(b - a) + 1;
      T r = w & 1 ? f(b, a) : f(a, b); sx_check(a <= r && r <= b, "a bounded random number lies between its bounds, both included"); if (r == T(a + k)) sx_reach("end"); return;
    }
    case 8: { a = std::numeric_limits<T>::min(); b = std::numeric_limits<T>::max(); T r = f(a, b), t = sx_param(2) == 0 ? a : sx_param(2) == 1 ? b : T(77); if (r == t) sx_reach("end"); return; }
    default: { a = (T)sx_sym("min", B); b = (T)sx_sym("max", B); typename std::make_unsigned<T>::type r = a < b ? (typename std::make_unsigned<T>::type)b - a : (typename std::make_unsigned<T>::type)a - b; sx_assume(r < 15); } break;
  }
  T r = f(a, b), lo = a < b ? a : b, hi = a < b ? b : a; sx_check(lo <= r && r <= hi, "a bounded random number lies between its bounds, both included"); sx_reach("end");
}
template <class T, class F> static void bound1(F f) { T a = (T)sx_sym("max", sizeof(T) * 8); sx_assume(a >= 0); if (sx_param(1) == 1) { a = std::numeric_limits<T>::max(); } if (sx_param(1) == 2) sx_assume(a < 15); T r = f(a); sx_check(T(0) <= r && r <= a, "a bounded random number lies between 0 and its bound, both included"); sx_reach("end"); }
SX_ENTRY t_bound() {
  switch (sx_param(0)) {
    case 0: bound<int32_t>([](int32_t a, int32_t b) { return RG::nextInt32(a, b); }); break;
    case 1: bound<uint32_t>([](uint32_t a, uint32_t b) { return RG::nextUInt32(a, b); }); break;
    case 2: bound<int64_t>([](int64_t a, int64_t b) { return RG::nextInt64(a, b); }); break;
    case 3: bound<uint64_t>([](uint64_t a, uint64_t b) { return RG::nextUInt64(a, b); }); break;
    case 4: bound<intptr_t>([](intptr_t a, intptr_t b) { return RG::nextInt(a, b); }); break;
    case 5: bound<size_t>([](size_t a, size_t b) { return RG::nextUInt(a, b); }); break;
    case 6: bound1<int32_t>([](int32_t a) { return RG::nextInt32(a); }); break;
    case 7: bound1<uint32_t>([](uint32_t a) { return RG::nextUInt32(a); }); break;
    case 8: bound1<int64_t>([](int64_t a) { return RG::nextInt64(a); }); break;
    case 9: bound1<uint64_t>([](uint64_t a) { return RG::nextUInt64(a); }); break;
    case 10: bound1<intptr_t>([](intptr_t a) { return RG::nextInt(a); }); break;
    case 11: bound1<size_t>([](size_t a) { return RG::nextUInt(a); }); break;
  }
}
