// The lane helpers of BitVec.h, for every content of the vector and every value.
#include "sx.h"
#include <climits>
#include "jstd/support/BitVec.h"
using namespace jstd; typedef unsigned char u8;
template <class T, class V> static T lane(const V &v, unsigned i) { T t; memcpy(&t, (const u8 *)&v + i * sizeof(T), sizeof(T)); return t; }
static __m256i any256() { IntVec256 v; for (int i = 0; i < 4; i++) v.u64[i] = sx_sym("lane", 64); return v.m256; }
static __m128i any128() { IntVec128 v; for (int i = 0; i < 2; i++) v.u64[i] = sx_sym("lane", 64); return v.m128; }
template <class T, int N> static void only(const __m256i &before, const __m256i &after, int index, T v) { for (int i = 0; i < N; i++) sx_check(lane<T>(after, i) == (i == index ? v : lane<T>(before, i)), "an insert changes its own lane only, to the value"); }
template <int I> static void lanes16() { __m256i a = any256(); uint64_t v = sx_sym("value", 64); sx_check(AVX::mm256_extract_epi16<I>(a) == (int)lane<uint16_t>(a, I), "mm256_extract_epi16 gives the lane"); only<uint16_t, 16>(a, AVX::mm256_insert_epi16<I>(a, (int)v), I, (uint16_t)v); only<uint16_t, 16>(a, AVX::mm256_insert_epi16_gcc<I>(a, (int)v), I, (uint16_t)v); }
template <int I> static void lanes32() { __m256i a = any256(); uint64_t v = sx_sym("value", 64); sx_check(AVX::mm256_extract_epi32<I>(a) == lane<int>(a, I), "mm256_extract_epi32 gives the lane"); only<uint32_t, 8>(a, AVX::mm256_insert_epi32<I>(a, (int64_t)v), I, (uint32_t)v); }
template <int I> static void lanes64() { __m256i a = any256(); uint64_t v = sx_sym("value", 64); sx_check(AVX::mm256_extract_epi64<I>(a) == lane<int64_t>(a, I), "mm256_extract_epi64 gives the lane"); only<uint64_t, 4>(a, AVX::mm256_insert_epi64<I>(a, (int64_t)v), I, v); }
template <int I> struct all16 { static void go() { lanes16<I>(); all16<I - 1>::go(); } }; template <> struct all16<-1> { static void go() {} };
template <int I> struct all32 { static void go() { lanes32<I>(); all32<I - 1>::go(); } }; template <> struct all32<-1> { static void go() {} };
template <int I> struct all64 { static void go() { lanes64<I>(); all64<I - 1>::go(); } }; template <> struct all64<-1> { static void go() {} };
SX_ENTRY t_lanes16() { all16<15>::go(); sx_reach("end"); }
SX_ENTRY t_lanes32() { all32<7>::go(); sx_reach("end"); }
SX_ENTRY t_lanes64() { all64<3>::go(); sx_reach("end"); }
SX_ENTRY t_words() {
  __m128i a = any128(); __m256i b = any256(); uint64_t v = sx_sym("value", 64);
  sx_check(SSE::mm_cvtsi128_si32_low(a) == lane<uint16_t>(a, 0) && SSE::mm_cvtsi128_si32_high(a) == lane<uint16_t>(a, 1), "the two low 16-bit lanes"); sx_check(AVX::mm256_cvtsi256_si32_low(b) == lane<uint16_t>(b, 0), "the lowest 16-bit lane"); sx_check(AVX::mm256_cvtsi256_si32_high(b) == lane<uint16_t>(b, 1), "the second 16-bit lane");
  sx_check(AVX512::mm_cvtsi128_si16(a) == lane<uint16_t>(a, 0), "the lowest 16-bit lane");
  __m128i s = SSE::mm_set1_epi32((int)v), t = SSE::mm_set1_epi64((int64_t)v); for (int i = 0; i < 4; i++) sx_check(lane<uint32_t>(s, i) == (uint32_t)v, "mm_set1_epi32 fills every lane"); for (int i = 0; i < 2; i++) sx_check(lane<uint64_t>(t, i) == v, "mm_set1_epi64 fills every lane");
  __m128i o = jstd::_mm_setones_si128(); __m256i O = jstd::_mm256_setones_si256(); for (int i = 0; i < 2; i++) sx_check(lane<uint64_t>(o, i) == ~0ull, "all ones"); for (int i = 0; i < 4; i++) sx_check(lane<uint64_t>(O, i) == ~0ull, "all ones");
  __m128i c = any128(), g = jstd::_mm_cmpgt_epi8_fixed(a, c), l = jstd::_mm_cmplt_epi8_fixed(a, c); for (int i = 0; i < 16; i++) sx_check(lane<u8>(g, i) == (lane<int8_t>(a, i) > lane<int8_t>(c, i) ? 255 : 0) && lane<u8>(l, i) == (lane<int8_t>(a, i) < lane<int8_t>(c, i) ? 255 : 0), "signed comparison of bytes"); sx_reach("end");
}
