// BitUtils.h, Power2.h (run_time) and log10_int.h against their definitions, for every argument.
#include "sx.h"
#include <limits>
#include <type_traits>
#include "jstd/support/BitUtils.h"
#include "jstd/support/Power2.h"
#include "jstd/math/log10_int.h"
#include "jstd/utility/utility.h"
using namespace jstd;
static unsigned ref_pop(uint64_t x) { unsigned n = 0; for (int i = 0; i < 64; i++) n += (unsigned)(x >> i) & 1u; return n; }
static bool is_low(uint64_t x, unsigned r) { return r < 64 && (x << (63 - r)) == 1ull << 63; }  // r is the position of the lowest 1 bit of x
static bool is_high(uint64_t x, unsigned r) { return r < 64 && (x >> r) == 1; }                 // r is the position of the highest 1 bit of x
SX_ENTRY t_scan() {
  uint64_t x = sx_sym("x", 64); uint32_t y = (uint32_t)sx_sym("y", 32);
  sx_check(BitUtils::popcnt64(x) == ref_pop(x), "popcnt64 is the number of 1 bits"); sx_check(BitUtils::popcnt32(y) == ref_pop(y), "popcnt32 is the number of 1 bits"); sx_check(BitUtils::popcnt(x) == ref_pop(x), "popcnt is the number of 1 bits");
  if (x != 0) {
    sx_check(is_low(x, BitUtils::bsf64(x)) && is_low(x, BitUtils::bsf(x)), "bsf64 is the position of the lowest 1 bit"); sx_check(is_high(x, BitUtils::bsr64(x)) && is_high(x, BitUtils::bsr(x)), "bsr64 is the position of the highest 1 bit");
    sx_check(is_low(x, BitUtils::countTrailingZeros64(x)) && is_low(x, BitUtils::countTrailingZeros(x)), "countTrailingZeros64 counts the zeros below the lowest 1 bit");
    sx_check(is_high(x, 63 - BitUtils::countLeadingZeros64(x)) && is_high(x, 63 - BitUtils::countLeadingZeros(x)), "countLeadingZeros64 counts the zeros above the highest 1 bit");
    sx_check(is_low(x, run_time::bitScanForward(x)) && is_high(x, run_time::bitScanReverse(x)) && is_low(x, run_time::countTrailingZeros(x)) && is_high(x, 63 - run_time::countLeadingZeros(x)), "run_time bit scans of 64-bit values");
    uint64_t l = BitUtils::ls1b64(x), h = BitUtils::ms1b64(x);
    sx_check((l & (l - 1)) == 0 && (l & x) == l && l != 0 && (x & (l - 1)) == 0 && BitUtils::ls1b(x) == l, "ls1b64 isolates the lowest 1 bit"); sx_check(h != 0 && (h & (h - 1)) == 0 && (h & x) == h && (x ^ h) < h && BitUtils::ms1b(x) == h, "ms1b64 isolates the highest 1 bit");
    sx_check(BitUtils::clearLowBit64(x) == x - l && BitUtils::clearLowBit(x) == x - l && run_time::clear_low_bit(x) == x - l, "clearLowBit64 removes the lowest 1 bit only");
  } else { sx_check(BitUtils::countTrailingZeros64(x) == 64 && BitUtils::countLeadingZeros64(x) == 64 && BitUtils::countTrailingZeros(x) == 64 && BitUtils::countLeadingZeros(x) == 64, "the zero counts of 0 are the word length"); sx_check(BitUtils::ls1b64(x) == 0 && BitUtils::ms1b64(x) == 0 && BitUtils::clearLowBit64(x) == 0 && BitUtils::ls1b(x) == 0 && BitUtils::ms1b(x) == 0, "0 has no lowest or highest bit"); }
  if (y != 0) {
    sx_check(is_low(y, BitUtils::bsf32(y)) && is_high(y, BitUtils::bsr32(y)), "bsf32/bsr32 are the positions of the lowest and highest 1 bit"); sx_check(is_low(y, BitUtils::countTrailingZeros32(y)) && is_high(y, 31 - BitUtils::countLeadingZeros32(y)), "countTrailingZeros32/countLeadingZeros32");
    sx_check(is_low(y, run_time::bitScanForward(y)) && is_high(y, run_time::bitScanReverse(y)) && is_low(y, run_time::countTrailingZeros(y)) && is_high(y, 31 - run_time::countLeadingZeros(y)), "run_time bit scans of 32-bit values");
    uint32_t l = BitUtils::ls1b32(y), h = BitUtils::ms1b32(y);
    sx_check((l & (l - 1)) == 0 && (l & y) == l && l != 0 && (y & (l - 1)) == 0, "ls1b32 isolates the lowest 1 bit"); sx_check(h != 0 && (h & (h - 1)) == 0 && (h & y) == h && (y ^ h) < h, "ms1b32 isolates the highest 1 bit"); sx_check(BitUtils::clearLowBit32(y) == y - l && run_time::clear_low_bit(y) == y - l, "clearLowBit32 removes the lowest 1 bit only");
  } else { sx_check(BitUtils::countTrailingZeros32(y) == 32 && BitUtils::countLeadingZeros32(y) == 32, "the zero counts of 0 are the word length"); sx_check(BitUtils::ls1b32(y) == 0 && BitUtils::ms1b32(y) == 0 && BitUtils::clearLowBit32(y) == 0, "0 has no lowest or highest bit"); }
  sx_reach("end");
}
SX_ENTRY t_fallback() { // the portable versions
  uint64_t x = sx_sym("x", 64); uint32_t y = (uint32_t)sx_sym("y", 32);
  sx_check(BitUtils::__internal_popcnt(y) == ref_pop(y), "__internal_popcnt is the number of 1 bits"); sx_check(BitUtils::__internal_popcnt_slow(y) == ref_pop(y), "__internal_popcnt_slow is the number of 1 bits");
  sx_check(BitUtils::__internal_popcnt64(x) == ref_pop(x), "__internal_popcnt64 is the number of 1 bits");
  if (x != 0) { sx_check(is_high(x, 63u - (unsigned)BitUtils::__internal_clzll(x)), "__internal_clzll counts the leading zeros"); sx_check(is_low(x, (unsigned)BitUtils::__internal_ctzll(x)), "__internal_ctzll counts the trailing zeros"); }
  else sx_check(BitUtils::__internal_clzll(x) == 64 && BitUtils::__internal_ctzll(x) == 64, "__internal_clzll/ctzll of 0 are 64");
  if (y != 0) { sx_check(is_high(y, 31u - (unsigned)BitUtils::__internal_clz(y)), "__internal_clz counts the leading zeros"); sx_check(is_low(y, (unsigned)BitUtils::__internal_ctz(y)), "__internal_ctz counts the trailing zeros"); }
  else sx_check(BitUtils::__internal_clz(y) == 32 && BitUtils::__internal_ctz(y) == 32, "__internal_clz/ctz of 0 are 32");
  sx_reach("end");
}
SX_ENTRY t_hakmem() { uint32_t y = (uint32_t)sx_sym("y", 32); sx_check(BitUtils::__internal_hakmem_popcnt(y) == ref_pop(y), "__internal_hakmem_popcnt is the number of 1 bits"); sx_reach("end"); }
template <class U> static void pow2_checks(U n) {
  typedef uint64_t W; const W top = (W)1 << (sizeof(U) * 8 - 1); const W m = n;
  bool pow = m != 0 && ref_pop(m) == 1; if (m) sx_check(run_time::is_pow2(n) == pow, "is_pow2 holds exactly for powers of two");
  W pp = run_time::prev_pow2(n), rd = run_time::round_down(n), rt = run_time::round_to(n);
  if (m <= 1) sx_check(pp == 0, "prev_pow2(0) = prev_pow2(1) = 0"); else sx_check(ref_pop(pp) == 1 && pp <= m / 2 && pp > m / 4, "prev_pow2(n) = 2^(floor(log2 n) - 1)");
  if (m <= 1) sx_check(rd == 0, "round_down(0) = round_down(1) = 0"); else sx_check(ref_pop(rd) == 1 && rd <= m - 1 && rd > (m - 1) / 2, "round_down(n) = 2^floor(log2(n - 1))");
  if (m == 0) sx_check(rt == 0, "round_to(0) = 0"); else sx_check(ref_pop(rt) == 1 && rt <= m && rt > m / 2, "round_to(n) is the greatest power of two not above n");
  if (m <= top) { W ru = run_time::round_up(n); if (m <= 1) sx_check(ru == m, "round_up(0) = 0, round_up(1) = 1"); else sx_check(ref_pop(ru) == 1 && ru >= m && ru / 2 < m, "round_up(n) is the smallest power of two not below n"); }
  else if (sizeof(U) == 4) sx_check((W)run_time::round_up(n) == 0xFFFFFFFFu, "round_up saturates above the greatest power of two");
  if (m < top) { W np = run_time::next_pow2(n); sx_check(ref_pop(np) == 1 && np > m && np / 2 <= m, "next_pow2(n) is the smallest power of two above n"); }
  else if (sizeof(U) == 4) sx_check((W)run_time::next_pow2(n) == 0xFFFFFFFFu, "next_pow2 saturates above the greatest power of two");
  W lg = run_time::log2_int(n); if (m <= 1) sx_check(lg == 0, "log2_int(0) = log2_int(1) = 0"); else sx_check(lg >= 1 && lg <= sizeof(U) * 8 && ((m - 1) >> (lg - 1)) == 1, "log2_int(n) = floor(log2(n - 1)) + 1");
}
SX_ENTRY t_pow2_32() { pow2_checks<uint32_t>((uint32_t)sx_sym("n", 32)); sx_reach("end"); }
SX_ENTRY t_pow2_64() { pow2_checks<uint64_t>(sx_sym("n", 64)); sx_reach("end"); }
SX_ENTRY t_log2() {
  uint64_t x = sx_sym("x", 64); uint32_t y = (uint32_t)sx_sym("y", 32);
  uint64_t a = BitUtils::log2_64(x), b = BitUtils::log2_int(x); uint32_t c = BitUtils::log2_32(y); sx_check(a == b, "log2_int and log2_64 agree");
  if (x <= 1) sx_check(a == 0, "log2_64(0) = log2_64(1) = 0"); else sx_check(a >= 1 && a <= 64 && ((x - 1) >> (a - 1)) == 1, "log2_64(n) = floor(log2(n - 1)) + 1");
  if (y <= 1) sx_check(c == 0, "log2_32(0) = log2_32(1) = 0"); else sx_check(c >= 1 && c <= 32 && ((y - 1) >> (c - 1)) == 1, "log2_32(n) = floor(log2(n - 1)) + 1");
  sx_reach("end");
}
SX_ENTRY t_log10() {
  static const uint64_t P[20] = {1ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull, 100000000ull, 1000000000ull, 10000000000ull, 100000000000ull, 1000000000000ull, 10000000000000ull, 100000000000000ull, 1000000000000000ull, 10000000000000000ull, 100000000000000000ull, 1000000000000000000ull, 10000000000000000000ull};
  uint64_t x = sx_sym("x", 64); uint32_t y = (uint32_t)sx_sym("y", 32); unsigned a = 0, b = 0; for (int i = 1; i < 20; i++) { a += x >= P[i]; b += y >= P[i]; }
  sx_check(jm_log10_u64(x) == a, "jm_log10_u64 is the floor of the decimal logarithm"); sx_check(jm_log10_u32(y) == b, "jm_log10_u32 is the floor of the decimal logarithm"); sx_reach("end");
}
template <size_t N> static void align_fixed(uint64_t p, uint64_t up) {
  char *a = (char *)p; sx_check((check_alignment<char, N>(a)) == (p % N == 0), "check_alignment<T, N>() says whether the address is a multiple");
  if (up <= ~0ull - (N - 1)) sx_check((uint64_t)pointer_align_to<N>(a) == (p % N ? p + (N - p % N) : p), "pointer_align_to<N>() is the first multiple from the address on");
}
SX_ENTRY t_align() {
  unsigned k = sx_pick("log2", 8, 64); uint64_t A = 1ull << k, m = A - 1, p = sx_sym("p", 64); char *a = (char *)p;
  sx_check(check_alignment(a, A) == ((p & m) == 0), "check_alignment() says whether the address is a multiple");
  if (p <= ~0ull - m) {
    uint64_t r = align_to(p, A), q = (uint64_t)pointer_align_to(a, A);
    sx_check((r & m) == 0 && r >= p && r - p < A, "align_to() is the first multiple from the size on"); sx_check((q & m) == 0 && q >= p && q - p < A, "pointer_align_to() is the first multiple from the address on");
  }
  align_fixed<1>(p, p); align_fixed<8>(p, p); align_fixed<16>(p, p); align_fixed<64>(p, p); align_fixed<4096>(p, p);
  sx_check(check_alignment((uint64_t *)p) == (p % 8 == 0), "check_alignment<T>() uses the alignment of the type"); sx_reach("end");
}
