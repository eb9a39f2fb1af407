// The groups of control bytes under the flat maps (flat_map_group15/16/30.hpp) and the order in which groups are probed.
#include "sx.h"
#include "jstd/hashmap/flat_map_group15.hpp"
#include "jstd/hashmap/flat_map_group16.hpp"
#include "jstd/hashmap/flat_map_group30.hpp"
#include "jstd/hashmap/group_quadratic_prober.hpp"
#ifndef GRP
#define GRP 15
#endif
typedef unsigned char u8;
#if GRP == 15
typedef jstd::group15_meta_ctrl C; typedef jstd::flat_map_group15<C> G; static const unsigned W = 16, N = 15, OV = 8;
#elif GRP == 16
typedef jstd::group16_meta_ctrl C; typedef jstd::flat_map_group16<C> G; static const unsigned W = 16, N = 16, OV = 16;
#else
typedef jstd::group30_meta_ctrl C; typedef jstd::flat_map_group30<C> G; static const unsigned W = 32, N = 30, OV = 16;
#endif
static_assert(sizeof(G) == W, "one byte per slot");
alignas(32) static G g; static u8 c[W];
static void arbitrary() { for (unsigned i = 0; i < W; i++) c[i] = (u8)sx_sym("ctrl", 8); memcpy((void *)&g, c, W); }
static u8 at(unsigned i) { return ((u8 *)&g)[i]; }
static u8 slot(u8 v) { return GRP == 16 ? v & 0x7F : v; }
static uint32_t bits(uint32_t m, unsigned i) { return m >> i & 1; }
static bool ovf(uint64_t h) { return g.is_overflow(h); }
SX_ENTRY t_match() { // every content, every hash
  arbitrary(); uint64_t h = sx_sym("hash", 64); u8 r = C::reduced_hash(h); const G &k = g;
  sx_check(r == C::reduced_hash(h & 0xFF) && (uint32_t)C::repeated_hash(h) == r * 0x01010101u, "the stored hash depends on the low byte only and is repeated in every byte"); sx_check(r != 0, "the stored hash of a key is never the mark of an empty slot");
  if (GRP != 16) sx_check(r != 1, "the stored hash of a key is never the sentinel"); else sx_check(r < 0x80, "the stored hash leaves the overflow bit alone");
  if ((h & 0xFF) > 9 && (GRP != 16 || (h & 0x7F) > 8)) sx_check(r == (GRP == 16 ? h & 0x7F : h & 0xFF), "other hashes are stored as they are");
  uint32_t e = k.match_empty(), u = k.match_used(), m = k.match_hash(h), m2 = k.match_hash(G::make_hash_bits(h));
  for (unsigned i = 0; i < N; i++) {
    sx_check(bits(e, i) == (slot(c[i]) == 0) && k.is_empty(i) == (slot(c[i]) == 0), "match_empty() has the bit of every empty slot"); sx_check(bits(u, i) == (slot(c[i]) != 0) && k.is_used(i) == (slot(c[i]) != 0), "match_used() has the bit of every used slot");
    sx_check(bits(m, i) == (slot(c[i]) == r) && bits(m2, i) == (slot(c[i]) == r), "match_hash() has the bit of every slot that stores this hash"); sx_check(k.value(i) == c[i], "value()"); sx_check(g.is_equals(i, r) == (slot(c[i]) == r), "is_equals()");
#if GRP != 16
    sx_check(k.is_sentinel(i) == (c[i] == 1) && k.is_valid(i) == (c[i] > 1), "is_sentinel(), is_valid()"); sx_check(g.is_equals64(i, r) == (c[i] == r), "is_equals64()");
#endif
  }
  uint32_t full = N == 30 ? 0x3FFFFFFFu : (1u << N) - 1; sx_check(!(e & ~full) && !(u & ~full) && !(m & ~full) && !(m2 & ~full), "no bit beyond the slots of the group");
  for (unsigned i = 0; i < W; i++) sx_check(at(i) == c[i], "matching changes nothing"); sx_reach("end");
}
SX_ENTRY t_update() { // every content, every position
  arbitrary(); uint64_t h = sx_sym("hash", 64), q = sx_sym("other", 64); unsigned p = (unsigned)sx_pick("pos", 8, N), op = (unsigned)sx_pick("op", 8, 5); u8 r = C::reduced_hash(h); bool before = ovf(q), set = false, marked = false;
  switch (op) {
  case 0: g.set_used(p, r); sx_check(slot(at(p)) == r && g.is_used(p) && !g.is_empty(p) && bits(g.match_hash(h), p), "a used slot matches its hash"); break;
  case 1: g.set_empty(p); sx_check(g.is_empty(p) && !g.is_used(p) && bits(g.match_empty(), p), "an emptied slot is empty"); break;
  case 2:
#if GRP == 16
    p = (unsigned)(h % OV); sx_assume(slot(c[p]) != 0); // marks are set on full groups
#endif
    g.set_overflow(h); set = true; sx_check(ovf(h) && !g.is_not_overflow(h), "the mark of a hash is found again"); break;
  case 3: g.init(); for (unsigned i = 0; i < W; i++) sx_check(at(i) == 0, "a new group is empty and unmarked"); sx_check(!ovf(q) && !g.has_any_overflow() && g.match_used() == 0, "a new group is empty and unmarked"); sx_reach("end"); return;
  case 4:
#if GRP == 16
    g.set_used_strict(p, r); sx_check(slot(at(p)) == r, "a used slot stores its hash");
#else
    if (sx_flag("sentinel")) { g.set_sentinel(); p = N - 1; sx_check(g.is_sentinel(p) && at(p) == 1, "the sentinel is in the last slot"); }
    else { g.set_used64(p, h | 2); sx_check(at(p) == (u8)(h | 2), "a used slot stores its hash"); }
#endif
  }
  for (unsigned i = 0; i < N; i++) if (i != p || (set && GRP != 16)) sx_check(GRP == 16 && set ? slot(at(i)) == slot(c[i]) : at(i) == c[i], "the other slots stay as they are");
  marked = set && q % OV == h % OV; sx_check(ovf(q) == (before || marked), "the overflow marks of other hashes stay as they are");
  bool any = false; for (unsigned i = 0; i < OV; i++) any |= ovf(i); sx_check(g.has_any_overflow() == any, "has_any_overflow() iff some hash is marked"); 
  sx_reach("end");
}
SX_ENTRY t_clear() {
#if GRP != 16
  arbitrary(); uint64_t q = sx_sym("other", 64); g.clear_overflow(); sx_check(!ovf(q) && !g.has_any_overflow(), "clear_overflow() removes every mark"); for (unsigned i = 0; i < N; i++) sx_check(at(i) == c[i], "clear_overflow() keeps the slots");
#endif
  sx_reach("end");
}
SX_ENTRY t_probe() { // from any first group, the 2^k groups are visited once each, then the probing ends
  unsigned n = (unsigned)sx_param(0); uint64_t s = sx_sym("start", 64); sx_assume(s < n); jstd::group_quadratic_prober p(s); unsigned seen = 0; uint64_t mark[4] = {0, 0, 0, 0};
  for (;;) { uint64_t i = p.get(); sx_check(i < n, "the probed group is inside the table"); sx_check(!(mark[i >> 6 & 3] >> (i & 63) & 1), "no group is probed twice"); mark[i >> 6 & 3] |= 1ull << (i & 63); seen++; sx_check(p.steps() + 1 == seen && p.length() == seen, "steps() and length()"); if (!p.next_bucket(n - 1)) break; }
  sx_check(seen == n, "every group is probed"); sx_reach("end");
}
