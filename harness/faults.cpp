// Operations that fail half-way: an allocation or a copy/construction of a key or value throws at a symbolic point.
// Parameters as in maps.cpp; 11 is the operation mask of the operation that may fail, 12 how many points are tried
#include "map.h"
enum { F_INSERT_C, F_INSERT_R, F_EMPLACE, F_EMPLACE_PW, F_TRY_C, F_TRY_R, F_INDEX_C, F_INDEX_R, F_IOA_C, F_IOA_R, F_COPY_C, F_COPY_A,
       F_RESERVE, F_REHASH, F_SHRINK, F_MLF, F_IL_C, F_RANGE_C, F_INS_RANGE, F_ERASE, F_CLEAR, F_FIND, F_INSERT_CM, F_CAP_C, NFOPS };
#ifndef NO_FOPS
#define NO_FOPS 0ull
#endif
#define FON(x) constexpr (!((NO_FOPS) >> (x) & 1))
// performs one operation on prepared arguments; returns 1 when the key is inserted if absent, 2 when it is also assigned, 4 several keys
template <class M> static __attribute__((noinline)) int fstep(M &m, unsigned op, const Key &ck, Key &rk, const Val &cv, Val &rv, const KVp *a, unsigned num, bool &ret) {
  switch (op) {
  case F_INSERT_C: ret = m.insert(a[0]).second; return 1;
  case F_INSERT_CM: { const KVm *p = reinterpret_cast<const KVm *>(a); ret = m.insert(*p).second; return 1; }
  case F_INSERT_R: ret = m.insert(KVp(std::move(rk), std::move(rv))).second; return 1;
  case F_EMPLACE: ret = m.emplace(ck, cv).second; return 1;
  case F_EMPLACE_PW: ret = m.emplace(std::piecewise_construct, std::forward_as_tuple(ck), std::forward_as_tuple(cv)).second; return 1;
  case F_TRY_C: ret = m.try_emplace(ck, cv).second; return 1;
  case F_TRY_R: ret = m.try_emplace(std::move(rk), std::move(rv)).second; return 1;
  case F_INDEX_C: { size_t n = m.size(); (void)m[ck]; ret = m.size() != n; return 1 | 8; }
  case F_INDEX_R: { size_t n = m.size(); (void)m[std::move(rk)]; ret = m.size() != n; return 1 | 8; }
  case F_IOA_C: if FON(F_IOA_C) { ret = m.insert_or_assign(ck, cv).second; return 2; } break;
  case F_IOA_R: if FON(F_IOA_R) { ret = m.insert_or_assign(std::move(rk), std::move(rv)).second; return 2; } break;
  case F_COPY_C: if FON(F_COPY_C) { M c(m); ret = c.size() == m.size(); } return 0;
  case F_COPY_A: if FON(F_COPY_A) { M c; c.emplace(ck, cv); c = m; ret = c.size() == m.size(); } return 0;
  case F_RESERVE: m.reserve(num * 20 + 1); return 0;
  case F_REHASH: m.rehash(num * 20 + 1); return 0;
  case F_SHRINK: m.shrink_to_fit(); return 0;
  case F_MLF: m.max_load_factor(0.5f); return 0;
  case F_IL_C: if FON(F_IL_C) { M c({a[0], a[1]}); } return 0;
  case F_RANGE_C: if FON(F_RANGE_C) { M c(a + 0, a + 2); } return 0;
  case F_INS_RANGE: if FON(F_INS_RANGE) { m.insert(a + 0, a + 2); return 4; } break;
  case F_ERASE: ret = m.erase(ck) != 0; return 16;
  case F_CLEAR: m.clear(); return 32;
  case F_FIND: ret = m.find(ck) != m.end(); return 0;
  case F_CAP_C: { M c(num * 20 + 1); ret = c.empty(); } return 0;
  }
  return 0;
}
SX_ENTRY t_fault() {
  sx_live = 0; t_live = 0;
  unsigned K = sx_param(1), n = sx_param(0); uint64_t fops = (sx_param(11) ? sx_param(11) : ~0ull) & ~(NO_FOPS) & ((1ull << NFOPS) - 1);
  setup(K, sx_param(3), sx_param(4), sx_param(5), sx_param(6)); unsigned P = sx_param(4), S = sx_param(6), flags = sx_param(7), cap = sx_param(8);
  {
    Model md; g_m = cap ? new Map(cap) : new Map(); Map &m = *g_m;
    for (unsigned i = 0; i < P; i++) pin(md, 16 + i);
    for (unsigned i = 0; i < sx_param(10); i++) { unsigned k = 16 + (i * 7) % P; unsigned e = md.del(k); sx_check(m.erase(mkKey(k)) == e, "erase(key) returns the number of elements removed"); }
    for (unsigned i = 0; i < n; i++) { if (i >= K) break; uint32_t v = symVal(); m.emplace(mkKey(i), mkVal(v)); md.put(i, v); } // n free elements
    { unsigned cnt = __builtin_popcountll(fops), sel = sx_pick("op", 8, cnt), op = 0; for (uint64_t q = fops;; q &= q - 1) { op = __builtin_ctzll(q); if (!sel--) break; }
      unsigned k = sx_pick("key", 8, (n + 1 < K ? n + 1 : K)), k2 = K - 1, num = op == F_RESERVE || op == F_REHASH || op == F_CAP_C ? sx_pick("num", 8, 4) : 0; uint32_t v = symVal(), w = symVal();
      { const Key ck = mkKey(k); Key rk = mkKey(k); const Val cv = mkVal(v); Val rv = mkVal(v); const KVp a[2] = {KVp(mkKey(k), mkVal(v)), KVp(mkKey(k2), mkVal(w))};
        bool threw = false, ret = false; int kind = 0; unsigned pts = sx_param(12) ? sx_param(12) : 4, at = sx_pick("failat", 8, pts); bool alloc = sx_flag("allocfails");
        long base = sx_live, tbase = t_live; size_t sz = m.size();
        if (alloc) sx_fail_at = at; else t_fail_at = at;
        try { kind = fstep(m, op, ck, rk, cv, rv, a, num, ret); } catch (const std::bad_alloc &) { threw = true; }
#ifndef BOOM_BAD_ALLOC
        catch (const Boom &) { threw = true; }
#endif
        sx_assume(at == pts - 1 || (alloc ? sx_fail_at : t_fail_at) < 0); // when nothing failed, one representative is enough
        sx_fail_at = -1; t_fail_at = -1;
        if (threw) { // all or nothing, except for a range
          sx_reach("an operation failed");
          if (op == F_INS_RANGE) { if (m.size() != sz) { unsigned kk = k; bool f1 = m.find(mkKey(k)) != m.end(); if (f1 && !md.in[k]) md.put(kk, v); if (m.size() != md.cnt && !md.in[k2]) md.put(k2, w); } }
          else { sx_check(m.size() == sz, "an operation that throws leaves the map as it was"); sx_check(t_live == tbase, "an operation that throws leaves no element behind"); }
        } else {
          if (kind & 1) { bool fresh = md.put(k, kind & 8 ? valId(Val()) : v); sx_check(ret == fresh, "the insertion reports whether the key was new"); }
          if (kind & 2) { sx_check(ret == !md.in[k], "insert_or_assign reports whether it inserted"); md.set(k, v); }
          if (kind & 4) { md.put(k, v); md.put(k2, w); }
          if (kind & 16) { sx_check(ret == (md.del(k) != 0), "erase reports whether the key was present"); }
          if (kind & 32) md.clear();
        }
        (void)base;
      }
    }
    sx_check(m.size() == md.cnt, "size() is the number of distinct keys present");
    if (flags & 4) audit_lookup(m, md); else audit(m, md);
    for (unsigned i = 0; i < S; i++) pin(md, 16 + P + i); // and the map goes on working
    for (unsigned i = 0; i < K; i++) { unsigned e = md.del(i); sx_check(m.erase(mkKey(i)) == e, "erase(key) returns the number of elements removed"); }
    if (flags & 4) audit_lookup(m, md); else audit(m, md);
    delete g_m;
  }
  sx_check(sx_live == 0, "all memory is returned when the map is destroyed"); sx_check(t_live == 0, "every constructed key and value is destroyed exactly once");
  sx_reach("end");
}
