// Histories of hash-map operations, checked against the reference dictionary.
// Parameters: 0 number of free operations, 1 free keys, 2 operation mask, 3 pattern of the prefix keys, 4 prefix keys,
// 5 pattern of the suffix keys, 6 suffix keys, 7 audit flags, 8 initial capacity, 9 prefix keys the operations may use,
// 10 prefix keys erased again before the free operations, 11 operation mask of the last free operation (0: as 2),
// 12 rounds of erasing and re-inserting the prefix keys after the free operations (the table must not grow with their number)
#include "map.h"
enum { INSERT_C, INSERT_R, INSERT_MV, EMPLACE, EMPLACE_PW, EMPLACE_PAIR, TRY_C, TRY_R, INDEX_C, INDEX_R, IOA_C, IOA_R,
       INSERT_H, EMPLACE_H, TRY_H, IOA_H, ERASE_K, ERASE_I, ERASE_CI, FIND_W, CLEAR_F, CLEAR_T, RESERVE, REHASH, SHRINK, MLF,
       COPY_C, MOVE_C, COPY_A, MOVE_A, SWAP_M, SWAP_S, SELF_A, INS_RANGE, INS_IL, ERASE_RANGE, ERASE_IF, AT_W, ITER_W, RESERVE0,
       ASSIGN_IL, COPY_AL, MOVE_AL, INDEX_D, INSERT_CM, RANGE_C, IL_C, TRY_D, SHRINK_RO,
       INSERT_HR, INSERT_HM, TRY_HC, IOA_HC, EMPLACE_CV, TRY_CV, IOA_CV, ERASE_KEYS, ERASE_MID, EQ_RANGE, INS_ALW, RITER, REH_RO, SWAP_A, NOPS };
struct Cv { uint32_t v; operator Val() const { return mkVal(v); } }; // a value of another type
#define B(x) (1ull << (x))
#define ALLOPS (B(NOPS) - 1)
#ifndef NO_OPS
#define NO_OPS 0ull
#endif
#if MAP == 15 || MAP == 16
#define AVAIL (ALLOPS & ~(NO_OPS | B(EQ_RANGE) | B(INS_ALW) | B(RITER) | B(REH_RO)))
#elif MAP == 1
#define AVAIL (ALLOPS & ~NO_OPS)
#elif MAP == 0
#define AVAIL (ALLOPS & ~(NO_OPS | B(ERASE_IF) | B(ERASE_KEYS) | B(INS_ALW) | B(RITER) | B(REH_RO)))
#elif MAP == 216
#define AVAIL ((B(49) - 1) & ~(NO_OPS | B(IOA_H) | B(ERASE_I) | B(ERASE_CI) | B(COPY_A) | B(MOVE_A) | B(MOVE_C) | B(SWAP_M) | B(SWAP_S) | B(SELF_A) | B(ERASE_RANGE) | B(ERASE_IF) | B(AT_W) | B(COPY_AL) | B(MOVE_AL) | B(RANGE_C) | B(ASSIGN_IL)))
#elif MAP == 116
#define AVAIL ((B(49) - 1) & ~(NO_OPS | B(IOA_H) | B(ERASE_I) | B(ERASE_CI) | B(COPY_C) | B(COPY_A) | B(MOVE_A) | B(SWAP_M) | B(SWAP_S) | B(SELF_A) | B(ERASE_RANGE) | B(ERASE_IF) | B(COPY_AL) | B(MOVE_AL) | B(RANGE_C) | B(ASSIGN_IL)))
#endif
#define ON(x) constexpr ((AVAIL & B(x)) != 0)
static void chk_src(bool fresh, const Key &k, unsigned id, const Val &v, uint32_t vid) { // a refused insertion must not consume its arguments
  if (!fresh) { sx_check(keyId(k) == id, "try_emplace leaves the key argument alone when the key is present"); sx_check(valId(v) == vid, "try_emplace leaves the value argument alone when the key is present"); }
}
#if MAP == 216 || MAP == 116
#define BUCKETS(m) (m).slot_capacity()
#else
#define BUCKETS(m) (m).bucket_count()
#endif
static void within_limit(Map &m, size_t n) { // n elements, and those present, within the load limit
  double room = (double)BUCKETS(m) * m.max_load_factor(); size_t most = n > m.size() ? n : m.size(); // (the smallest tables of the group maps may fill up)
  if (!((MAP == 15 || MAP == 16) && BUCKETS(m) <= 32)) sx_check((double)most <= room, "after reserve, rehash or shrink_to_fit the elements asked for and those present are within the load limit");
}
static unsigned cap_pick(const char *n) { static const uint16_t t[] = {0, 1, 2, 3, 5, 14, 28, 29, 30, 33, 65, 130}; return t[sx_pick(n, 8, 12)]; }
template <class M> static void do_copy_checks(M &a, M &c, Model &md) { // c is a copy of a: equal, and independent
  audit(c, md); audit(a, md);
  for (unsigned k = 0; k < univ_free; k++) if (md.in[k]) { c.erase(mkKey(k)); break; }
  for (unsigned k = 0; k < univ_free; k++) if (md.in[k]) { Model m2 = md; m2.del(k); audit(c, m2); break; }
  audit(a, md);
}
template <class Map> static __attribute__((noinline)) void step(Map &m, Model &md, unsigned op, unsigned k) {
  switch (op) {
  case INSERT_C: if ON(INSERT_C) { uint32_t v = symVal(); const KVp p(mkKey(k), mkVal(v)); chk_ins(m, md, m.insert(p), k, v); sx_check(keyId(p.first) == k && valId(p.second) == v, "insert(const&) leaves its argument alone"); } break;
  case INSERT_R: if ON(INSERT_R) { uint32_t v = symVal(); chk_ins(m, md, m.insert(KVp(mkKey(k), mkVal(v))), k, v); } break;
  case INSERT_MV: if ON(INSERT_MV) { uint32_t v = symVal(); chk_ins(m, md, m.insert(KVm(mkKey(k), mkVal(v))), k, v); } break;
  case INSERT_CM: if ON(INSERT_CM) { uint32_t v = symVal(); const KVm p(mkKey(k), mkVal(v)); chk_ins(m, md, m.insert(p), k, v); sx_check(keyId(p.first) == k && valId(p.second) == v, "insert(const&) leaves its argument alone"); } break;
  case EMPLACE: if ON(EMPLACE) { uint32_t v = symVal(); chk_ins(m, md, m.emplace(mkKey(k), mkVal(v)), k, v); } break;
  case EMPLACE_PW: if ON(EMPLACE_PW) { uint32_t v = symVal(); Key key = mkKey(k); Val val = mkVal(v); chk_ins(m, md, m.emplace(std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(val)), k, v); sx_check(keyId(key) == k && valId(val) == v, "emplace from lvalues leaves them alone"); } break;
  case EMPLACE_PAIR: if ON(EMPLACE_PAIR) { uint32_t v = symVal(); KVm p(mkKey(k), mkVal(v)); chk_ins(m, md, m.emplace(p), k, v); sx_check(keyId(p.first) == k && valId(p.second) == v, "emplace(lvalue pair) leaves it alone"); } break;
  case TRY_C: if ON(TRY_C) { uint32_t v = symVal(); Key key = mkKey(k); Val val = mkVal(v); bool had = md.in[k]; chk_ins(m, md, m.try_emplace(key, val), k, v); sx_check(keyId(key) == k && valId(val) == v, "try_emplace from lvalues leaves them alone"); (void)had; } break;
  case TRY_R: if ON(TRY_R) { uint32_t v = symVal(); Key key = mkKey(k); Val val = mkVal(v); bool had = md.in[k]; chk_ins(m, md, m.try_emplace(std::move(key), std::move(val)), k, v); chk_src(!had, key, k, val, v); } break;
  case TRY_D: if ON(TRY_D) { chk_ins(m, md, m.try_emplace(mkKey(k)), k, 0); } break;
  case INDEX_C: if ON(INDEX_C) { uint32_t v = symVal(); const Key key = mkKey(k); m[key] = mkVal(v); md.set(k, v); sx_check(valId(m[key]) == v, "operator[] refers to the stored value"); sx_check(keyId(key) == k, "operator[](const&) leaves its argument alone"); } break;
  case INDEX_R: if ON(INDEX_R) { uint32_t v = symVal(); m[mkKey(k)] = mkVal(v); md.set(k, v); } break;
  case INDEX_D: if ON(INDEX_D) { uint32_t r = valId(m[mkKey(k)]); sx_check(r == (md.in[k] ? md.val[k] : 0u), "operator[] yields the stored value, or a default-constructed one for a new key"); md.put(k, 0); } break;
  case IOA_C: if ON(IOA_C) { uint32_t v = symVal(); bool had = md.in[k]; Key key = mkKey(k); auto r = m.insert_or_assign(key, mkVal(v)); md.set(k, v); sx_check(r.second == !had, "insert_or_assign reports whether it inserted"); chk_it(m, r.first, k, v, "insert_or_assign returns the element with the new value"); sx_check(keyId(key) == k, "insert_or_assign leaves an lvalue key alone"); } break;
  case IOA_R: if ON(IOA_R) { uint32_t v = symVal(); bool had = md.in[k]; auto r = m.insert_or_assign(mkKey(k), mkVal(v)); md.set(k, v); sx_check(r.second == !had, "insert_or_assign reports whether it inserted"); chk_it(m, r.first, k, v, "insert_or_assign returns the element with the new value"); } break;
  case INSERT_H: if ON(INSERT_H) { uint32_t v = symVal(); const KVp p(mkKey(k), mkVal(v)); auto it = m.insert(m.cbegin(), p); md.put(k, v); chk_it(m, it, k, md.val[k], "insert(hint) returns the element"); } break;
  case EMPLACE_H: if ON(EMPLACE_H) { uint32_t v = symVal(); auto it = m.emplace_hint(m.cend(), mkKey(k), mkVal(v)); md.put(k, v); chk_it(m, it, k, md.val[k], "emplace_hint returns the element"); } break;
  case TRY_H: if ON(TRY_H) { uint32_t v = symVal(); auto it = m.try_emplace(m.cbegin(), mkKey(k), mkVal(v)); md.put(k, v); chk_it(m, it, k, md.val[k], "try_emplace(hint) returns the element"); } break;
  case IOA_H: if ON(IOA_H) { uint32_t v = symVal(); auto it = m.insert_or_assign(m.cbegin(), mkKey(k), mkVal(v)); md.set(k, v); chk_it(m, it, k, v, "insert_or_assign(hint) returns the element"); } break;
  case ERASE_K: if ON(ERASE_K) { unsigned e = md.del(k); sx_check(m.erase(mkKey(k)) == e, "erase(key) returns the number of elements removed"); } break;
  case ERASE_I: case ERASE_CI: if ON(ERASE_I) {
    sx_assume(md.in[k]); // erase through an iterator, in the middle of an iteration: the remaining ones are each still visited once
    bool seen[NK]; for (unsigned i = 0; i < NK; i++) seen[i] = false; unsigned n = 0, todo = md.cnt; bool hit = false; auto it = m.begin();
    while (it != m.end()) {
      unsigned j = keyId(it->first); sx_check(j < NK && !seen[j] && md.in[j], "an erasing iteration visits each element once"); if (j >= NK) return; seen[j] = true; n++;
      if (j == k) { hit = true; if (op == ERASE_I) it = m.erase(it); else { typename Map::const_iterator ci = it; it = m.erase(ci); } md.del(k); } else ++it;
      if (n > NK) return; }
    sx_check(hit && n == todo, "an erasing iteration visits every element");
  } break;
  case FIND_W: if ON(FIND_W) { auto it = m.find(mkKey(k)); sx_check((it != m.end()) == md.in[k], "find() agrees"); if (md.in[k]) { uint32_t v = symVal(); it->second = mkVal(v); md.val[k] = v; } } break;
  case AT_W: if ON(AT_W) { sx_assume(md.in[k]); uint32_t v = symVal(); m.at(mkKey(k)) = mkVal(v); md.val[k] = v; } break;
  case ITER_W: if ON(ITER_W) { unsigned n = 0; for (auto it = m.begin(); it != m.end(); ++it) { uint32_t v = symVal(); unsigned j = keyId(it->first); if (j >= NK) return; it->second = mkVal(v); md.val[j] = v; if (++n > NK) return; } } break;
  case CLEAR_F: if ON(CLEAR_F) { m.clear(); md.clear(); sx_check(m.size() == 0 && m.empty() && m.begin() == m.end(), "clear() empties the map"); } break;
#if MAP == 0
  case CLEAR_T: m.clear(); md.clear(); break;
  case SHRINK: case SHRINK_RO: break;
#else
  case CLEAR_T: if ON(CLEAR_T) { m.clear(true); md.clear(); sx_check(m.size() == 0 && m.empty() && m.begin() == m.end(), "clear(true) empties the map"); } break;
  case SHRINK_RO: if ON(SHRINK_RO) { m.shrink_to_fit(true); sx_check(BUCKETS(m) >= m.size(), "shrink_to_fit leaves room for the elements"); } break;
  case SHRINK: if ON(SHRINK) { m.shrink_to_fit(); sx_check(BUCKETS(m) >= m.size(), "shrink_to_fit leaves room for the elements"); within_limit(m, 0); } break;
#endif
  case RESERVE: if ON(RESERVE) { unsigned n = cap_pick("reserve"); sx_assume(n); m.reserve(n); sx_check(BUCKETS(m) >= n && BUCKETS(m) >= m.size(), "reserve(n) leaves room for n elements"); within_limit(m, n); } break;
  case RESERVE0: if ON(RESERVE0) { m.reserve(0); sx_check(BUCKETS(m) >= m.size(), "reserve(0) leaves room for the elements"); within_limit(m, 0); } break;
  case REHASH: if ON(REHASH) { unsigned n = cap_pick("rehash"); m.rehash(n); sx_check(BUCKETS(m) + 2 >= n && BUCKETS(m) >= m.size(), "rehash(n) provides about n buckets and room for the elements"); within_limit(m, 0); } break;
  case MLF: if ON(MLF) { static const float f[] = {0.1f, 0.5f, 0.51f, 0.7f, 0.875f, 1.0f, 4.0f}; float x = f[sx_pick("mlf", 8, 7)]; m.max_load_factor(x); sx_check(m.max_load_factor() > 0.0f && (MAP == 0 || m.max_load_factor() <= 1.0f), "max_load_factor stays in range"); } break;
  case COPY_C: if ON(COPY_C) { Map *c = new Map(m); do_copy_checks(m, *c, md); delete c; c = new Map(m); delete g_m; g_m = c; } break;
  case COPY_AL: if ON(COPY_AL) { Map *c = new Map(m, m.get_allocator()); do_copy_checks(m, *c, md); delete c; } break;
  case MOVE_C: case MOVE_AL: {
    Map *c = nullptr; if (op == MOVE_C) { if ON(MOVE_C) c = new Map(std::move(m)); } else if ON(MOVE_AL) { auto al = m.get_allocator(); c = new Map(std::move(m), al); }
    if (!c) break;
    audit(*c, md); Model e; audit(m, e); // the source is empty, and usable
    uint32_t v = symVal(); chk_ins(m, e, m.emplace(mkKey(k), mkVal(v)), k, v); audit(m, e); audit(*c, md); delete g_m; g_m = c; } break;
  case COPY_A: case MOVE_A: if ON(COPY_A) { // onto a map with other contents
    Map *c = new Map(); Model e; for (unsigned j = 0; j < 2; j++) { unsigned q = (k + j * 5) % (univ_free ? univ_free : 1); uint32_t v = symVal(); if (e.put(q, v)) c->emplace(mkKey(q), mkVal(v)); }
    if (op == COPY_A) { *c = m; do_copy_checks(m, *c, md); *c = m; } else { *c = std::move(m); audit(*c, md); for (unsigned q = 0; q < univ_free; q++) (void)m.find(mkKey(q)); m.clear(); Model z; audit(m, z); uint32_t v = symVal(); chk_ins(m, z, m.emplace(mkKey(k), mkVal(v)), k, v); audit(m, z); }
    delete g_m; g_m = c; } break;
  case SWAP_M: case SWAP_S: if ON(SWAP_M) {
    Map *c = new Map(); Model e; unsigned sw = sx_pick("swapwith", 2, 2) ; for (unsigned j = 0; j < sw; j++) { uint32_t v = symVal(); if (e.put(k, v)) c->emplace(mkKey(k), mkVal(v)); }
    if (op == SWAP_M) m.swap(*c); else std::swap(m, *c);
    audit(*c, md); audit(m, e); uint32_t v = symVal(); chk_ins(m, e, m.emplace(mkKey(0), mkVal(v)), 0, v); audit(m, e); audit(*c, md);
    delete g_m; g_m = c; } break;
  case SELF_A: if ON(SELF_A) { Map &r = m; m = r; audit(m, md); m.swap(r); } break;
  case INS_RANGE: if ON(INS_RANGE) { unsigned q = sx_pick("key", 8, univ_free); uint32_t v = symVal(), w = symVal(), x = symVal(); KVp a[3] = {KVp(mkKey(k), mkVal(v)), KVp(mkKey(q), mkVal(w)), KVp(mkKey(k), mkVal(x))}; unsigned n = sx_pick("len", 2, 4); m.insert(a + 0, a + n); if (n > 0) md.put(k, v); if (n > 1) md.put(q, w); if (n > 2) md.put(k, x); } break;
  case INS_IL: if ON(INS_IL) { unsigned q = sx_pick("key", 8, univ_free); uint32_t v = symVal(), w = symVal(); m.insert({KVp(mkKey(k), mkVal(v)), KVp(mkKey(q), mkVal(w))}); md.put(k, v); md.put(q, w); } break;
  case RANGE_C: case IL_C: {
    unsigned q = sx_pick("key", 8, univ_free); uint32_t v = symVal(), w = symVal(); Map *c = nullptr;
    if (op == RANGE_C) { if ON(RANGE_C) { KVp a[2] = {KVp(mkKey(k), mkVal(v)), KVp(mkKey(q), mkVal(w))}; c = new Map(a + 0, a + 2); } } else if ON(IL_C) c = new Map({KVp(mkKey(k), mkVal(v)), KVp(mkKey(q), mkVal(w))});
    if (!c) break; Model e; e.put(k, v); e.put(q, w); audit(*c, e); audit(m, md); delete c; } break;
  case ASSIGN_IL: if ON(ASSIGN_IL) { unsigned q = sx_pick("key", 8, univ_free); uint32_t v = symVal(), w = symVal(); m = {KVp(mkKey(k), mkVal(v)), KVp(mkKey(q), mkVal(w))}; md.clear(); md.put(k, v); md.put(q, w); } break;
#if MAP == 15 || MAP == 16 || MAP == 1 || MAP == 0
  case ERASE_RANGE: if ON(ERASE_RANGE) { // [begin, the element with key k)
    sx_assume(md.in[k]); auto last = m.find(mkKey(k)); Model e = md; for (auto it = m.begin(); it != last; ++it) { unsigned j = keyId(it->first); if (j >= NK) return; e.del(j); }
    if (sx_flag("all")) { m.erase(m.begin(), m.end()); e.clear(); } else m.erase(m.begin(), last); md = e; } break;
#if MAP != 0
  case ERASE_IF: if ON(ERASE_IF) { bool odd = sx_flag("odd"); unsigned n = 0; Model e = md; each_key([&](unsigned j) { if ((j & 1) == odd) n += e.del(j); }); size_t r = std::erase_if(m, [odd](const KVp &p) { return (keyId(p.first) & 1) == odd; }); sx_check(r == n, "erase_if returns the number of elements removed"); md = e; } break;
#endif
#endif
  case INSERT_HR: if ON(INSERT_HR) { uint32_t v = symVal(); auto it = m.insert(m.cbegin(), KVp(mkKey(k), mkVal(v))); md.put(k, v); chk_it(m, it, k, md.val[k], "insert(hint) returns the element"); } break;
  case INSERT_HM: if ON(INSERT_HM) { uint32_t v = symVal(); auto it = m.insert(m.cend(), KVm(mkKey(k), mkVal(v))); md.put(k, v); chk_it(m, it, k, md.val[k], "insert(hint) returns the element"); } break;
  case TRY_HC: if ON(TRY_HC) { uint32_t v = symVal(); const Key key = mkKey(k); Val val = mkVal(v); bool had = md.in[k]; auto it = m.try_emplace(m.cend(), key, std::move(val)); md.put(k, v); chk_it(m, it, k, md.val[k], "try_emplace(hint) returns the element"); chk_src(!had, key, k, val, v); sx_check(keyId(key) == k, "try_emplace leaves an lvalue key alone"); } break;
  case IOA_HC: if ON(IOA_HC) { uint32_t v = symVal(); const Key key = mkKey(k); const Val val = mkVal(v); auto it = m.insert_or_assign(m.cbegin(), key, val); md.set(k, v); chk_it(m, it, k, v, "insert_or_assign(hint) returns the element"); sx_check(keyId(key) == k && valId(val) == v, "insert_or_assign leaves lvalues alone"); } break;
  case EMPLACE_CV: if ON(EMPLACE_CV) { uint32_t v = symVal(); chk_ins(m, md, m.emplace(mkKey(k), Cv{v}), k, v); } break;
  case TRY_CV: if ON(TRY_CV) { uint32_t v = symVal(); chk_ins(m, md, m.try_emplace(mkKey(k), Cv{v}), k, v); } break;
  case IOA_CV: if ON(IOA_CV) { uint32_t v = symVal(); bool had = md.in[k]; auto r = m.insert_or_assign(mkKey(k), Cv{v}); md.set(k, v); sx_check(r.second == !had, "insert_or_assign reports whether it inserted"); chk_it(m, r.first, k, v, "insert_or_assign returns the element with the new value"); } break;
  case ERASE_KEYS: if ON(ERASE_KEYS) { unsigned q = sx_pick("key", 8, univ_free), n = sx_pick("len", 2, 4); Key a[3] = {mkKey(k), mkKey(q), mkKey(k)}; unsigned e = 0; if (n > 0) e += md.del(k); if (n > 1) e += md.del(q); sx_check(m.erase(a + 0, a + n) == e, "erase(keys) returns the number of elements removed"); } break;
  case ERASE_MID: if ON(ERASE_MID) { // [the element with key k, two further or the end)
    sx_assume(md.in[k]); auto first = m.find(mkKey(k)), last = first; for (unsigned i = 0, n = sx_pick("len", 2, 4); i < n && last != m.end(); i++) { unsigned j = keyId(last->first); if (j >= NK) return; md.del(j); ++last; }
    bool rest[NK]; for (unsigned i = 0; i < NK; i++) rest[i] = false; for (auto it = last; it != m.end(); ++it) { unsigned j = keyId(it->first); if (j >= NK) return; rest[j] = true; }
    auto it = m.erase(first, last); for (; it != m.end(); ++it) { unsigned j = keyId(it->first); sx_check(j < NK && rest[j], "erase(first, last) returns the position from which exactly the elements behind the removed ones follow"); if (j >= NK) return; rest[j] = false; }
    for (unsigned i = 0; i < NK; i++) sx_check(!rest[i], "erase(first, last) returns the position from which all elements behind the removed ones follow"); } break;
  case EQ_RANGE: if ON(EQ_RANGE) { const Map &c = m; auto r = m.equal_range(mkKey(k)); auto s = c.equal_range(mkKey(k)); sx_check((r.first == r.second) == !md.in[k] && (s.first == s.second) == !md.in[k], "equal_range() is empty exactly for absent keys");
    if (md.in[k]) { chk_it(m, r.first, k, md.val[k], "equal_range() starts at the element"); auto n = r.first; ++n; sx_check(n == r.second, "equal_range() ends behind the element"); sx_check(s.first != c.end() && keyId(s.first->first) == k, "const equal_range() starts at the element"); auto o = s.first; ++o; sx_check(o == s.second, "const equal_range() ends behind the element"); } } break;
#if MAP == 1
  case INS_ALW: if ON(INS_ALW) { uint32_t v = symVal(); bool had = md.in[k]; const KVp p(mkKey(k), mkVal(v)); auto r = sx_flag("lvalue") ? m.insert_always(p) : m.insert_always(KVp(mkKey(k), mkVal(v))); md.set(k, v); sx_check(r.second == !had, "insert_always reports whether it inserted"); chk_it(m, r.first, k, v, "insert_always returns the element with the new value"); sx_check(keyId(p.first) == k && valId(p.second) == v, "insert_always(const&) leaves its argument alone"); } break;
  case RITER: if ON(RITER) { bool seen[NK]; for (unsigned i = 0; i < NK; i++) seen[i] = false; unsigned n = 0; for (auto it = m.end(); it != m.begin();) { --it; unsigned j = keyId(it->first); sx_check(j < NK && md.in[j] && !seen[j], "iterating backwards yields each present key once"); if (j >= NK) return; seen[j] = true; auto nx = it; ++nx; sx_check(nx != it, "++ moves on"); auto bk = nx; bk--; sx_check(bk == it, "-- undoes ++"); if (++n > NK) return; } sx_check(n == md.cnt, "iterating backwards yields every element"); } break;
  case REH_RO: if ON(REH_RO) { unsigned n = cap_pick("reserve"); m.reserve(n, true); sx_check(BUCKETS(m) >= n && BUCKETS(m) >= m.size(), "reserve(n) leaves room for n elements"); } break;
#endif
  case SWAP_A: if ON(SWAP_A) { Map *c = new Map(); Model e; uint32_t v = symVal(); if (sx_flag("one")) { e.put(k, v); c->emplace(mkKey(k), mkVal(v)); } swap(*c, m); audit(*c, md); audit(m, e); delete g_m; g_m = c; } break;
  default: break;
  }
}
// every operation that may run beside others on the same map
static __attribute__((noinline)) void read_only(Map &m, const Model &md) {
  audit(m, md); audit_at(m, md); const Map &c = m; size_t a = c.bucket_count(); (void)a; float f = c.load_factor() + c.max_load_factor(); (void)f; auto al = c.get_allocator(); auto h = c.hash_function(); auto e = c.key_eq(); (void)al; (void)h; (void)e;
#if MAP != 0 && MAP < 100
  { Map d(c); Model x = md; audit(d, x); Map t; t = c; audit(t, x); }
#endif
}
SX_ENTRY t_hist() {
  sx_live = 0;
  unsigned n = sx_param(0), K = sx_param(1); uint64_t ops = sx_param(2) & AVAIL, lops = sx_param(11) ? sx_param(11) & AVAIL : ops;
  unsigned pat = sx_param(3), P = sx_param(4), spat = sx_param(5), S = sx_param(6), flags = sx_param(7), cap = sx_param(8), nsel = sx_param(9), pe = sx_param(10), rounds = sx_param(12);
  setup(K, pat, P, spat, S);
  if (flags & 64) { { Map w; w.emplace(mkKey(0), mkVal(1)); w.clear(); } sx_freeze(2); } // no operation writes anything but the map it is called for: different maps can be used side by side
  {
    Model md; g_m = cap ? new Map(cap) : new Map(); unsigned used = 0;
    for (unsigned i = 0; i < P; i++) pin(md, 16 + i);
    for (unsigned i = 0; i < pe; i++) { unsigned k = 16 + (flags & 16 ? i : (i * 7) % P); unsigned e = md.del(k); sx_check(g_m->erase(mkKey(k)) == e, "erase(key) returns the number of elements removed"); }
    for (unsigned i = 0; i < n; i++) {
      uint64_t mask = i + 1 == n ? lops : ops; unsigned cnt = __builtin_popcountll(mask); if (!cnt) break;
      unsigned sel = cnt > 1 ? sx_pick("op", 8, cnt) : 0, op = 0; for (uint64_t q = mask;; q &= q - 1) { op = __builtin_ctzll(q); if (!sel--) break; }
      unsigned k = 0; bool nokey = (B(op) & (B(CLEAR_F) | B(CLEAR_T) | B(RESERVE) | B(REHASH) | B(SHRINK) | B(SHRINK_RO) | B(MLF) | B(COPY_C) | B(COPY_AL) | B(SELF_A) | B(RESERVE0) | B(ITER_W) | B(RITER) | B(REH_RO) | B(ERASE_IF))) != 0;
      if (!nokey) { // keys are interchangeable until used: a fresh one, one used before, or one of the prefix
        unsigned lim = used + 1 < K ? used + 1 : K; unsigned x = sx_pick("key", 8, lim + nsel);
        if (x < lim) { k = x; if (k == used && used < K) used++; } else { unsigned j = x - lim; k = 16 + (nsel >= P ? j : j * (P - 1) / (nsel > 1 ? nsel - 1 : 1)); }
      }
      step(*g_m, md, op, k); sx_check(g_m->size() == md.cnt, "size() is the number of distinct keys present");
      if (flags & 2) audit(*g_m, md);
    }
    for (unsigned r = 0; r < rounds; r++) {
      for (unsigned i = 0; i < P; i++) { unsigned k = 16 + (r & 1 ? i : (i * 7) % P); unsigned e = md.del(k); sx_check(g_m->erase(mkKey(k)) == e, "erase(key) returns the number of elements removed"); }
      for (unsigned i = 0; i < P; i++) pin(md, 16 + (r & 2 ? P - 1 - i : i));
    }
    if (rounds) sx_check(BUCKETS(*g_m) <= 8u * (P + K), "inserting and erasing the same keys again and again does not grow the table without limit");
    for (unsigned i = 0; i < S; i++) pin(md, 16 + P + i);
    if (MAP < 200 && !((ops | lops) & (B(MLF) | B(SHRINK_RO) | B(REH_RO)))) within_limit(*g_m, 0);
    if (flags & 1) audit_at(*g_m, md);
    if (flags & 32) { sx_freeze(1); read_only(*g_m, md); sx_freeze(0); } // no read-only operation writes: they can run side by side
    if (flags & 4) audit_lookup(*g_m, md); else if (flags & 8) audit_iter(*g_m, md); else audit(*g_m, md);
    delete g_m;
  }
  if (flags & 64) sx_freeze(0);
  sx_check(sx_live == 0, "all memory is returned when the map is destroyed"); sx_check(t_live == 0, "every constructed key and value is destroyed exactly once");
  sx_reach("end");
}
