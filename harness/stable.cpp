// Elements stay where they are: which operations may move the elements, and which may not.
#include "map.h"
typedef Map::iterator It;
struct Where { const void *k[NK], *v[NK]; It it[NK]; size_t buckets; };
static Where W;
static __attribute__((noinline)) void note(Map &m, const Model &md) {
  W.buckets = m.bucket_count(); each_key([&](unsigned k) { if (!md.in[k]) return; auto it = m.find(mkKey(k)); sx_check(it != m.end(), "find() returns the element"); W.it[k] = it; W.k[k] = &it->first; W.v[k] = &it->second; });
}
static __attribute__((noinline)) void same(Map &m, const Model &md, unsigned fresh, bool its, const char *msg) { // (key fresh was inserted since)
  each_key([&](unsigned k) {
    if (!md.in[k] || k == fresh) return;
    auto it = m.find(mkKey(k)); sx_check(it != m.end() && &it->first == W.k[k] && &it->second == W.v[k], msg); sx_check(keyId(it->first) == k && valId(it->second) == md.val[k], msg);
    if (its) { sx_check(W.it[k] == it && &W.it[k]->first == W.k[k] && W.it[k] != m.end(), msg); }
  });
}
enum { S_FIND, S_AT, S_INDEX, S_INSERT, S_INSERT_R, S_EMPLACE, S_TRY, S_IOA, S_HINT, S_RANGE, S_ERASE_K, S_ERASE_I, S_ERASE_CI, S_ERASE_R, S_ERASE_IF, S_RESERVE, S_MOVE_C, S_MOVE_A, S_SWAP, S_SWAP_S, S_COPY, S_ITER, S_CLEAR, S_N };
static const char *NOMOVE = "an operation that neither inserts nor removes leaves every element where it is";
static const char *INSMOVE = "an insertion that does not enlarge the table leaves the other elements where they are";
static const char *ERAMOVE = "erasing leaves the other elements where they are";
static const char *TAKEMOVE = "a move or swap hands the elements over where they are";
#define STAY (MAP != 1) /* robin_hash_map moves elements to keep its probe distances short, and to keep its elements together */
static void inserted(Map &m, Model &md, unsigned k, uint32_t v, bool had, size_t reserved) {
  if (had) { sx_check(m.bucket_count() == W.buckets, "an operation that neither inserts nor removes does not resize the table"); same(m, md, NK, true, NOMOVE); return; }
  md.set(k, v); if (m.size() <= reserved) sx_check(m.bucket_count() == W.buckets, "up to the number of elements reserved for, the table is not resized");
  if (STAY && m.bucket_count() == W.buckets) same(m, md, k, true, INSMOVE);
}
SX_ENTRY t_stable() {
  sx_live = 0;
  unsigned n = sx_param(0), K = sx_param(1); uint32_t ops = sx_param(2); unsigned pat = sx_param(3), P = sx_param(4), pe = sx_param(5), nsel = sx_param(6), cap = sx_param(7), fill = sx_param(8);
  setup(K, pat, P, pat, fill);
  {
    Model md; g_m = new Map(); unsigned used = 0; size_t reserved = 0;
    for (unsigned i = 0; i < P; i++) pin(md, 16 + i);
    for (unsigned i = 0; i < pe; i++) { unsigned k = 16 + (i * 7) % P; sx_check(g_m->erase(mkKey(k)) == md.del(k), "erase(key) returns the number of elements removed"); }
    if (cap) { unsigned d = sx_pick("more", 8, cap); reserved = g_m->size() + d; g_m->reserve(reserved); }
    for (unsigned i = 0; i < n; i++) {
      unsigned cnt = __builtin_popcount(ops), sel = cnt > 1 ? sx_pick("op", 8, cnt) : 0, op = 0; for (uint32_t q = ops;; q &= q - 1) { op = __builtin_ctz(q); if (!sel--) break; }
      unsigned k = 0, lim = used + 1 < K ? used + 1 : K, x = sx_pick("key", 8, lim + nsel); if (x < lim) { k = x; if (k == used && used < K) used++; } else { unsigned j = x - lim; k = 16 + (nsel >= P ? j : j * (P - 1) / (nsel > 1 ? nsel - 1 : 1)); }
      Map &m = *g_m; const Map &c = m; note(m, md); uint32_t v = valId(mkVal(77 + i)); bool had = md.in[k]; const Key key = mkKey(k);
      switch (op) {
        case S_FIND: (void)m.find(key); (void)c.find(key); (void)m.count(key); (void)m.contains(key); inserted(m, md, k, v, true, reserved); break;
        case S_AT: try { (void)m.at(key); (void)c.at(key); } catch (const std::out_of_range &) {} inserted(m, md, k, v, true, reserved); break;
        case S_INDEX: { Val &r = m[key]; if (!had) r = mkVal(v); inserted(m, md, k, v, had, reserved); break; }
        case S_INSERT: { const KVp p(key, mkVal(v)); m.insert(p); inserted(m, md, k, v, had, reserved); break; }
        case S_INSERT_R: m.insert(KVp(key, mkVal(v))); inserted(m, md, k, v, had, reserved); break;
        case S_EMPLACE: m.emplace(mkKey(k), mkVal(v)); inserted(m, md, k, v, had, reserved); break;
        case S_TRY: m.try_emplace(key, mkVal(v)); inserted(m, md, k, v, had, reserved); break;
        case S_IOA: m.insert_or_assign(key, mkVal(v)); if (had) md.set(k, v); inserted(m, md, k, v, had, reserved); break;
        case S_HINT: m.emplace_hint(m.begin(), mkKey(k), mkVal(v)); inserted(m, md, k, v, had, reserved); break;
        case S_RANGE: { const KVp p[2] = {KVp(key, mkVal(v)), KVp(mkKey(k), mkVal(v))}; m.insert(p, p + 2); if (!had || m.bucket_count() == W.buckets) inserted(m, md, k, v, had, 0); break; } // (may provide for two more)
        case S_ERASE_K: m.erase(key); md.del(k); if (!had) inserted(m, md, k, v, true, 0); else { sx_check(m.bucket_count() == W.buckets, "erasing does not resize the table"); if (STAY) same(m, md, NK, true, ERAMOVE); } break;
        case S_ERASE_I: case S_ERASE_CI: case S_ERASE_R: { if (!had) break; auto it = m.find(key); if (op == S_ERASE_I) m.erase(it); else if (op == S_ERASE_CI) m.erase(typename Map::const_iterator(it)); else { auto e = it; ++e; m.erase(it, e); } md.del(k); sx_check(m.bucket_count() == W.buckets, "erasing does not resize the table"); if (STAY) same(m, md, NK, true, ERAMOVE); break; }
        case S_ERASE_IF: for (unsigned i = 0; i < NK; i++) if (md.in[i] && i % 2) md.del(i); erase_if(m, [](const KVp &p) { return keyId(p.first) % 2 == 1; }); sx_check(m.bucket_count() == W.buckets, "erasing does not resize the table"); if (STAY) same(m, md, NK, true, ERAMOVE); break;
        case S_RESERVE: { unsigned q = sx_pick("reserve", 8, 3); size_t r = q == 0 ? 0 : q == 1 ? m.size() : m.size() + 1; m.reserve(r); if (r > reserved || m.bucket_count() < W.buckets) reserved = r; if (m.bucket_count() == W.buckets) same(m, md, NK, true, "reserve() that does not resize the table leaves every element where it is"); break; }
        case S_MOVE_C: { Map *q = new Map(std::move(m)); sx_check(q->bucket_count() == W.buckets, TAKEMOVE); delete g_m; g_m = q; same(*g_m, md, NK, false, TAKEMOVE); break; }
        case S_MOVE_A: { Map *q = new Map(); q->emplace(mkKey(k), mkVal(1)); *q = std::move(m); sx_check(q->bucket_count() == W.buckets, TAKEMOVE); delete g_m; g_m = q; same(*g_m, md, NK, false, TAKEMOVE); break; }
        case S_SWAP: case S_SWAP_S: { Map *q = new Map(); q->emplace(mkKey(k), mkVal(1)); const void *a = &*q->begin(); size_t b = q->bucket_count(); if (op == S_SWAP) m.swap(*q); else { using std::swap; swap(m, *q); } sx_check(q->bucket_count() == W.buckets && m.bucket_count() == b && &*m.begin() == a, TAKEMOVE); delete g_m; g_m = q; same(*g_m, md, NK, false, TAKEMOVE); break; }
        case S_COPY: { Map d(m); Map e; e = m; sx_check(d.size() == m.size() && e.size() == m.size(), "a copy holds as many elements"); inserted(m, md, k, v, true, 0); break; }
        case S_ITER: { unsigned z = 0; for (auto &p : m) z += &p.second != nullptr; for (auto it = c.begin(); it != c.end(); ++it) z--; sx_check(z == 0, "both kinds of iteration yield as many elements"); inserted(m, md, k, v, true, 0); break; }
        case S_CLEAR: m.clear(); md.clear(); reserved = 0; sx_check(m.size() == 0, "clear() empties the map"); break;
      }
      sx_check(g_m->size() == md.cnt, "size() is the number of distinct keys present");
    }
    note(*g_m, md);
    for (unsigned i = 0; i < fill && (!cap || g_m->size() < reserved); i++) { size_t b = g_m->bucket_count(); pin(md, 16 + P + i); if (cap) sx_check(g_m->bucket_count() == b, "up to the number of elements reserved for, the table is not resized"); }
    if (cap && STAY) each_key([&](unsigned k) { if (md.in[k] && k < 16 + P) { auto it = g_m->find(mkKey(k)); sx_check(it != g_m->end() && &it->first == W.k[k] && it == W.it[k], INSMOVE); } });
    audit_lookup(*g_m, md); delete g_m;
  }
  sx_check(sx_live == 0, "all memory is returned when the map is destroyed"); sx_check(t_live == 0, "every constructed key and value is destroyed exactly once");
  sx_reach("end");
}
