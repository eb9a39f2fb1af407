// Stateful hash functions, equalities and allocators: what goes along with a copy, a move, an assignment, a swap or a construction.
// Parameters: 0 pattern, 1 keys of the first map, 2 pattern, 3 keys of the second map, 4 free keys, 5 operation, 6 allocator (0: equal, 1: another one), 7 further keys inserted afterwards, 8 keys erased again at first
#ifndef ALLOC
#define ALLOC 1
#endif
#define SALTED
#include "map.h"
enum { COPY_C, COPY_AL, MOVE_C, MOVE_AL, COPY_A, MOVE_A, SWAP_M, SWAP_S, RANGE_C, RANGE_CA, RANGE_CHA, IL_C, IL_CA, IL_CHA, CAP_A, CAP_HA, ALLOC_C, SELF_A, RANGE_A, SELF_MOVE, NSTATE };
static float mlf_a, mlf_b, mlf_d; static unsigned P, S, Q; static Model ma, mb;
static Map make(unsigned salt, unsigned al) { return Map(0, Hs(salt), Eq(salt), Alc(al)); }
static void fill(Map &m, Model &md, unsigned from, unsigned n) { for (unsigned i = from; i < from + n; i++) { uint32_t v = valId(mkVal(i * 17 + 3)); auto r = m.emplace(mkKey(i), mkVal(v)); bool fresh = md.put(i, v); sx_check(r.second == fresh && keyId(r.first->first) == i && valId(r.first->second) == md.val[i], "the insertion gives the element"); } }
static void is(Map &m, const Model &md, unsigned salt, unsigned al, const char *what) {
  sx_check(m.hash_function().salt == salt, "the hash function goes along with the elements (a copied, moved, swapped or given hash function is the one in use)"); sx_check(m.key_eq().salt == salt, "the equality goes along with the elements"); sx_check(m.max_load_factor() == (salt == 2 ? mlf_b : salt == 1 ? mlf_a : mlf_d), "the maximum load factor goes along with the elements"); if (al) sx_check(m.get_allocator().id == al, "the allocator is the one that the allocator's traits ask for"); audit(m, md); (void)what;
}
static void go_on(Map &m, Model &md) { // the map works as before
  fill(m, md, 16 + P + S, Q); for (unsigned k = 0; k < univ_free; k++) { unsigned e = md.del(k); sx_check(m.erase(mkKey(k)) == e, "erase(key) returns the number of elements removed"); } m.shrink_to_fit(); audit(m, md);
}
SX_ENTRY t_state() {
  sx_live = 0; P = (unsigned)sx_param(1); S = (unsigned)sx_param(3); Q = (unsigned)sx_param(7); unsigned K = (unsigned)sx_param(4), op = (unsigned)sx_param(5), other = sx_param(6) ? 2 : 1, pe = (unsigned)sx_param(8);
  setup(K, (unsigned)sx_param(0), P, (unsigned)sx_param(2), S + Q); ma = Model(); mb = Model();
  {
    Map a = make(1, 1), b = make(2, other); mlf_d = a.max_load_factor(); b.max_load_factor(MAP == 1 ? 0.375f : 0.625f); a.max_load_factor(MAP == 1 ? 0.5625f : 0.75f); mlf_a = a.max_load_factor(); mlf_b = b.max_load_factor(); sx_check(mlf_a != mlf_b && mlf_a != mlf_d, "max_load_factor is set");
    for (unsigned i = 0; i < P; i++) fill(a, ma, 16 + i, 1);
    for (unsigned i = 0; i < S; i++) fill(b, mb, 16 + P + i, 1);
    for (unsigned i = 0; i < pe; i++) { a.erase(mkKey(16 + i)); ma.del(16 + i); }
    for (unsigned k = 0; k < K; k++) { fill(a, ma, k, 1); fill(b, mb, k, 1); }
    Model e; unsigned af = 0; 
    switch (op) {
    case COPY_C: { Map c(b); is(c, mb, 2, ALLOC == 7 ? 9 : other, ""); Model mc = mb; go_on(c, mc); is(b, mb, 2, other, ""); } break;
    case COPY_AL: { Map c(b, Alc(3 - other)); is(c, mb, 2, 3 - other, ""); Model mc = mb; go_on(c, mc); Map d(b, Alc(other)); is(d, mb, 2, other, ""); is(b, mb, 2, other, ""); } break;
    case MOVE_C: { Map c(std::move(b)); is(c, mb, 2, other, ""); go_on(c, mb); mb.clear(); audit(b, mb); } break;
    case MOVE_AL: { Map c(std::move(a), Alc(other)); is(c, ma, 1, other, ""); go_on(c, ma); a.clear(); ma.clear(); audit(a, ma); } break;
    case COPY_A: a = b; is(a, mb, 2, AL_COPY ? other : 1, ""); is(b, mb, 2, other, ""); ma = mb; break;
    case MOVE_A: a = std::move(b); is(a, mb, 2, AL_MOVE ? other : 1, ""); b.clear(); ma = mb; mb.clear(); audit(b, mb); break;
    case SWAP_M: case SWAP_S: if (!AL_SWAP) sx_assume(other == 1); if (op == SWAP_M) a.swap(b); else std::swap(a, b); is(a, mb, 2, other, ""); is(b, ma, 1, 1, ""); { Model t = ma; ma = mb; mb = t; } break;
    case SELF_A: { Map &r = a; a = r; is(a, ma, 1, 1, ""); a.swap(r); is(a, ma, 1, 1, ""); } break;
    case SELF_MOVE: { Map &r = a; a = std::move(r); a.clear(); ma.clear(); audit(a, ma); } break;
    case RANGE_C: { Map c(b.begin(), b.end(), 5, Hs(7), Eq(7), Alc(3)); is(c, mb, 7, 3, ""); Model mc = mb; go_on(c, mc); } break;
    case RANGE_CA: { Map c(b.begin(), b.end(), 0, Alc(3)); is(c, mb, 0, 3, ""); Model mc = mb; go_on(c, mc); } break;
    case RANGE_CHA: { Map c(b.begin(), b.end(), 40, Hs(0), Alc(3)); is(c, mb, 0, 3, ""); Model mc = mb; go_on(c, mc); } break;
#if MAP == 15 || MAP == 16
    case RANGE_A: { Map c(b.begin(), b.end(), Alc(3)); is(c, mb, 0, 3, ""); Model mc = mb; go_on(c, mc); } break;
#endif
    case IL_C: { Map c({KVp(mkKey(0), mkVal(5)), KVp(mkKey(1), mkVal(6)), KVp(mkKey(0), mkVal(7))}, 3, Hs(7), Eq(7), Alc(3)); e.put(0, valId(mkVal(5))); e.put(1, valId(mkVal(6))); is(c, e, 7, 3, ""); go_on(c, e); } break;
    case IL_CA: { Map c({KVp(mkKey(0), mkVal(5)), KVp(mkKey(1), mkVal(6)), KVp(mkKey(0), mkVal(7))}, 0, Alc(3)); e.put(0, valId(mkVal(5))); e.put(1, valId(mkVal(6))); is(c, e, 0, 3, ""); go_on(c, e); } break;
    case IL_CHA: { Map c({KVp(mkKey(0), mkVal(5)), KVp(mkKey(1), mkVal(6)), KVp(mkKey(0), mkVal(7))}, 70, Hs(0), Alc(3)); e.put(0, valId(mkVal(5))); e.put(1, valId(mkVal(6))); is(c, e, 0, 3, ""); go_on(c, e); } break;
#if MAP == 15 || MAP == 16
    case CAP_A: { Map c(40, Alc(3)); is(c, e, 0, 3, ""); go_on(c, e); } break;
    case CAP_HA: { Map c(40, Hs(0), Alc(3)); is(c, e, 0, 3, ""); go_on(c, e); } break;
#endif
    case ALLOC_C: { Map c((Alc(3))); is(c, e, 0, 3, ""); go_on(c, e); } break;
    }
    (void)af; go_on(a, ma); go_on(b, mb); audit(a, ma);
  }
  sx_check(sx_live == 0, "all memory is returned when the maps are destroyed"); sx_check(t_live == 0, "every constructed key and value is destroyed exactly once"); sx_reach("end");
}
