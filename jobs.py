"""The properties and the symbolic-execution jobs that decide them."""
OPS = "INSERT_C INSERT_R INSERT_MV EMPLACE EMPLACE_PW EMPLACE_PAIR TRY_C TRY_R INDEX_C INDEX_R IOA_C IOA_R INSERT_H EMPLACE_H TRY_H IOA_H ERASE_K ERASE_I ERASE_CI FIND_W CLEAR_F CLEAR_T RESERVE REHASH SHRINK MLF COPY_C MOVE_C COPY_A MOVE_A SWAP_M SWAP_S SELF_A INS_RANGE INS_IL ERASE_RANGE ERASE_IF AT_W ITER_W RESERVE0 ASSIGN_IL COPY_AL MOVE_AL INDEX_D INSERT_CM RANGE_C IL_C TRY_D SHRINK_RO INSERT_HR INSERT_HM TRY_HC IOA_HC EMPLACE_CV TRY_CV IOA_CV ERASE_KEYS ERASE_MID EQ_RANGE INS_ALW RITER REH_RO SWAP_A".split()
FOPS = "F_INSERT_C F_INSERT_R F_EMPLACE F_EMPLACE_PW F_TRY_C F_TRY_R F_INDEX_C F_INDEX_R F_IOA_C F_IOA_R F_COPY_C F_COPY_A F_RESERVE F_REHASH F_SHRINK F_MLF F_IL_C F_RANGE_C F_INS_RANGE F_ERASE F_CLEAR F_FIND F_INSERT_CM F_CAP_C".split()
def M(*names): return sum(1 << OPS.index(n) for s in names for n in s.split())
def FM(*names): return sum(1 << FOPS.index(n) for s in names for n in s.split())
MAPN = {15: "group15_flat_map", 16: "group16_flat_map", 1: "robin_hash_map", 216: "flat16_hash_map", 116: "robin16_hash_map"}
KVN = {0: "4-byte key, 4-byte value", 1: "small non-trivial key and value", 2: "large non-trivial key and value", 3: "large non-trivial key, int value", 4: "int key, large non-trivial value", 5: "64-bit integer key, one-byte value", 6: "tiny non-trivial key and value"}
PATN = {0: "well spread", 1: "all equal", 2: "same home group, distinct tags", 3: "0,1,2,..", 4: "two hash values", 5: "same tag, distinct groups", 6: "clusters of six", 7: "multiples of 64", 8: "two full groups", 9: "the last homes of the table", 10: "one home, two overflow classes", 11: "another home, one overflow class"}
LAYN = ["both direct", "indirect keys", "indirect values", "indirect keys and values"]
XDN = {"-UNDEBUG": "assertions enabled", "-DBOOM_BAD_ALLOC": "elements throw bad_alloc", "-DALLOC=1": "a stateful allocator handing out blocks of minimal alignment"}
for i in range(8): XDN["-DLAYOUT=%d" % i] = "element layout forced to " + LAYN[i & 3] + (", stored hash" if i & 4 else "")
RO = 32 # all read-only operations with the table frozen
AUDIT = 2; AT = 1; LOOK = 4; ITER = 8; ORD = 16 # ORD: the prefix keys are erased in order of insertion
NO_OPS = {15: 0, 16: 0, 1: 0}
ASSUME = ["x86-64 with SSE2/AVX2 as the repository's own build (-march=x86-64-v3, NDEBUG), compiled by clang 18 at -O2 without loop vectorisation or unrolling; LLVM IR semantics as implemented by symx",
          "heap memory handed out is filled with a fixed byte (0xCD); alignment of addresses is as a real allocator's; objects never abut",
          "the hash function is a total function of the key and the equality is an equivalence, as the documentation requires"]
def defs(m, kv, *extra):
    d = ["-DMAP=%d" % m, "-DKV=%d" % kv] + list(extra)
    if NO_OPS.get(m): d.append("-DNO_OPS=%dull" % NO_OPS[m])
    return d
def hist(tag, m, kv, n, K, ops, pre=(0, 0), suf=(0, 0), flags=0, cap=0, nsel=0, pe=0, lops=0, mix=False, t=60, nx=False, rounds=0, xd=(), **kw):
    d = defs(m, kv, *(["-DMIXHASH"] if mix else []) + (["-DNOEXCEPT_MOVE"] if nx else []), *xd)
    p = [n, K, ops, pre[0], pre[1], suf[0], suf[1], flags, cap, nsel, pe, lops, rounds]
    names = [o for i, o in enumerate(OPS) if (ops | lops) >> i & 1]
    desc = "%s, %s: %s%d free operations of %d kinds over %d keys with arbitrary %s hashes%s%s%s%s" % (MAPN[m], KVN[kv], "%d keys (hashes %s) first, %sthen " % (pre[1], PATN[pre[0]], "%s%d of them erased, " % ("the first " if flags & ORD else "", pe) if pe else "") if pre[1] else "", n, len(names), K, "4-bit (then mixed by the map)" if mix else "64-bit",
        (" and %d of the first ones" % nsel if nsel else "") + (", then %d rounds of erasing and re-inserting the first keys" % rounds if rounds else ""), ", then %d more keys (hashes %s)" % (suf[1], PATN[suf[0]]) if suf[1] else "", ", initial capacity %d" % cap if cap else "", "" if mix else "")
    for x in xd: desc += ", " + XDN.get(x, x)
    return dict(name="%s-%d%s%s%s" % (tag, m, "abcdefg"[kv], "m" if mix else "", "n" if nx else "") + "".join("-" + x[2:].replace("=", "") for x in xd), src="maps.cpp", entry="t_hist", defs=d, params=p, t=t, desc=desc, **kw)
def fault(tag, m, kv, n, K, fops, pre=(0, 0), suf=(0, 0), flags=0, cap=0, pe=0, pts=4, t=60, nx=False, xd=(), **kw):
    d = defs(m, kv, *(["-DNOEXCEPT_MOVE"] if nx else []), *xd)
    p = [n, K, 0, pre[0], pre[1], suf[0], suf[1], flags, cap, 0, pe, fops, pts]
    desc = "%s, %s: %d keys (hashes %s), %d keys with arbitrary hashes, then one of %d operations in which any of the first %d allocations or element constructions fails, then %d insertions" % (MAPN[m], KVN[kv], pre[1], PATN[pre[0]], n, bin(fops).count("1"), pts, suf[1]) + "".join(", " + XDN.get(x, x) for x in xd)
    return dict(name="%s-%d%s%s" % (tag, m, "abcdefg"[kv], "n" if nx else "") + "".join("-" + x[2:].replace("=", "") for x in xd), src="faults.cpp", entry="t_fault", defs=d, params=p, t=t, desc=desc, **kw)
G = (15, 16)
INS = M("INSERT_C INSERT_R INSERT_MV INSERT_CM EMPLACE EMPLACE_PW EMPLACE_PAIR TRY_C TRY_R TRY_D INDEX_C INDEX_R INDEX_D IOA_C IOA_R INSERT_H EMPLACE_H TRY_H IOA_H INSERT_HR INSERT_HM TRY_HC IOA_HC EMPLACE_CV TRY_CV IOA_CV INS_ALW")
CORE = M("EMPLACE ERASE_K")
ERA = M("ERASE_K ERASE_I ERASE_CI ERASE_RANGE ERASE_IF ERASE_KEYS ERASE_MID")
MID = M("ERASE_MID")
CAPO = M("RESERVE REHASH SHRINK SHRINK_RO MLF RESERVE0 REH_RO")
CPY = M("COPY_C MOVE_C COPY_A MOVE_A SWAP_M SWAP_S SELF_A COPY_AL MOVE_AL SWAP_A")
BULK = M("INS_RANGE INS_IL RANGE_C IL_C ASSIGN_IL")
CLR = M("CLEAR_F CLEAR_T")
def T(tier, q, th): return th if tier == "thorough" else q
LIM = {15: (29, 51), 16: (32, 56), 1: (16, 32)} # the numbers of elements at which the tables are enlarged

def d01(tier):
    j = []; k2 = T(tier, 1, 2)
    for m in G:
        j += [hist("short", m, 0, T(tier, 3, 4), T(tier, 3, 4), M("EMPLACE ERASE_K INDEX_C FIND_W"), flags=AUDIT | AT),
              hist("mix", m, 0, 3, 3, CORE, flags=AUDIT, mix=True),
              hist("mixgrow", m, 5, 2, 1, CORE, pre=(3, 26), suf=(3, 10), flags=LOOK, mix=True),
              hist("group", m, 0, 3, k2, CORE, pre=(2, 14), suf=(2, 4), nsel=2, flags=LOOK),
              hist("spill", m, 0, 3, k2, CORE, pre=(2, 25), suf=(2, 6), nsel=2, flags=LOOK),
              hist("twofull", m, 0, 2, k2, CORE, pre=(8, 27), suf=(2, 3), nsel=3, flags=LOOK | AT),
              hist("cycle", m, 0, 2, k2, CORE, pre=(10, m + 1), pe=8, suf=(11, 16), nsel=1, flags=LOOK | ORD),
              hist("equal", m, 0, 3, k2, CORE, pre=(1, 18), suf=(1, 14), nsel=2, flags=LOOK),
              hist("grow", m, 0, 2, k2, CORE, pre=(3, 26), suf=(3, 34), nsel=1, flags=LOOK),
              hist("churn", m, 0, 2, k2, CORE, pre=(2, 27), suf=(4, 12), pe=20, nsel=2, flags=LOOK),
              hist("reuse", m, 0, 2, k2, CORE, pre=(6, 50), suf=(1, 6), pe=36, nsel=2, flags=LOOK),
              hist("emptied", m, 0, 2, k2, CORE, pre=(2, 20), suf=(2, 2), pe=T(tier, 15, 14) if m == 15 else 15, nsel=2, flags=LOOK | ORD),
              hist("emptied2", m, 0, 2, k2, CORE, pre=(8, 40), suf=(4, 3), pe=30, cap=100, nsel=3, flags=LOOK | ORD),
              hist("last", m, 0, 2, k2, CORE, pre=(9, 18), suf=(9, 2), pe=4, nsel=2, flags=LOOK | ORD)]
        j += [hist("limit%d" % i, m, 0, 2, k2, CORE, pre=(p, LIM[m][i] - 1), suf=(p, 1), nsel=2, flags=LOOK) for i, p in ((0, 2), (1, 6))]
        j += [hist("many%d" % p, m, 0, T(tier, 1, 2), 1, CORE, pre=(p, 150), suf=(3, 20), pe=20, nsel=T(tier, 1, 2), flags=LOOK, t=T(tier, 120, 300)) for p in (2, 3, 4, 6, 7)]
    return j
def d02(tier):
    j = []; k2 = T(tier, 1, 2)
    for m in G:
        j += [hist("short", m, 0, 2, 2, INS, flags=AUDIT), hist("trk", m, 1, 2, 2, INS), hist("trkbig", m, 2, 2, 1, INS | M("ERASE_K"), nx=True),
              hist("full", m, 0, 2, 1, INS, pre=(2, 15), suf=(0, 2), nsel=1, flags=LOOK),
              hist("atgrow", m, 1, 1, k2, INS, pre=(5, 28), suf=(0, 2), nsel=2, flags=LOOK),
              hist("limit", m, 0, 1, 1, INS, pre=(2, LIM[m][0]), suf=(2, 1), nsel=2, flags=LOOK),
              hist("three", m, 0, 3, 2, M("INSERT_C EMPLACE TRY_R INDEX_D IOA_R ERASE_K"), flags=LOOK, t=T(tier, 60, 300))]
        if tier == "thorough": j += [hist("trk3", m, 3, 2, 2, INS), hist("trk4", m, 4, 2, 2, INS), hist("byte", m, 5, 2, 2, INS), hist("deep", m, 0, 3, 2, INS, t=400)]
    return j
def d03(tier):
    j = []; k2 = T(tier, 1, 2); E2 = T(tier, ERA & ~MID, ERA)
    for m in G:
        j += [hist("short", m, 0, 3, 3, M("EMPLACE ERASE_K ERASE_I"), flags=0), hist("all", m, 1, 2, 2, E2, lops=T(tier, M("ERASE_K ERASE_CI"), 0), pre=(0, 5), nsel=3, suf=(0, 2), t=T(tier, 60, 400)),
              hist("full", m, 0, 2, k2, E2, lops=T(tier, M("ERASE_I EMPLACE"), 0), pre=(2, 16), suf=(2, 3), nsel=4, t=T(tier, 60, 400)), hist("spill", m, 0, 2, k2, M("ERASE_K ERASE_CI EMPLACE"), pre=(2, 27), suf=(2, 8), nsel=T(tier, 4, 5)),
              hist("equal", m, 0, 2, k2, E2, pre=(1, 17), suf=(1, 3), nsel=4), hist("churn", m, 2, 2, 1, M("ERASE_K ERASE_I EMPLACE"), pre=(2, 26), pe=18, suf=(2, 20), nsel=2),
              hist("again", m, 0, 4, T(tier, 2, 3), M("EMPLACE ERASE_K"), flags=AUDIT), hist("emptied", m, 0, 2, k2, M("ERASE_K ERASE_I EMPLACE"), pre=(2, 22), pe=m - 2, suf=(2, 2), nsel=4, flags=ORD),
              hist("mid", m, 1, 1, 2, MID, pre=(0, 5), nsel=5, suf=(0, 2)), hist("midfull", m, 0, 2, 1, MID, lops=CORE, pre=(2, 16), nsel=T(tier, 5, 8), suf=(2, 3)), hist("midspill", m, 0, 2, 1, MID, lops=CORE, pre=(2, 27), nsel=T(tier, 5, 8), pe=4, suf=(2, 3), flags=LOOK)]
        j += [hist("limit%d" % i, m, 0, 2, 1, M("ERASE_K ERASE_CI"), lops=M("EMPLACE ERASE_K"), pre=(p, LIM[m][i]), suf=(p, 1), nsel=3, flags=LOOK) for i, p in ((0, 2), (1, 6))]
    for m in G: j += [hist("many%d" % p, m, kv, 1, 1, ERA, pre=(p, 110), pe=10, suf=(3, 2), nsel=T(tier, 1, 2), flags=LOOK, t=T(tier, 120, 300)) for p, kv in ((2, 0), (3, 5), (6, 0))]
    return j
def d04(tier):
    j = []; k2 = T(tier, 1, 2)
    for m in G:
        j += [hist("short", m, 0, 3, 3, M("EMPLACE ERASE_K ITER_W"), flags=AUDIT | ITER), hist("sparse", m, 0, 2, 2, M("EMPLACE ERASE_K ERASE_I"), cap=100, flags=ITER),
              hist("group", m, 0, 2, k2, M("EMPLACE ERASE_K ERASE_CI ITER_W"), pre=(2, 15), nsel=3, suf=(0, 2), flags=ITER), hist("grow", m, 0, 2, k2, M("EMPLACE ERASE_K"), pre=(5, 28), nsel=2, suf=(0, 30), flags=ITER),
              hist("none", m, 0, 2, 1, M("CLEAR_F CLEAR_T ERASE_K ERASE_I EMPLACE"), pre=(0, 1), nsel=1, flags=AUDIT | ITER), hist("trk", m, 2, 2, 2, M("EMPLACE ERASE_I ERASE_RANGE ITER_W"), pre=(0, 3), nsel=2)]
    for m in G: j += [hist("many%d" % p, m, 0, 1, 1, M("EMPLACE ERASE_K ERASE_CI ITER_W REHASH"), pre=(p, 110), pe=q, nsel=2, flags=ITER) for p, q in ((2, 10), (6, 60), (9, 3))]
    return j
def d05(tier):
    j = []; k2 = T(tier, 1, 2)
    for m in G:
        j += [hist("short", m, 0, 2, 2, CAPO | M("EMPLACE ERASE_K")), hist("three", m, 0, 3, 1, CAPO | M("EMPLACE"), lops=T(tier, M("EMPLACE SHRINK"), 0), t=T(tier, 60, 300)), hist("full", m, 0, 2, k2, CAPO, lops=T(tier, M("EMPLACE SHRINK"), CAPO | M("EMPLACE")), pre=(2, 16), suf=(2, 17)),
              hist("big", m, 1, 1, 1, CAPO, pre=(0, 40), suf=(0, 40), flags=LOOK), hist("erased", m, 0, 2, k2, CAPO, lops=T(tier, M("EMPLACE ERASE_K"), CAPO | M("EMPLACE ERASE_K")), pre=(1, 27), pe=15, suf=(0, 20), nsel=1, flags=LOOK)]
        j += [hist("limit%d" % i, m, 0, 1, 1, CAPO | CORE, pre=(p, LIM[m][i]), suf=(p, 2), nsel=1, flags=LOOK) for i, p in ((0, 2), (1, 6))]
        for n in T(tier, (60,), (60, 108, 120)): j.append(hist("fit%d" % n, m, 0, 1, 1, CAPO | CPY, pre=(0, n), suf=(0, 2), flags=LOOK))
        for c in (1, 15, 31, 64): j.append(hist("cap%d" % c, m, 0, 2, 2, M("EMPLACE SHRINK REHASH"), cap=c, suf=(0, 3)))
    for m in G: j += [hist("many%d" % p, m, 0, 1, 1, CAPO, pre=(p, 120), pe=q, suf=(3, 10), flags=LOOK, t=T(tier, 120, 300)) for p, q in ((2, 0), (3, 70), (6, 20))]
    return j
def d06(tier):
    j = []; k2 = T(tier, 1, 2)
    for m in G:
        j += [hist("short", m, 0, 3, 2, CLR | M("EMPLACE ERASE_K"), flags=AUDIT), hist("full", m, 0, 2, k2, CLR, lops=M("EMPLACE ERASE_K CLEAR_F"), pre=(2, 27), suf=(2, 30), nsel=2),
              hist("trk", m, 1, 2, k2, CLR | M("EMPLACE"), pre=(0, 6), suf=(1, 17)), hist("big", m, 2, 2, k2, CLR | M("EMPLACE"), pre=(1, 18), suf=(0, 3)), hist("erased", m, 0, 2, k2, CLR | M("EMPLACE"), pre=(5, 25), pe=10, suf=(2, 29))]
    for m in G: j += [hist("many%d" % p, m, 0, 1, 1, CLR, pre=(p, 110), pe=q, suf=(2, 40), flags=LOOK) for p, q in ((2, 0), (3, 70), (6, 20))]
    return j
def d07(tier):
    j = []; k2 = T(tier, 1, 2)
    for m in G:
        j += [hist("short", m, 0, 2, 2, CPY | M("EMPLACE"), flags=AUDIT), hist("trk", m, 1, 2, 1, CPY | M("EMPLACE"), pre=(0, 3)), hist("full", m, 0, 2, k2, CPY, lops=M("EMPLACE ERASE_K"), pre=(2, 16), suf=(0, 17), nsel=2, flags=LOOK),
              hist("spill", m, 2, 1, k2, CPY, pre=(1, 19), suf=(1, 12), flags=LOOK), hist("erased", m, 0, 2, k2, CPY, lops=M("EMPLACE ERASE_K"), pre=(5, 27), pe=13, suf=(2, 9), nsel=1, flags=LOOK),
              hist("big", m, 0, 1, 1, CPY, pre=(0, T(tier, 30, 60)), suf=(0, T(tier, 30, 60)), flags=LOOK),
              hist("worn", m, 0, 1, 1, CPY, pre=(2, 27), pe=9, suf=(2, 33), flags=LOOK | ORD), hist("wornbig", m, 3, 1, 1, CPY, pre=(4, 45), pe=14, suf=(4, 45), flags=LOOK | ORD)]
    for m in G: j += [hist("many%d" % p, m, 0, 1, 1, CPY, pre=(p, 100), pe=q, suf=(3, 20), flags=LOOK, t=T(tier, 120, 300)) for p, q in ((2, 10), (3, 0), (6, 60))]
    return j
def d08(tier):
    j = []; k2 = T(tier, 1, 2)
    for m in G:
        j += [hist("short", m, 0, 2, 2, BULK | M("EMPLACE"), flags=AUDIT), hist("trk", m, 1, 2, 2, BULK, pre=(0, 2)), hist("full", m, 0, 1, 2, BULK, pre=(2, 14), suf=(2, 3), flags=LOOK), hist("grow", m, 4, 1, T(tier, 1, 2), BULK, pre=(0, 27), suf=(0, 3), flags=LOOK, t=T(tier, 60, 200))]
    for m in G: j += [hist("many%d" % p, m, 0, 1, 1, BULK, pre=(p, 110), pe=q, suf=(3, 5), flags=LOOK, t=T(tier, 120, 300)) for p, q in ((2, 0), (3, 4), (6, 20))]
    return j
MUT = M("EMPLACE EMPLACE_PW INSERT_R TRY_C INDEX_R IOA_C ERASE_K CLEAR_T MOVE_C COPY_A REHASH INS_RANGE")
def d09(tier):
    j = []; k2 = T(tier, 1, 2)
    for m in G:
        for kv in (1, 2, 3, 4):
            j += [hist("life", m, kv, 2, 2, MUT, lops=T(tier, M("EMPLACE ERASE_K"), MUT), pre=(0, 1), nsel=1, t=T(tier, 60, 200)), hist("grow", m, kv, 2, 1, M("EMPLACE ERASE_K TRY_C"), lops=T(tier, M("EMPLACE"), 0), pre=(2, 27), suf=(2, T(tier, 3, 8)), nsel=2, flags=LOOK, nx=kv in (1, 2)),
                  hist("equal", m, kv, 1, 1, MUT, pre=(1, 17), suf=(1, 2), nsel=1, flags=LOOK)]
    for m in (15, 16, 1): j += [hist("many%d" % p, m, kv, 1, 1, MUT, pre=(p, 90), pe=q, suf=(3, 2), flags=LOOK, t=T(tier, 60, 200)) for p, q, kv in T(tier, (), ((3, 10, 1), (6, 50, 2)))]
    return j
def d10(tier):
    j = []; k2 = T(tier, 1, 2); A = sum(1 << i for i in range(len(OPS)))
    for m in G:
        j += [hist("any", m, 0, 2, 2, A, lops=T(tier, M("EMPLACE ERASE_I COPY_C"), A), t=T(tier, 60, 300)), hist("anyfull", m, 5, 1, k2, A, pre=(2, 16), nsel=2, suf=(2, 2)), hist("anygrow", m, 0, 1, k2, A, pre=(3, 28), nsel=1, suf=(3, 2)), hist("anyequal", m, 0, 1, k2, A, pre=(1, 20), nsel=1, suf=(1, 1)),
              hist("anycap", m, 5, 1, 1, A, pre=(0, 2), cap=70), hist("fresh", m, 0, 2, 1, M("FIND_W ERASE_K CLEAR_F CLEAR_T SHRINK SHRINK_RO COPY_C MOVE_C SWAP_M ERASE_IF RESERVE0 REHASH EMPLACE ITER_W"), flags=AUDIT | AT)]
        for kv in (5, 0): j += [hist("alloc", m, kv, 1, 1, A, pre=(3, 15), suf=(3, 3), flags=LOOK, xd=["-DALLOC=1"]), hist("allocgrow", m, kv, 1, 1, M("EMPLACE ERASE_K") | CAPO, pre=(2, 28), suf=(2, 4), flags=LOOK, xd=["-DALLOC=1"])]
    for m in G: j += [hist("many%d" % p, m, kv, 1, 1, A & ~MID, pre=(p, 90), pe=q, nsel=1, suf=(3, 2), t=300) for p, q, kv in T(tier, (), ((2, 10, 0), (3, 50, 5)))]
    return j
def d10u(tier):
    j = []; A = sum(1 << i for i in range(len(OPS))); NC = A & ~M("FIND_W")
    for m in (15, 16, 1):
        F = m != 1
        for kv in T(tier, (0, 5, 2) if F else (0, 5, 1), (0, 1, 2, 3, 4, 5) if F else (0, 1, 2, 3, 4, 5, 6)):
            j += [hist("uany", m, kv, T(tier, 1, 2), 1, A, pre=(0, 2), nsel=1, flags=AT), hist("ufull", m, kv, 1, 1, A, pre=(2, 16 if F else 9), nsel=1, suf=(2, 2), flags=LOOK), hist("ugrow", m, kv, 1, 1, M("EMPLACE ERASE_K ERASE_I COPY_C COPY_A MOVE_A CLEAR_F CLEAR_T") | CAPO, pre=(3, 28 if F else 16), pe=3, nsel=1, suf=(3, 2), flags=LOOK)]
    for l in T(tier, (4, 7), range(8)): j.append(hist("urun", 1, 0, 1, 1, CORE | CAPO | CPY, pre=(2, 9), suf=(2, 2), nsel=1, flags=LOOK, xd=["-DLAYOUT=%d" % l]))
    for x in j: x["uninit"] = True; x["desc"] += "; fresh memory holds unknown bytes, on which no decision may depend"
    return j
def d11(tier):
    j = []; A = (1 << len(FOPS)) - 1
    for m in G:
        for kv in (1, 2): j += [fault("small", m, kv, 1, 2, A, pts=T(tier, 3, 6)), fault("fullgroup", m, kv, 0, 1, A, pre=(2, 16), suf=(2, 2), flags=LOOK, pts=4, t=T(tier, 60, 200)), fault("atgrow", m, kv, 0, 1, A, pre=(0, 28), suf=(0, 2), flags=LOOK, pts=T(tier, 3, 12), nx=kv == 1, t=T(tier, 60, 200))]
        j += [fault("ba", m, kv, 0, 1, A, pre=(2, 20), pe=14, suf=(2, 2), flags=LOOK, xd=["-DBOOM_BAD_ALLOC"]) for kv in (1, 3)]
        j += [fault("plain", m, 0, T(tier, 0, 1), T(tier, 1, 2), A, pre=(0, 28), suf=(0, 2), flags=LOOK), fault("mixed", m, 3, T(tier, 0, 1), 1, A, pre=(1, 20), pe=5, suf=(1, 3), flags=LOOK), fault("valbig", m, 4, 1, 1, A, pre=(5, 14), suf=(0, 3), flags=LOOK)]
    return j
def d12(tier):
    j = []; k2 = T(tier, 1, 2)
    for m in G:
        for n, pat, pre, pe, suf in (("const", 1, 27, 0, 33), ("near", 2, 16, 0, 33), ("churn1", 1, 28, 27, 30), ("churn2", 2, 28, 20, 40), ("alt", 4, 30, 11, 40), ("six", 6, 30, 12, 40), ("seq", 7, 40, 30, 50), ("groups", 5, 28, 14, 50)):
            j.append(hist(n, m, 0, 2, k2, CORE, pre=(pat, pre), pe=pe, suf=(pat, suf), nsel=2, flags=LOOK, pathlimit=3000000))
        j.append(hist("cycle", m, 0, 2, k2, CORE, pre=(10, m + 1), pe=8, suf=(11, 16), nsel=1, flags=LOOK | ORD))
        j += [hist("limit%d" % i, m, 0, 2, k2, CORE, pre=(p, LIM[m][i] - 1), suf=(p, 2), nsel=1, flags=LOOK, rounds=r) for i, p, r in ((0, 2, 3), (1, 6, 1))]
        for n, pat, pre in (("near", 2, 18), ("const", 1, 24), ("groups", 5, 20), ("alt", 4, 36), ("six", 6, 24)): j.append(hist("rounds" + n, m, 0, 2, k2, CORE, pre=(pat, pre), nsel=1, flags=LOOK, rounds=10))
    for m in G: j += [hist("many%d" % p, m, 0, 1, 1, CORE, pre=(p, 120), pe=q, suf=(p, 40), nsel=1, flags=LOOK, rounds=r) for p, q, r in ((2, 100, 1), (6, 60, 2), (7, 110, 1))[T(tier, 1, 0):]]
    return j
# ---- robin_hash_map: another table (Robin Hood probing; a direct and an indirect element layout), smaller growth steps
RA = sum(1 << i for i in range(len(OPS)))
def r01(tier):
    k2 = T(tier, 1, 2)
    return [hist("short", 1, 0, 3, 3, M("EMPLACE ERASE_K INDEX_C FIND_W EQ_RANGE"), flags=AUDIT | AT), hist("short", 1, 1, 3, T(tier, 2, 3), CORE, flags=AUDIT),
            hist("seq", 1, 0, 2, k2, CORE, pre=(3, 14), suf=(3, 4), nsel=2, flags=LOOK), hist("seq", 1, 1, 2, k2, CORE, pre=(3, 14), suf=(3, 4), nsel=2, flags=LOOK),
            hist("run", 1, 0, 2, k2, CORE, pre=(2, 12), suf=(2, 3), nsel=2, flags=LOOK), hist("run", 1, 4, 2, k2, CORE, pre=(2, 12), suf=(2, 3), nsel=2, flags=LOOK),
            hist("equal", 1, 0, 2, k2, CORE, pre=(1, 7), suf=(0, 3), nsel=2, flags=LOOK), hist("equal", 1, 3, 2, k2, CORE, pre=(1, 7), suf=(0, 3), nsel=2, flags=LOOK),
            hist("six", 1, 5, 2, k2, CORE, pre=(6, 18), suf=(0, 6), nsel=2, flags=LOOK), hist("churn", 1, 0, 2, k2, CORE, pre=(4, 12), pe=8, suf=(4, 6), nsel=2, flags=LOOK),
            hist("spread", 1, 1, 2, k2, CORE, pre=(0, 30), suf=(0, 6), nsel=1, flags=LOOK), hist("last", 1, 0, 2, k2, CORE, pre=(9, 10), suf=(0, 3), nsel=2, flags=LOOK), hist("last", 1, 6, 2, k2, CORE, pre=(9, 8), pe=3, suf=(0, 3), nsel=2, flags=LOOK | ORD)] + [
            hist("many%d" % p, 1, kv, T(tier, 1, 2), 1, CORE, pre=(p, 150), suf=(3, 20), pe=20, nsel=T(tier, 1, 2), flags=LOOK, t=T(tier, 120, 300)) for p, kv in ((3, 0), (6, 1), (0, 3))]
def r02(tier):
    k2 = T(tier, 1, 2)
    return [hist("short", 1, 0, 2, 2, INS, flags=AUDIT), hist("trk", 1, 1, 2, T(tier, 1, 2), INS), hist("tiny", 1, 6, 2, T(tier, 1, 2), INS), hist("run", 1, 6, 1, 1, INS, pre=(2, 9), suf=(0, 2), nsel=2, flags=LOOK),
            hist("atgrow", 1, 1, 1, k2, INS, pre=(3, 8), suf=(0, 2), nsel=2, flags=LOOK), hist("atgrow", 1, 0, 1, k2, INS, pre=(3, 16), suf=(0, 2), nsel=2, flags=LOOK)] + (
            [hist("trk%d" % kv, 1, kv, 2, 2, INS) for kv in (2, 3, 4, 5)] if tier == "thorough" else [])
def r03(tier):
    k2 = T(tier, 1, 2); E2 = T(tier, ERA & ~MID, ERA)
    return [hist("short", 1, 0, 3, 3, M("EMPLACE ERASE_K ERASE_I")), hist("all", 1, 1, 2, 1, E2, lops=T(tier, M("ERASE_K ERASE_CI"), 0), pre=(0, 5), nsel=3, suf=(0, 2)), hist("all", 1, 6, 2, T(tier, 1, 2), E2, pre=(2, 6), nsel=3, suf=(0, 2)),
            hist("last", 1, 0, 2, k2, E2, pre=(9, 10), suf=(9, 2), nsel=3), hist("run", 1, 0, 2, k2, E2, pre=(2, 14), suf=(2, 2), nsel=4), hist("run", 1, 3, 2, 1, E2, lops=T(tier, M("ERASE_K EMPLACE"), 0), pre=(2, 9), suf=(2, 2), nsel=3), hist("equal", 1, 5, 2, k2, E2, pre=(1, 8), suf=(0, 3), nsel=4),
            hist("churn", 1, 2, 2, 1, M("ERASE_K ERASE_I EMPLACE"), pre=(4, 10), pe=6, suf=(0, 4), nsel=2, flags=LOOK), hist("again", 1, 0, 4, T(tier, 2, 3), CORE, flags=AUDIT),
            hist("mid", 1, 0, 1, 2, MID, pre=(0, 5), nsel=5, suf=(0, 2)), hist("mid", 1, 3, 1, 1, MID, pre=(4, 8), nsel=8, suf=(0, 2)), hist("midrun", 1, 0, 2, 1, MID, lops=CORE, pre=(2, 12), nsel=6, suf=(2, 2)), hist("midlast", 1, 6, 1, 1, MID, pre=(9, 8), nsel=8, suf=(9, 2))] + [
            hist("many%d" % p, 1, kv, 1, 1, ERA, pre=(p, 110), pe=10, suf=(3, 2), nsel=T(tier, 1, 2), flags=LOOK, t=T(tier, 120, 300)) for p, kv in ((3, 0), (6, 3), (0, 5))]
def r04(tier):
    k2 = T(tier, 1, 2)
    return [hist("short", 1, 0, 3, 2, M("EMPLACE ERASE_K ITER_W RITER"), flags=AUDIT | ITER), hist("short", 1, 3, 2, 2, M("EMPLACE ERASE_K ITER_W RITER"), flags=AUDIT | ITER), hist("sparse", 1, 5, 2, 2, M("EMPLACE ERASE_K ERASE_I"), cap=100, flags=ITER),
            hist("last", 1, 0, 2, k2, CORE, pre=(9, 9), nsel=2, suf=(0, 2), flags=ITER), hist("last", 1, 3, 2, k2, CORE, pre=(9, 9), nsel=2, suf=(0, 2), flags=ITER), hist("run", 1, 0, 2, k2, M("EMPLACE ERASE_K ERASE_CI ITER_W RITER EQ_RANGE"), pre=(2, 13), nsel=3, suf=(0, 2), flags=ITER), hist("grow", 1, 1, 2, 1, CORE, pre=(3, 16), nsel=2, suf=(0, 10), flags=ITER),
            hist("none", 1, 0, 2, 1, M("CLEAR_F CLEAR_T ERASE_K ERASE_I EMPLACE"), pre=(0, 1), nsel=1, flags=AUDIT | ITER)] + [
            hist("many%d" % p, 1, kv, 1, 1, M("EMPLACE ERASE_K ERASE_CI ITER_W REHASH"), pre=(p, 110), pe=q, nsel=2, flags=ITER) for p, q, kv in ((3, 10, 0), (6, 60, 3))]
def r05(tier):
    k2 = T(tier, 1, 2)
    return [hist("short", 1, 0, 2, T(tier, 1, 2), CAPO | M("EMPLACE ERASE_K"), t=T(tier, 60, 300)), hist("short", 1, 1, 2, 1, CAPO | M("EMPLACE ERASE_K")), hist("run", 1, 0, 2, k2, CAPO, lops=T(tier, M("EMPLACE SHRINK"), CAPO | M("EMPLACE")), pre=(2, 12), suf=(2, 5)),
            hist("equal", 1, 6, 1, k2, CAPO, pre=(1, 7), suf=(0, 4)), hist("big", 1, 1, 1, 1, CAPO, pre=(0, 24), suf=(0, 20), flags=LOOK), hist("erased", 1, 0, 2, k2, CAPO, lops=T(tier, M("EMPLACE ERASE_K"), CAPO | M("EMPLACE ERASE_K")), pre=(4, 12), pe=8, suf=(0, 10), nsel=1, flags=LOOK)] + [
            hist("cap%d" % c, 1, 0, 2, T(tier, 1, 2), M("EMPLACE SHRINK REHASH"), cap=c, suf=(0, 3)) for c in (1, 31)] + [
            hist("tight%d" % n, 1, kv, 1, 1, CAPO, pre=(p, n), suf=(p, 1), flags=LOOK, xd=xd) for p, n, kv, xd in ((1, 11, 0, ()), (2, 9, 3, ()), (2, 13, 0, ()), (1, 10, 1, ()), (2, 12, 5, ()), (1, 11, 0, ("-DLAYOUT=6",)))] + [
            hist("many%d" % p, 1, kv, 1, 1, CAPO, pre=(p, 120), pe=q, suf=(3, 10), flags=LOOK, t=T(tier, 120, 300)) for p, q, kv in ((3, 0, 0), (6, 70, 3))]
def r06(tier):
    k2 = T(tier, 1, 2)
    return [hist("short", 1, 0, 3, 2, CLR | M("EMPLACE ERASE_K"), flags=AUDIT), hist("run", 1, 6, 2, k2, CLR, lops=M("EMPLACE ERASE_K CLEAR_F"), pre=(2, 12), suf=(2, 10), nsel=2),
            hist("trk", 1, 1, 2, k2, CLR | M("EMPLACE"), pre=(0, 6), suf=(1, 7)), hist("big", 1, 0, 2, 1, CLR | M("EMPLACE ERASE_K"), pre=(0, 40), suf=(3, 10), nsel=1, flags=AUDIT), hist("big", 1, 3, 2, 1, CLR | M("EMPLACE ERASE_K"), pre=(0, 24), suf=(3, 10), nsel=1), hist("last", 1, 6, 2, k2, CLR | M("EMPLACE"), pre=(9, 7), suf=(9, 7)), hist("erased", 1, 0, 2, k2, CLR | M("EMPLACE"), pre=(4, 12), pe=5, suf=(2, 12))] + [
            hist("many%d" % p, 1, kv, 1, 1, CLR, pre=(p, 110), pe=q, suf=(2, 10), flags=LOOK) for p, q, kv in ((3, 0, 0), (6, 70, 3))]
def r07(tier):
    k2 = T(tier, 1, 2)
    return [hist("short", 1, 0, 2, 2, CPY | M("EMPLACE"), flags=AUDIT), hist("trk", 1, 1, 2, 1, CPY | M("EMPLACE"), pre=(0, 3)), hist("run", 1, 6, 2, k2, CPY, lops=M("EMPLACE ERASE_K"), pre=(2, 12), suf=(0, 8), nsel=2, flags=LOOK),
            hist("equal", 1, 2, 1, k2, CPY, pre=(1, 7), suf=(0, 5), flags=LOOK), hist("erased", 1, 0, 2, k2, CPY, lops=M("EMPLACE ERASE_K"), pre=(4, 12), pe=7, suf=(0, 9), nsel=1, flags=LOOK), hist("big", 1, 5, 1, 1, CPY, pre=(0, 30), suf=(0, 20), flags=LOOK)] + [
            hist("many%d" % p, 1, kv, 1, 1, CPY, pre=(p, 100), pe=q, suf=(3, 20), flags=LOOK, t=T(tier, 120, 300)) for p, q, kv in ((3, 10, 0), (6, 60, 3))]
def r08(tier):
    return [hist("short", 1, 0, 2, 2, BULK | M("EMPLACE"), flags=AUDIT), hist("trk", 1, 1, 1, 2, BULK, t=T(tier, 60, 300)), hist("trk", 1, 6, 1, 2, BULK, pre=(0, 2)), hist("run", 1, 6, 1, 2, BULK, pre=(2, 9), suf=(2, 2), flags=LOOK), hist("grow", 1, 4, 1, T(tier, 1, 2), BULK, pre=(3, 15), suf=(0, 3), flags=LOOK)]
def r09(tier):
    j = []
    for kv in (1, 2, 3, 4, 6):
        j += [hist("life", 1, kv, 2, 1, MUT, lops=T(tier, M("EMPLACE ERASE_K"), MUT), pre=(0, 1), nsel=1), hist("grow", 1, kv, 2, 1, M("EMPLACE ERASE_K TRY_C"), lops=T(tier, M("EMPLACE"), 0), pre=(2, 8), suf=(2, T(tier, 3, 8)), nsel=2, flags=LOOK, nx=kv in (1, 2)),
              hist("equal", 1, kv, 1, 1, MUT, pre=(1, 7), suf=(0, 2), nsel=1, flags=LOOK), hist("last", 1, kv, 1, 1, MUT, pre=(9, 7), suf=(9, 2), nsel=1, flags=LOOK)]
    return j
def r10(tier):
    A = RA
    return [hist("any", 1, 0, 2, T(tier, 1, 2), A, lops=T(tier, M("EMPLACE ERASE_I COPY_C"), A)), hist("any", 1, 1, 1, 1, A, pre=(0, 2), nsel=1), hist("anyrun", 1, 5, 1, T(tier, 1, 2), A, pre=(2, 12), nsel=2, suf=(2, 2)), hist("anygrow", 1, 0, 1, 1, A, pre=(3, 16), nsel=1, suf=(3, 2)),
            hist("anygrow", 1, 4, 1, 1, A, pre=(3, 16), nsel=1, suf=(3, 2)), hist("anyequal", 1, 0, 1, 1, A, pre=(1, 8), nsel=1, suf=(0, 1)), hist("anycap", 1, 5, 1, 1, A, pre=(0, 2), cap=70),
            hist("fresh", 1, 0, 2, 1, M("FIND_W ERASE_K CLEAR_F CLEAR_T SHRINK SHRINK_RO COPY_C MOVE_C SWAP_M ERASE_IF RESERVE0 REHASH EMPLACE ITER_W"), flags=AUDIT | AT), hist("fresh", 1, 1, 2, 1, M("FIND_W ERASE_K CLEAR_F CLEAR_T SHRINK COPY_C MOVE_C SWAP_M ERASE_IF REHASH EMPLACE"), flags=AUDIT | AT)]
def r11(tier):
    A = (1 << len(FOPS)) - 1; j = []
    for kv in (1, 2, 6): j += [fault("small", 1, kv, T(tier, 0, 1), T(tier, 1, 2), A, pts=T(tier, 3, 6)), fault("run", 1, kv, 0, 1, A, pre=(2, 9), suf=(0, 2), flags=LOOK, pts=4), fault("atgrow", 1, kv, 0, 1, A, pre=(3, 16), suf=(0, 2), flags=LOOK, pts=T(tier, 3, 8))]
    j += [fault("ba", 1, kv, 0, 1, A, pre=(3, 12), pe=8, suf=(0, 2), flags=LOOK, xd=["-DBOOM_BAD_ALLOC"]) for kv in (1, 3)]
    return j + [fault("plain", 1, 0, T(tier, 0, 1), T(tier, 1, 2), A, pre=(3, 16), suf=(0, 2), flags=LOOK), fault("mixed", 1, 3, 0, 1, A, pre=(4, 12), pe=5, suf=(0, 3), flags=LOOK)]
def r12(tier):
    k2 = T(tier, 1, 2); j = []
    for n, pat, pre, pe, suf in (("const", 1, 7, 6, 7), ("near", 2, 14, 12, 14), ("alt", 4, 12, 11, 10), ("six", 6, 16, 12, 10), ("seq", 7, 12, 9, 6), ("spread", 0, 32, 30, 32)):
        for kv in (0, 4): j.append(hist(n, 1, kv, 2, k2, CORE, pre=(pat, pre), pe=pe, suf=(pat, suf), nsel=2, flags=LOOK, pathlimit=3000000))
    for n, pat, pre in (("near", 2, 10), ("spread", 0, 14), ("alt", 4, 8)): j.append(hist("rounds" + n, 1, 0, 2, k2, CORE, pre=(pat, pre), nsel=1, flags=LOOK, rounds=8))
    return j
B0 = "Histories as listed per job, over arbitrary 64-bit hash values of the free keys (so every collision pattern) and arbitrary values."
def both(a, b): return lambda tier: a(tier) + b(tier)
PROPS = {"D01": dict(jobs=both(d01, r01), bounds=B0), "D02": dict(jobs=both(d02, r02), bounds=B0), "D03": dict(jobs=both(d03, r03), bounds=B0), "D04": dict(jobs=both(d04, r04), bounds=B0), "D05": dict(jobs=both(d05, r05), bounds=B0), "D06": dict(jobs=both(d06, r06), bounds=B0),
         "D07": dict(jobs=both(d07, r07), bounds=B0), "D08": dict(jobs=both(d08, r08), bounds=B0), "D09": dict(jobs=both(d09, r09), bounds=B0), "D10": dict(jobs=both(both(d10, r10), d10u), bounds=B0), "D11": dict(jobs=both(d11, r11), bounds=B0), "D12": dict(jobs=both(d12, r12), bounds=B0)}
# ---- helpers, hashes and strings (U properties)
def unit(name, src, entry, desc, params=(), t=120, **kw): return dict(name=name, src=src, entry=entry, defs=kw.pop("defs", []), params=list(params), t=t, desc=desc, **kw)
def u01(tier):
    W = "every 64-bit and every 32-bit argument"
    return [unit("scan", "bits.cpp", "t_scan", W), unit("fallback", "bits.cpp", "t_fallback", W), unit("hakmem", "bits.cpp", "t_hakmem", "every 32-bit argument"), unit("log2", "bits.cpp", "t_log2", W)]
def u02(tier):
    return [unit("pow2-32", "bits.cpp", "t_pow2_32", "every 32-bit argument"), unit("pow2-64", "bits.cpp", "t_pow2_64", "every 64-bit argument (round_up, next_pow2: with a representable result)"), unit("log10", "bits.cpp", "t_log10", "every 64-bit and every 32-bit argument"), unit("align", "bits.cpp", "t_align", "every size, address and alignment with a representable result")]
HFN = ["BKDRHash", "Times31", "Times31Std", "APHash", "DJBHash", "OpenSSL_Hash", "rocksdb", "hash_crc32", "crc32_x86", "crc32_simple_x64", "crc32_simple_x86", "Yoshimura", "TRIADii", "penumbra", "msvc_fnv_1a", "primaryHash32", "primaryHash64", "primaryHash_old", "hash<string_view>", "hash<string_view,Time31>", "hash_helper<const char*>", "hash<string>", "hash<wstring>", "hash<string,Time31Std>", "hash<const char*>", "string_hash_helper"]
def d14(tier):
    o = []; N = 20 if tier == "quick" else 40
    def pure(f, lo, hi): o.append(unit("pure-%s-%d-%d" % (HFN[f], lo, hi), "hashes.cpp", "t_pure", "%s of every content of every length %d..%d, in exactly sized buffers at two alignments" % (HFN[f], lo, hi), [lo, hi, 0xbc9f1d34, f], 60))
    for f in range(len(HFN)): pure(f, 0, 4 if f == 24 else N)
    for f in (11, 12, 13): pure(f, 21, 60)
    pure(12, 96, 102); pure(13, 192, 196)
    for f in (0, 1, 2, 3, 4, 6, 9, 10, 14, 19, 23): o.append(unit("ref-%s" % HFN[f], "hashes.cpp", "t_ref", "%s of every content of every length 0..%d against the definition of the algorithm" % (HFN[f], 5 if f == 3 else 12), [0, 5 if f == 3 else 12, 0xbc9f1d34, f], 60))
    L = [(1, 0), (3, 1), (5, 0), (7, 6), (9, 3), (12, 11)]; S = [(1, 0), (7, 6), (12, 11)]
    for f in (0, 1, 2, 4, 5, 7, 8, 9, 10, 21, 6, 15):
        for n, k in (S if f in (6, 15) else L): o.append(unit("single-%s-%d-%d" % (HFN[f], n, k), "hashes.cpp", "t_single", "%s of every two %d-byte keys that differ in byte %d only" % (HFN[f], n, k), [n, k, 7, f], 60))
    o.append(unit("typed", "hashes.cpp", "t_typed", "every two float, double and integral keys", t=60)); o += [unit("int", "hashes.cpp", "t_int", "every pair of 64-bit arguments", t=60), unit("intcrc", "hashes.cpp", "t_intcrc", "every 64-bit argument", t=60)]
    WN = ["BKDRHash", "Times31", "Times31Std", "APHash", "DJBHash", "helper", "helper-31", "helper-31std", "hash<wstring_view>", "hash<wstring_view,31>", "hash<wstring,31std>", "hash_helper<wchar_t*>", "hash_helper<wchar_t*,31>"]
    for e, nf in (("wide", 13), ("short", 8)):
        for f in range(nf):
            for n, k in [(0, 9), (1, 0), (2, 1), (3, 9), (4, 0), (5, 2)] + T(tier, [], [(7, 6)]): o.append(unit("%s-%s-%d-%d" % (e, WN[f], n, k), "hashes.cpp", "t_" + e, "%s of every %d %s characters, in exactly sized buffers at two places%s" % (WN[f], n, "wide" if e == "wide" else "16-bit", ", and with character %d changed in one byte" % k if k < n and f != 3 and not (f in (5, 8, 11) and n in (2, 4, 5)) else ""), [n, 99 if f == 3 or f in (5, 8, 11) and n in (2, 4, 5) else k, 0, f], 60))
    for e, ns in (("forms", T(tier, (0, 1, 3, 7, 8, 15, 16, 17, 31, 33), range(0, 50))), ("wforms", T(tier, (0, 1, 2, 5, 9), range(0, 18)))):
        for n in ns: o.append(unit("%s-%d" % (e, n), "hashes.cpp", "t_" + e, "every %d %scharacters other than NUL: C string, view, string and characters with a length" % (n, "wide " if e == "wforms" else ""), [n], 60))
    for lg in (1, 2, 5, 16, 33, 63): o.append(unit("policy-%d" % lg, "hashes.cpp", "t_policy", "every hash value, capacity 2^%d" % lg, [lg], 60))
    return o
LEG = (216, 116) # the earlier flat16_hash_map and robin16_hash_map
def d15(tier):
    j = []; k2 = T(tier, 1, 2)
    for m in LEG:
        A = M(" ".join(OPS))
        j += [hist("short", m, 0, 3, 3, M("EMPLACE ERASE_K INDEX_C FIND_W"), flags=AUDIT | AT), hist("ops", m, 0, 2, 2, A, flags=AUDIT), hist("trk", m, 1, 2, 2, A), hist("trkbig", m, 2, 2, 1, A),
              hist("group", m, 0, 3, k2, CORE, pre=(2, 14), suf=(2, 4), nsel=2, flags=LOOK), hist("spill", m, 0, 2, k2, CORE, pre=(2, 25), suf=(2, 6), nsel=2, flags=LOOK), hist("equal", m, 0, 2, k2, CORE, pre=(1, 12), suf=(1, 6), nsel=2, flags=LOOK),
              hist("grow", m, 0, 2, k2, CORE, pre=(3, 26), suf=(3, 34), nsel=1, flags=LOOK), hist("churn", m, 0, 2, k2, CORE, pre=(2, 27), suf=(4, 12), pe=20, nsel=2, flags=LOOK), hist("cap", m, 0, 2, 2, CAPO | CLR | M("EMPLACE"), suf=(0, 20)), hist("iter", m, 0, 2, k2, M("EMPLACE ERASE_K ITER_W"), pre=(2, 15), nsel=3, suf=(0, 2), flags=ITER)]
    return j
PROPS["D15"] = dict(jobs=d15, bounds=B0)
def u04(tier):
    j = []
    for g in (15, 16, 30):
        d = ["-DGRP=%d" % g]
        j += [unit("match-%d" % g, "groups.cpp", "t_match", "flat_map_group%d: every content, every hash" % g, (), 90, defs=d), unit("update-%d" % g, "groups.cpp", "t_update", "flat_map_group%d: every content, hash and position, every update" % g, (), 90, defs=d)]
        if g != 16: j.append(unit("clear-%d" % g, "groups.cpp", "t_clear", "flat_map_group%d: every content" % g, (), 60, defs=d))
    return j + [unit("probe-%d" % n, "groups.cpp", "t_probe", "tables of %d groups, every first group" % n, [n], 90) for n in T(tier, (1, 2, 4, 8, 16, 32), (1, 2, 4, 8, 16, 32, 64, 128))]
PROPS["U04"] = dict(jobs=u04, bounds="All contents of a group, all hashes. Probing: tables of up to 32 (thorough: 128) groups.")
def u05(tier): return [unit(e, "lanes.cpp", "t_" + e, d, (), 60) for e, d in (("lanes16", "every 256-bit vector, lane and value"), ("lanes32", "every 256-bit vector, lane and value"), ("lanes64", "every 256-bit vector, lane and value"), ("words", "every vector"))]
PROPS["U05"] = dict(jobs=u05, bounds="All contents, all values; no loop is cut. The branches for MSVC and for 32-bit x86 are outside.")
ALN = {1: "not propagating", 2: "propagating", 3: "propagating on assignment", 4: "propagating on swap", 5: "propagating on copy assignment", 6: "propagating on move assignment", 7: "not propagating, another one for a copied map"}
STN = ["copy construction", "copy construction with an allocator", "move construction", "move construction with an allocator", "copy assignment", "move assignment", "swap", "std::swap", "construction from a range with all arguments", "... with capacity and allocator", "... with capacity, hash function and allocator", "construction from a list with all arguments", "... with capacity and allocator", "... with capacity, hash function and allocator", "construction from capacity and allocator", "construction from capacity, hash function and allocator", "construction from an allocator", "self-assignment", "construction from a range and an allocator", "self-move"]
def d17(tier):
    j = []
    for m in (15, 16, 1):
        for al in (1, 2, 3, 4, 5, 6, 7):
            for kv in T(tier, (0, 2), (0, 1, 2, 4)):
                for op in range(20):
                    if m == 1 and op in (14, 15, 18): continue
                    if op > 7 and op != 17 and (al >= 2 or kv == 1): continue
                    if al > 2 and (kv not in T(tier, (0,), (0, 4)) or op not in ((0, 1, 4, 5) if al != 4 else (4, 5, 6, 7))): continue
                    if tier != "thorough" and kv == 2 and (op > 7 or al >= 2): continue
                    for other in (0, 1):
                        if al not in (2, 4) and other and op in (6, 7): continue
                        if op > 7 and other: continue
                        for i, (p, n, q, s, k, more, pe) in enumerate(T(tier, [(3, 5, 2, 17, 1, 3, 3)], [(3, 5, 2, 17, 2, 3, 3), (2, 20, 3, 5, 2, 3, 3), (3, 3, 1, 17, 2, 30, 0), (0, 0, 2, 30, 1, 3, 0), (9, 30, 0, 0, 1, 5, 29)])):
                            j.append(dict(name="state%d-%d%s-%d-%d%s" % (op, m, "abcdefg"[kv], al, other, "-%d" % i if i else ""), src="states.cpp", entry="t_state", defs=["-DMAP=%d" % m, "-DKV=%d" % kv, "-DALLOC=%d" % al] + (["-DNOEXCEPT_MOVE"] if kv == 1 else []), params=[p, n, q, s, k, op, other, more, pe], t=60,
                                desc="%s, %s, stateful hash function, equality and allocator (%s%s): %s; maps of %d and %d keys (hashes %s, %s), %d keys with arbitrary hashes, then %d more keys" % (MAPN[m], KVN[kv], ALN[al], ", different ones" if other else "", STN[op], n - pe, s, PATN[p], PATN[q], k, more)))
    return j
PROPS["D17"] = dict(jobs=d17, bounds="One operation on two maps of up to 30 keys each, up to three of them with arbitrary hashes.")
KTN = ["int8_t (given as int)", "bool (given as int)", "int (given as short)", "uint64_t (given as unsigned char)", "double (given as float)", "an enumeration", "a pointer", "std::string (given as const char *)", "std::string_view (given as const char *)", "std::string_view (given as std::string)", "std::string with transparent functors", "std::string on the heap"]
def d13(tier):
    j = []; NM = {15: "group15_flat_map", 16: "group16_flat_map", 1: "robin_hash_map"}
    for m in (15, 16, 1):
        for k in range(12):
            bits = {0: 1, 2: 1, 3: 2, 4: 2, 5: 2}.get(k, 3) + T(tier, 0, 0 if k in (1, 4, 6) or k >= 7 else 1)
            for n in T(tier, (2,), (1, 2, 3)):
                j.append(unit("key%d-n%d-%d" % (k, n, m), "keys.cpp", "t_keys", "%s<K, uint32_t> with the default hash and equality, K = %s: %d insertions, the last in every form" % (NM[m], KTN[k], n), [n, 0xFFFF, bits], 120, defs=["-DMAP=%d" % m, "-DKT=%d" % k]))
    return j
PROPS["D13"] = dict(jobs=d13, bounds="Integer keys of 2 (thorough: 3) free bits; strings of up to 2 free characters (16 fixed ones more in the heap case); doubles from a table that has both zeros. libstdc++'s byte-string hash is replaced by a weak function of the bytes.")
ROP = M("EMPLACE ERASE_K")
def d16(tier):
    j = []
    for m in (15, 16, 1):
        for kv in T(tier, (0, 1, 4), (0, 1, 2, 3, 4, 5)):
            j += [hist("fresh", m, kv, T(tier, 2, 3), 2, ROP | M("CLEAR_T SHRINK RESERVE0 CLEAR_F MOVE_A"), flags=RO | LOOK), hist("few", m, kv, 2, 1 if m == 1 and kv else 2, ROP, pre=(4, 4), nsel=2, flags=RO | LOOK),
                  hist("run", m, kv, 1, T(tier, 1, 2), ROP, pre=(2, 15 if m != 1 else 9), pe=3, nsel=2, flags=RO | LOOK), hist("equal", m, kv, 1, T(tier, 1, 2), ROP, pre=(1, 17 if m != 1 else 7), nsel=2, flags=RO | LOOK), hist("large", m, kv, 1, 1, ROP | CAPO, pre=(5 if m != 1 else 3, 30 if m != 1 or tier != "quick" else 16), nsel=1, flags=RO | LOOK)]
        j += [hist("mixhash", m, 0, 2, 2, ROP, pre=(0, 3), nsel=1, flags=RO | LOOK, mix=True)]
    for m in (15, 16, 1): j += [hist("many%d" % p, m, kv, 1, 1, ROP, pre=(p, 120), pe=q, nsel=1, flags=RO | LOOK, t=T(tier, 60, 300)) for p, q, kv in T(tier, ((0, 10, 0),) if m == 1 else ((6, 10, 0),), ((2 if m != 1 else 0, 10, 0), (3, 70, 1)))]
    for l in T(tier, (3, 6), range(8)): j.append(hist("run", 1, 0, 1, 1, ROP, pre=(2, 9), nsel=2, flags=RO | LOOK, xd=["-DLAYOUT=%d" % l]))
    for x in j: x["env"] = {"SX_ARENA": "1"}; x["desc"] += "; then every read-only operation, with the table, its elements and the library's variables frozen"
    return j
PROPS["D16"] = dict(jobs=d16, bounds=B0 + " Read-only: find, count, contains, at, size, empty, iteration (constant and not), begin/end, bucket_count, load factors, observers, copying from the map.")
def d18(tier):
    j = []; k2 = T(tier, 1, 2)
    for l in range(8):
        for kv in T(tier, (0,) if l not in (3, 7) else (0, 1), (0, 1, 4, 6)):
            x = dict(xd=["-DLAYOUT=%d" % l])
            j += [hist("short", 1, kv, T(tier, 2, 3), 2, M("EMPLACE ERASE_K ERASE_I INDEX_C IOA_C"), flags=AUDIT | AT, **x), hist("all", 1, kv, 1, 1, RA, pre=(3, 5), nsel=1, suf=(0, 1), **x), hist("run", 1, kv, 2, k2, CORE, pre=(2, 9), suf=(2, 2), nsel=2, flags=LOOK, **x),
                  hist("grow", 1, kv, 1, 1, CAPO | CORE, pre=(3, 15), suf=(3, 3), nsel=1, **x), hist("equal", 1, kv, 1, k2, CORE | ERA, pre=(1, 7), suf=(0, 2), nsel=2, flags=LOOK, **x), hist("copy", 1, kv, 1, 1, CPY, pre=(4, 10), pe=3, suf=(0, 2), flags=LOOK, **x)]
    return j
def d19(tier):
    j = []; k2 = T(tier, 1, 2); A = RA; D = dict(xd=["-UNDEBUG"])
    for m in (15, 16, 1):
        F = m != 1
        for kv in T(tier, (0, 1), (0, 1, 2, 3, 4, 5, 6) if not F else (0, 1, 2, 3, 4, 5)):
            j += [hist("any", m, kv, T(tier, 1, 2), T(tier, 1, 2), A, pre=(0, 2), nsel=1, t=T(tier, 60, 200), **D), hist("fresh", m, kv, 2, 1, M("FIND_W ERASE_K CLEAR_F CLEAR_T SHRINK COPY_C MOVE_C SWAP_M ERASE_IF REHASH EMPLACE ITER_W"), flags=AUDIT, **D),
                  hist("full", m, kv, 1, k2, A, pre=(2, 16) if F else (2, 9), nsel=2, suf=(2, 2), flags=LOOK, **D), hist("grow", m, kv, 1, 1, M("EMPLACE INDEX_C ERASE_K COPY_C MOVE_A") | CAPO, pre=(3, 28) if F else (3, 16), nsel=1, suf=(3, 2), flags=LOOK, **D),
                  hist("limit", m, kv, 2, 1, M("EMPLACE ERASE_K ERASE_CI FIND_W"), lops=M("EMPLACE ERASE_K"), pre=(2, LIM[m][0]) if F else (3, LIM[m][0]), nsel=2, suf=(3, 2), flags=LOOK, **D), hist("limit2", m, kv, 1, 1, CORE | CAPO, pre=(6 if F else 3, LIM[m][1]), nsel=1, suf=(3, 1), flags=LOOK, **D),
                  hist("equal", m, kv, 1, 1, M("EMPLACE ERASE_K ERASE_I COPY_A SHRINK CLEAR_F"), pre=(1, 18) if F else (1, 7), nsel=1, suf=(0, 2), flags=LOOK, **D), hist("churn", m, kv, 2, k2, CORE, pre=(2, 27) if F else (4, 12), pe=20 if F else 8, suf=(4, 12) if F else (4, 6), nsel=2, flags=LOOK, **D)]
    for l in T(tier, (4, 7), range(8)): j += [hist("run", 1, 0, 1, 1, CORE | CAPO, pre=(2, 9), suf=(2, 2), nsel=1, flags=LOOK, xd=["-UNDEBUG", "-DLAYOUT=%d" % l])]
    return j
PROPS["D19"] = dict(jobs=d19, bounds=B0 + " Compiled without NDEBUG.")
SHR = 64
def d20(tier):
    j = []; A = RA
    for m in (15, 16, 1):
        F = m != 1
        for kv in T(tier, (0, 2), (0, 1, 2, 3, 4, 5)):
            j += [hist("any", m, kv, T(tier, 1, 2), 1, A, pre=(0, 2), nsel=1, flags=SHR, t=T(tier, 60, 200)), hist("fresh", m, kv, 2, 1, M("FIND_W ERASE_K CLEAR_F CLEAR_T SHRINK COPY_C MOVE_C MOVE_A SWAP_M ERASE_IF REHASH EMPLACE ITER_W"), flags=SHR, lops=T(tier, M("EMPLACE CLEAR_F ERASE_K COPY_A"), 0)),
                  hist("full", m, kv, 1, 1, A, pre=(2, 16) if F else (2, 9), suf=(2, 2), flags=LOOK | SHR), hist("grow", m, kv, 1, 1, M("EMPLACE ERASE_K COPY_C MOVE_A") | CAPO | CLR, pre=(3, 28) if F else (3, 16), nsel=1, suf=(3, 2), flags=LOOK | SHR)]
        j.append(hist("mix", m, 0, 2, 2, M("EMPLACE ERASE_K CLEAR_F COPY_A"), flags=SHR, mix=True))
    for l in T(tier, (4, 7), range(8)): j += [hist("run", 1, 0, 1, 1, CORE | CAPO | CLR, pre=(2, 9), suf=(2, 2), nsel=1, flags=LOOK | SHR, xd=["-DLAYOUT=%d" % l])]
    for x in j: x["desc"] += "; the variables of the library are frozen throughout"
    return j
PROPS["D20"] = dict(jobs=d20, bounds=B0 + " The library's variables with static storage may not be written after the first use of a map of the type (first initialisations under their guard aside).")
SOPS = "FIND AT INDEX INSERT INSERT_R EMPLACE TRY IOA HINT RANGE ERASE_K ERASE_I ERASE_CI ERASE_R ERASE_IF RESERVE MOVE_C MOVE_A SWAP SWAP_S COPY ITER CLEAR".split()
def SM(*names): return sum(1 << SOPS.index(n) for s in names for n in s.split())
def stab(tag, m, kv, n, K, ops, pre=(0, 0), pe=0, nsel=0, cap=0, fill=0, t=60, xd=()):
    d = "%s, %s: %d keys (hashes %s)%s, then %d free operations of %d kinds over %d keys with arbitrary hashes%s%s%s" % (MAPN[m], KVN[kv], pre[1], PATN[pre[0]], ", %d of them erased" % pe if pe else "", n, bin(ops).count("1"), K, " and %d of the first ones" % nsel if nsel else "", ", after reserve() of up to %d more" % (cap - 1) if cap else "", ", then %d more keys" % fill if fill else "")
    for x in xd: d += ", " + XDN.get(x, x)
    return dict(name="%s-%d%s" % (tag, m, "abcdefg"[kv]) + "".join("-" + x[2:].replace("=", "") for x in xd), src="stable.cpp", entry="t_stable", defs=defs(m, kv, *xd), params=[n, K, ops, pre[0], pre[1], pe, nsel, cap, fill], t=t, desc=d)
def d21(tier):
    j = []; ALL = (1 << len(SOPS)) - 1; TT = T(tier, 60, 200)
    for m in (15, 16, 1):
        F = m != 1
        for kv in T(tier, (0, 2), (0, 1, 2, 3, 4, 5)):
            j += [stab("any", m, kv, 2, 1, ALL, pre=(0, 3), nsel=1), stab("full", m, kv, 1, T(tier, 1, 1), ALL, pre=(2, 16) if F else (2, 9), nsel=3, fill=2),
                  stab("two", m, kv, 2, 1, SM("EMPLACE INDEX ERASE_K ERASE_I FIND HINT MOVE_A SWAP"), pre=(8, 24) if F else (2, 6), nsel=T(tier, 1, 2), fill=1),
                  stab("equal", m, kv, 2, 1, SM("EMPLACE TRY ERASE_K ERASE_CI IOA"), pre=(1, 18) if F else (1, 5), nsel=2, fill=2),
                  stab("room", m, kv, 1, 1, SM("EMPLACE INDEX ERASE_K RESERVE CLEAR") if tier == "quick" else SM("EMPLACE INDEX ERASE_K RESERVE CLEAR INSERT RANGE"), pre=(3, 3), nsel=1, cap=T(tier, 40, 70) if kv in (0, 5) else T(tier, 8, 40), fill=T(tier, 40, 70), t=TT),
                  stab("last", m, kv, 1, 0, SM("ERASE_K ERASE_I ERASE_CI ERASE_R ERASE_IF FIND MOVE_A"), pre=(3, 1), nsel=1, cap=T(tier, 34, 64), fill=T(tier, 34, 64), t=TT),
                  stab("holes", m, kv, 2, 1, SM("EMPLACE TRY ERASE_K INSERT_R RESERVE"), pre=(4, 27) if F else (3, 11), pe=T(tier, 12, 14) if F else 5, nsel=T(tier, 1, 2), cap=T(tier, 4, 8), fill=8),
                  stab("limit", m, kv, 1, 1, ALL & ~SM("RANGE"), pre=(2 if F else 3, LIM[m][0]), nsel=2), stab("limit2", m, kv, 1, 1, SM("EMPLACE INDEX TRY IOA HINT INSERT FIND ERASE_K COPY RESERVE"), pre=(6 if F else 3, LIM[m][1]), nsel=2)]
        j += [stab("many%d" % p, m, kv, 1, 1, ALL & ~SM("RANGE"), pre=(p, 120), pe=q, nsel=1, fill=5, t=T(tier, 60, 300)) for p, q, kv in T(tier, ((6, 10, 0),), ((2 if F else 0, 10, 0), (3, 0, 2)))]
    for l in T(tier, (3, 4, 7), range(8)): j += [stab("any", 1, 0, 2, 1, ALL, pre=(0, 3), nsel=1, xd=["-DLAYOUT=%d" % l]), stab("run", 1, 0, 2, 1, SM("EMPLACE TRY ERASE_K IOA FIND SWAP RESERVE"), pre=(2, 9), nsel=2, fill=2, xd=["-DLAYOUT=%d" % l])]
    return j
def u06(tier):
    o = []; HOW = ["constructed", "seeded anew", "keys", "a vector of keys", "seeded anew with keys", "seeded anew with a vector of keys", "the default seed"]
    for b, n, w in ((32, 624, "mt32"), (64, 312, "mt64")):
        for h in range(7): o.append(unit("%s-%d" % (w, h), "rng.cpp", "t_" + w, "MT19937-%d, %s: every %sseed, the first %d numbers" % (b, HOW[h], "" if h in (0, 1, 6) else "key of 3 words and every ", T(tier, 2 * n + 3, 3 * n + 3)), [T(tier, 2 * n + 3, 3 * n + 3), h, 3 if 2 <= h <= 5 else 0, b], T(tier, 60, 200)))
        for h in (2, 3, 4, 5):
            for len in T(tier, (n + 3,) if h in (2, 3) else (n - 1,), (1, 2, n - 1, n, n + 1, n + 70)): o.append(unit("%s-long-%d-%d" % (w, h, len), "rng.cpp", "t_" + w, "MT19937-%d, %s: key of %d words (%s), every seed, the first %d numbers" % (b, HOW[h], len, "every content" if len <= 8 else "four of them arbitrary", n + 3), [n + 3, h, len, b], T(tier, 60, 200)))
    TN = ["int32", "uint32", "int64", "uint64", "int", "uint"]; R = ["any bounds", "the full range", "a range of six values", "equal bounds", "2^30 or 2^62 values", "the full range but one value, bounds exchanged", "a range of up to 15 values"]
    for k in range(6):
        for r in range(7): o.append(unit("range-%s-%d" % (TN[k], r), "rng.cpp", "t_bound", "every number delivered by the underlying generator, %s" % R[r], [k, r], T(tier, 30, 120)))
        for x in range(4 * 14) if "32" in TN[k] else T(tier, [1, 3, 4 * 7, 4 * 12, 4 * 12 + 2, 4 * 13 + 2], range(0, 4 * 14, 3)): o.append(unit("each-%s-%d" % (TN[k], x), "rng.cpp", "t_bound", "value %d of a range of up to seven can be drawn" % (x // 8), [k, 7, x], 60, must="every value of the range can be drawn"))
        for x in range(3): o.append(unit("full-%s-%d" % (TN[k], x), "rng.cpp", "t_bound", "the smallest, greatest and another value of the full range can be drawn", [k, 8, x], 60, must="every value of the range can be drawn"))
        for r in range(3): o.append(unit("below-%s-%d" % (TN[k], r), "rng.cpp", "t_bound", "every number delivered by the underlying generator, %s" % ["any bound", "the greatest bound", "a bound below 15"][r], [6 + k, r], T(tier, 30, 120)))
    return o
def u07(tier):
    o = [unit("range", "iters.cpp", "t_range", "every content of a sequence of four elements", [4]), unit("swap", "iters.cpp", "t_swap", "every content of four elements, every range", [4])]
    for n in range(0, T(tier, 5, 8)): o += [unit("walk-%d" % n, "iters.cpp", "t_walk", "every pair of positions in a sequence of %d elements" % n, [n]), unit("reverse-%d" % n, "iters.cpp", "t_reverse", "every pair of positions in, every content of a sequence of %d elements" % n, [n])]
    return o
PROPS["U07"] = dict(jobs=u07, bounds="Sequences of up to seven elements; raw pointers, forward and bidirectional iterators written for the check and with the standard tags, std::forward_list iterators.")
PROPS["U06"] = dict(jobs=u06, bounds="The first numbers after seeding, up to the third block; keys of three words, and keys around the length of the state with four arbitrary words.")
PROPS["D21"] = dict(jobs=d21, bounds=B0)
PROPS["D18"] = dict(jobs=d18, bounds=B0)
def u03(tier):
    o = []; thorough = tier != "quick"
    MODES = [("", []), ("-u64", ["-DSX_MODE=STRING_UTILS_U64"]), ("-stl", ["-DSX_MODE=STRING_UTILS_STL"])]; CH = [("char", "char"), ("wchar", "wchar_t"), ("c16", "unsigned short")]
    for cn, ct in CH:
        for mn, md in MODES:
            if cn == "c16" and mn == "-stl": continue
            d = ["-DSX_CHAR=" + ct] + md; C = "every content of two %s strings%s" % (ct, (" (" + md[0][2:] + ")") if md else "")
            def U(n, e, desc, p): o.append(unit(n + "-" + cn + mn, "strings.cpp", e, desc, p, 90, defs=d))
            per = 16 if ct == "char" else 4 if ct == "wchar_t" else 8
            for n in range(0, 2 * per + 3 if ct == "char" else 2 * per + 4 if thorough or ct != "wchar_t" else 2 * per + 1): U("cmp-%d-%d" % (n, n), "t_cmp", C + " of %d characters" % n, [n, n, n, n])
            for n, m in [(0, 3), (3, 5), (per - 1, per), (per, per + 1), (per + 1, 2 * per), (2 * per + 1, per + 2), (2 * per, 1), (2, 0)]: U("cmp-%d-%d" % (n, m), "t_cmp", C + " of %d and %d characters" % (n, m), [n, n, m, m])
            if thorough:
                for n in range(0, 2 * per + 6): U("cmpall-%d" % n, "t_cmp", C + " of %d and 0..%d characters" % (n, 2 * per + 5), [n, n, 0, 2 * per + 5])
            if mn == "" or thorough:
                for n, m in [(0, 0), (2, 3), (4, 2)]:
                    for w in range(11): U("sub%d-%d-%d" % (w, n, m), "t_sub", "%s strings of %d and %d characters, every 64-bit position and count" % (ct, n, m), [n, m, w])
            if mn == "":
                for n, m in ([(0, 0), (3, 3), (4, 2), (2, 4)]):
                    if ct != "unsigned short": U("cstr-%d-%d" % (n, m), "t_cstr", C, [n, m]); U("ctl-%d-%d" % (n, m), "t_ctl", C + ", without NULs", [n, m])
                for n in (0, 1, 4): U("iter-%d" % n, "t_iter", "%s views of %d characters" % (ct, n), [n])
                for w in range(6): U("mod%d" % w, "t_mod", "%s views of 3 characters extended by 2" % ct, [3, 2, w]); U("mod%d-0" % w, "t_mod", "%s views of 0 characters extended by 1" % ct, [0, 1, w])
    return o
PROPS["U03"] = dict(jobs=u03, bounds="Lengths as listed per job; contents, positions and counts are arbitrary. Lengths of 2^31 and more are outside. STRING_UTILS_MODE unset (SSE4.2), U64 and STL; the LIBC mode compares C strings only.")
PROPS["D14"] = dict(jobs=d14, bounds="Keys of the lengths listed per job.")
PROPS["U01"] = dict(jobs=u01, bounds="All arguments; no loop is cut.")
PROPS["U02"] = dict(jobs=u02, bounds="All arguments; no loop is cut.")
PROPS["R01"] = dict(jobs=r01, bounds=B0)
PROPS["R02"] = dict(jobs=r02, bounds=B0)
PROPS["R03"] = dict(jobs=r03, bounds=B0)
PROPS["R04"] = dict(jobs=r04, bounds=B0)
PROPS["R05"] = dict(jobs=r05, bounds=B0)
PROPS["R06"] = dict(jobs=r06, bounds=B0)
PROPS["R07"] = dict(jobs=r07, bounds=B0)
PROPS["R08"] = dict(jobs=r08, bounds=B0)
PROPS["R09"] = dict(jobs=r09, bounds=B0)
PROPS["R10"] = dict(jobs=r10, bounds=B0)
PROPS["R11"] = dict(jobs=r11, bounds=B0)
PROPS["R12"] = dict(jobs=r12, bounds=B0)
