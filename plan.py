"""What every check explores: jobs (entry point and parameters) of the two tiers, with the bounds they stand for."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PLAN = {}

VEC, LIST, QUEUE, STACK, HMAP, RMAP, HSET, RSET = range(8)
SEQ = (VEC, LIST, QUEUE, STACK)
RC, ARCT, ARC, OWN = range(4)  # pointer kinds; OWN is the user-supplied one of the harness in P28 to P31, elsewhere ArcK


def J(which, kind=RC, cfg=0, sym=0, lo=0, hi=0, nk=0, extra=(), prefix=()):
    """The layout of harness/src/gen.rs: start()."""
    ex = list(extra)
    assert len(ex) <= 5
    p = [which, kind, cfg, sym, lo, hi, nk] + ex + [0] * (5 - len(ex)) + list(prefix)
    while len(p) > 7 and p[-1] == 0:
        p.pop()
    return tuple(p)


_shapes = None


def shapes(lo, hi):
    """Histories that reach every red-black tree shape of lo..hi nodes: (nodes, keys ever used, encoded operations)."""
    global _shapes
    if _shapes is None:
        _shapes = []
        for l in open(os.path.join(HERE, "tools", "rbt_shapes.txt")):
            x = [int(v) for v in l.split()]
            _shapes.append((x[0], x[1], x[2:]))
    return [s for s in _shapes if lo <= s[0] <= hi]


def rbt(which, kind, lo, hi, sym, extra=()):
    """One job for every shape of lo..hi nodes, with sym further keys of any place in the order."""
    return [J(which, kind, 0, sym, 0, 0, nk, extra, ops) for _, nk, ops in shapes(lo, hi)]


def ham(which, kind, degree, lo, hi, inserted, sym, extra=(), more=()):
    """`inserted` keys of symbolic hash put in first and `sym` more that may be used."""
    return J(which, kind, degree, sym, lo, hi, inserted, extra, [1 + i for i in range(inserted)] + list(more))


def seq(which, kind, cfg, n, extra=()):
    """n elements put in first."""
    return J(which, kind, cfg, 0, 0, 0, 0, extra, [1] * n)


LONG = 1 << 20


def long(which, kind, pattern, n, extra=(), cfg=0, hashes=0, sym=1):
    """A starting state of n elements (or keys) made by one of the long patterns; sym keys more of symbolic hash or order."""
    if which in (HMAP, HSET):
        return J(which, kind, cfg or 64, sym, 100 + hashes, 0, n, extra, [(pattern + 1) * LONG + n])
    if which in (RMAP, RSET):
        return J(which, kind, 0, sym, 0, 0, n, extra, [(pattern + 1) * LONG + n])
    return J(which, kind, cfg, 0, 0, 0, 0, extra, [(pattern + 1) * LONG + n])


def prop(pid, bounds, quick, thorough, outside="", witnesses=(), assumptions=(), budget=None, **kw):
    def flat(d):
        return [(e, list(ps)) for e, ps in d.items()]
    q = dict(quick)
    t = {e: list(ps) for e, ps in q.items()}
    for e, ps in thorough.items():
        have = set(map(tuple, t.get(e, [])))
        t[e] = t.get(e, []) + [p for p in ps if tuple(p) not in have]
    sizes = [x % LONG for ps in q.values() for p in ps for x in p[12:] if x >= LONG]
    if sizes:
        bounds += (f" The same from {len(sizes)} starting states of {min(sizes)} to {max(sizes)} elements made by concrete histories "
                   "(in order; more, then some removed; scattered with removals; for tries, hashes spread wide, crowded into few "
                   "groups, or colliding), with fewer free operations after them.")
    PLAN[pid] = dict(feature=pid.lower(), bounds=bounds, outside=outside, quick=flat(q), thorough=flat(t),
                     witnesses=[f"{e}:{i}" for e, i in witnesses], assumptions=list(assumptions),
                     budget=budget or {"quick": 420, "thorough": 7200}, **kw)


HASHES = ("64: every 64-bit hash; otherwise the named number of lowest and highest hash bits is symbolic and the bits "
          "between are zero, which drives keys of equal low bits down the whole trie")

# ---------------------------------------------------------------------------------------------------- sequences
prop("P01",
     bounds="p01_hist: every history of 2 operations (in-place; 3 from empty) over every index, from lengths around each "
            "change of height for 1, 2 and 3 bits, shared with a clone or not, 3 pointer kinds. p01_ends: every history of 4 "
            "operations at the two ends, of growth and of cloning. p01_index: one read or write at every 64-bit index. "
            "p01_long: lengths to 1100 with symbolic index near the boundaries. p01_bits: every 8-bit branching factor.",
     outside="lengths above 4200 and histories longer than stated; element values only matter by identity (parametricity)",
     quick=dict(
         p01_hist=[(0, 1, n, 2, s) for n in (0, 1, 2, 3, 4, 5, 8, 9) for s in (0, 1)]
         + [(0, 2, n, 2, 1) for n in (3, 4, 5, 15, 16, 17)] + [(1, 1, n, 2, 1) for n in (2, 4, 5)]
         + [(2, 0, n, 1, 1) for n in (0, 31, 32, 33)] + [(0, 1, 0, 3, 0), (0, 3, 8, 2, 1)],
         p01_ends=[(0, 1, n, 4) for n in (0, 1, 3, 4, 7, 8, 9, 16, 17)] + [(0, 2, n, 3) for n in (4, 16, 17, 64, 65)]
         + [(0, 5, n, 2) for n in (32, 33)],
         p01_index=[(1, 0), (1, 1), (1, 5), (1, 8), (1, 9), (1, 16), (1, 17), (2, 16), (2, 17), (0, 32), (0, 33), (3, 65)],
         p01_long=[(1, 33, 2), (1, 64, 2), (2, 64, 2), (2, 65, 2), (2, 257, 1), (0, 1024, 2), (0, 1026, 2), (8, 257, 2)],
         p01_bits=[(3,)],
     ),
     thorough=dict(
         p01_hist=[(0, 1, n, 3, 1) for n in range(0, 10)] + [(0, 2, n, 3, 1) for n in (3, 4, 5, 15, 16)]
         + [(k, 1, n, 2, s) for k in (1, 2) for n in range(0, 18) for s in (0, 1)],
         p01_ends=[(0, 1, n, 6) for n in range(0, 18)] + [(0, 2, n, 5) for n in (0, 4, 15, 16, 17, 64)]
         + [(0, 5, n, 4) for n in (31, 32, 33)],
         p01_index=[(1, n) for n in range(0, 34)] + [(2, n) for n in range(0, 66)] + [(0, n) for n in (1024, 1025)],
         p01_long=[(1, n, 4) for n in (16, 17, 32, 64, 128)] + [(2, n, 3) for n in (256, 257)] + [(0, 4100, 2), (4, 257, 3)]
         + [(3, 513, 3), (6, 4097, 2)],
         p01_bits=[(5,)],
     ),
     witnesses=[("p01_bits", 1), ("p01_bits", 2), ("p01_index", 1), ("p01_long", 1), ("p01_ends", 1), ("p01_hist", 1)])

LONGSEQ = ((RC, 0, 40), (ARCT, 1, 70), (RC, 2, 300))
for pid, w, name in (("P02", LIST, "List"), ("P03", QUEUE, "Queue"), ("P04", STACK, "Stack")):
    e, p = pid.lower() + "_hist", pid.lower() + "_pers"
    n = {"P02": 9, "P03": 14, "P04": 14}[pid]
    prop(pid,
         bounds=f"every history of {n} operations on a {name} from empty (everything observable compared with the model at "
                "the end; of 4, after every operation) and of 5 operations from 1 to 8 elements, of 2 from up to 300 elements, in-place forms and "
                "persistent forms, pointer kinds Rc and Arc",
         outside="longer histories; element values only matter by identity (parametricity)",
         quick={e: [seq(w, RC, 0, 0, (n, 0)), seq(w, ARCT, 0, 0, (4, 1)), seq(w, ARC, 0, 0, (4, 1))]
                + [seq(w, RC, 0, k, (5, 1)) for k in range(1, 9)] + [long(w, k, p, m, (2, 0)) for k, p, m in LONGSEQ],
                p: [seq(w, RC, 0, 0, (n - 1,)), seq(w, ARCT, 0, 2, (4,))] + [seq(w, OWN, 0, k, (5,)) for k in range(1, 9)]
                + [long(w, k, p, m, (2,)) for k, p, m in LONGSEQ]},
         thorough={e: [seq(w, RC, 0, 0, (n + 3, 0)), seq(w, ARCT, 0, 3, (6, 1)), seq(w, OWN, 0, 9, (5, 1))],
                   p: [seq(w, RC, 0, 0, (n + 2,)), seq(w, ARCT, 0, 3, (6,)), seq(w, ARC, 0, 9, (5,))]},
         witnesses=[(e, 1), (p, 1)])

# ---------------------------------------------------------------------------------------------------- maps
# keys, degree, and which of the concrete hash patterns of harness/src/gen.rs
LONGHASH = ((40, 64, 0), (36, 4, 1), (33, 64, 2), (40, 16, 3), (24, 2, 0))

prop("P05",
     bounds="every history of 1 or 2 operations (insert, remove, change in place) with keys already in the map and new ones, "
            "hashes symbolic. " + HASHES + ". Degrees 2, 4, 16, 64; every 8-bit degree for construction and 2 insertions.",
     outside="more than 4 keys of symbolic hash at once, histories longer than stated",
     quick=dict(
         p05_hist=[ham(0, RC, 64, 64, 0, 2, 1, (1, 1)), ham(0, RC, 64, 64, 0, 2, 1, (2,)), ham(0, RC, 64, 0, 4, 1, 2, (2,)),
                   ham(0, ARCT, 16, 4, 4, 3, 1, (1, 1)), ham(0, RC, 16, 4, 4, 3, 1, (2,)), ham(0, RC, 4, 2, 2, 3, 1, (2,)),
                   ham(0, RC, 2, 2, 2, 3, 1, (1, 1)), ham(0, RC, 2, 64, 0, 1, 1, (2,)), ham(0, ARC, 64, 0, 0, 3, 1, (2, 1)),
                   ham(0, RC, 64, 0, 0, 4, 0, (2,)), ham(0, RC, 64, 6, 4, 2, 1, (2,))]
         + [long(HMAP, RC, p, n, (1, 0), d, h, 1) for p in range(3) for n, d, h in LONGHASH],
         p05_pers=[ham(0, RC, 64, 64, 0, 2, 1, (1,)), ham(0, RC, 16, 4, 4, 3, 1, (1,)), ham(0, ARCT, 4, 2, 2, 3, 1, (1,)),
                   ham(0, OWN, 64, 0, 0, 3, 1, (2,)), ham(0, RC, 2, 2, 2, 2, 1, (2,))]
         + [long(HMAP, ARCT, p, n, (1,), d, h, 1) for p in range(3) for n, d, h in LONGHASH],
         p05_degree=[(2,)],
     ),
     thorough=dict(
         p05_hist=[ham(0, RC, 64, 64, 0, 2, 2, (2,)), ham(0, RC, 2, 64, 0, 2, 1, (1,)), ham(0, RC, 4, 2, 2, 3, 2, (3,)),
                   ham(0, RC, 16, 4, 4, 4, 1, (2,)), ham(0, RC, 64, 64, 0, 3, 1, (2,)), ham(0, RC, 32, 5, 3, 3, 1, (3,)),
                   ham(0, RC, 64, 0, 0, 4, 1, (4,)), ham(0, RC, 8, 3, 3, 3, 1, (3,)), ham(0, RC, 2, 2, 2, 3, 1, (3,))],
         p05_pers=[ham(0, RC, 64, 64, 0, 2, 1, (2,)), ham(0, RC, 16, 4, 4, 3, 1, (2,)), ham(0, ARCT, 4, 2, 2, 3, 1, (3,))],
         p05_degree=[(3,)],
     ),
     witnesses=[("p05_hist", 1), ("p05_pers", 1), ("p05_degree", 2), ("p05_degree", 3)])

prop("P06",
     bounds="one operation (insert of any key, replace, remove, change in place) in every tree shape of 0 to 10 nodes, two in "
            "every shape of 0 to 5 (quick) or 8 (thorough), every history of 4 from empty; places of the new keys in the order "
            "symbolic over 8 bits, everything observable compared after each operation",
     outside="trees above 11 nodes; histories longer than stated from larger shapes",
     quick=dict(
         p06_hist=rbt(0, RC, 0, 8, 1, (1,)) + rbt(0, RC, 9, 10, 1, (1,)) + rbt(0, RC, 0, 5, 2, (2,)) + [J(0, ARCT, 0, 4, extra=(4, 0))]
         + rbt(0, ARC, 0, 4, 1, (1, 1)) + [long(RMAP, RC, p, n, (1, 0)) for p in range(3) for n in (40, 65)],
         p06_pers=rbt(0, RC, 0, 7, 1, (1,)) + rbt(0, ARCT, 2, 4, 1, (2,)) + rbt(0, OWN, 5, 5, 1, (1,))
         + [long(RMAP, ARCT, p, 40, (1,)) for p in range(3)],
     ),
     thorough=dict(
         p06_hist=rbt(0, RC, 11, 11, 1, (1,)) + rbt(0, RC, 6, 8, 2, (2,)) + rbt(0, RC, 3, 5, 2, (3,)) + [J(0, RC, 0, 6, extra=(6, 0))],
         p06_pers=rbt(0, RC, 8, 9, 1, (1,)) + rbt(0, RC, 5, 6, 1, (2,)),
     ),
     witnesses=[("p06_hist", 1), ("p06_pers", 1)])

prop("P07",
     bounds="every interleaving of next and next_back (to two calls after the end) over entries, keys, values and into_iter, in "
            "every tree shape of 0 to 6 (thorough 8) nodes; with nth, nth_back, last, count, fold, rfold up to 4 (thorough 5)",
     outside="larger trees",
     quick=dict(p07_iter=[x for it in range(4) for x in rbt(0, RC, 0, 6, 0, (0, it))] + rbt(0, ARCT, 5, 7, 0, (0, 0))
                + [x for it in range(4) for x in rbt(0, RC, 0, 4, 0, (0, it, 1))] + rbt(0, RC, 0, 5, 1, (1, 0))
                + [long(RMAP, k, p, n, (0, it), sym=0) for k, p, n, it in ((RC, 0, 40, 0), (RC, 1, 60, 1), (ARCT, 2, 50, 0), (RC, 0, 64, 2), (RC, 1, 100, 3))]),
     thorough=dict(p07_iter=rbt(0, RC, 7, 9, 0, (0, 0)) + rbt(0, ARC, 5, 6, 0, (0, 0, 1)) + rbt(0, RC, 6, 7, 1, (1, 0))
                   + rbt(0, RC, 2, 4, 1, (2, 3))),
     witnesses=[("p07_iter", 1)])

prop("P08",
     bounds="all nine pairs of bound kinds, bounds symbolic over 8 bits, all interleavings of next and next_back, in every tree "
            "shape of 0 to 6 (thorough 8) nodes, map and set; range syntax (.., a.., ..b, a..b, ..=b, a..=b) on 3 elements",
     outside="larger trees",
     quick=dict(p08_map=rbt(0, RC, 0, 5, 0, (8,)) + rbt(0, ARCT, 6, 6, 0, (8,)), p08_set=rbt(0, RC, 0, 5, 0, (8,)),
                p08_long=[long(w, k, p, n, (b, s), sym=0) for w, k, p, n, b, s in ((RMAP, RC, 0, 12, 5, 0), (RMAP, RC, 1, 60, 4, 3), (RSET, RC, 2, 40, 3, 3))],
                p08_sugar=[(3,)]),
     thorough=dict(p08_map=rbt(0, RC, 6, 8, 0, (8,)), p08_set=rbt(0, RC, 6, 7, 0, (8,)), p08_sugar=[(5,)]),
     witnesses=[("p08_map", 1), ("p08_map", 2), ("p08_map", 3), ("p08_long", 1), ("p08_set", 1), ("p08_sugar", 1)])

# ---------------------------------------------------------------------------------------------------- versions
prop("P09",
     bounds="every schedule of 3 steps (thorough 4), each an in-place or persistent operation on, the drop of, or the overwriting by a clone of, any of up to 3 "
            "versions, for the eight collections; then one version is kept and the others dropped. Sequences to 9 elements, "
            "tree shapes to 4 nodes (thorough 7), tries of 3 keys with symbolic hashes. " + HASHES,
     outside="longer histories, more versions at once",
     quick=dict(p09_fork=[seq(VEC, RC, 1, n, (2, 3)) for n in (2, 4, 5, 8)] + [seq(VEC, RC, 2, 4, (2, 3)), seq(VEC, ARCT, 1, 3, (2, 2, 1))]
                + [seq(w, k, 0, n, (3, 3)) for w in (LIST, QUEUE, STACK) for k, n in ((RC, 0), (ARCT, 2), (RC, 3))]
                + [x for w in (RMAP, RSET) for x in rbt(w, RC, 0, 4, 1, (2, 2)) + rbt(w, ARCT, 5, 6, 1, (1, 2))]
                + [x for w in (HMAP, HSET) for x in (ham(w, RC, 64, 64, 0, 2, 1, (1, 2)), ham(w, RC, 4, 2, 2, 3, 1, (1, 2)),
                                                     ham(w, RC, 4, 2, 0, 2, 1, (2, 2)), ham(w, ARC, 64, 0, 0, 3, 0, (2, 2)))]
                + [long(w, k, p, n, (1 if w == VEC else 2, 2), 1 if w == VEC else 0) for w in SEQ for k, p, n in ((RC, 0, 33), (ARC, 1, 64))]
                + [long(w, RC, p, 20, (1, 2)) for w in (RMAP, RSET) for p in range(3)]
                + [long(w, RC, 2, n, (1, 2), d, h, 1) for w in (HMAP, HSET) for n, d, h in LONGHASH]),
     thorough=dict(p09_fork=[seq(VEC, RC, 1, n, (3, 3)) for n in (1, 2, 3, 4, 5)] + [seq(w, k, 0, n, (5, 3)) for w in (LIST, QUEUE, STACK) for k, n in ((RC, 1), (OWN, 3))]
                   + [x for w in (RMAP, RSET) for x in rbt(w, RC, 5, 6, 1, (2, 2)) + rbt(w, RC, 7, 8, 1, (1, 2)) + rbt(w, RC, 0, 2, 2, (3, 3))]
                   + [x for w in (HMAP, HSET) for x in (ham(w, RC, 64, 64, 0, 2, 1, (2, 2)), ham(w, RC, 4, 2, 2, 3, 1, (2, 2)))]),
     witnesses=[("p09_fork", 1)])

prop("P10",
     bounds="every operation in both forms from every state reached: tree shapes of 0 to 6 nodes, tries of 3 keys with symbolic "
            "hashes, sequences to 17 elements after 1 or 2 symbolic operations, with and without another handle held. " + HASHES,
     outside="larger states",
     quick=dict(p10_agree=[x for h in (0, 1) for x in
                [seq(VEC, RC, 1, n, (1, 1, h)) for n in (0, 1, 2, 4, 5, 8, 9, 16)] + [seq(VEC, RC, 2, n, (1, 1, h)) for n in (4, 16)]
                + [seq(w, RC, 0, 0, (3, 1, h)) for w in (LIST, QUEUE, STACK)]
                + [x for w in (RMAP, RSET) for x in rbt(w, RC, 0, 6, 1, (0, 1, h))]
                + [x for w in (HMAP, HSET) for x in (ham(w, RC, 64, 64, 0, 2, 1, (0, 1, h)), ham(w, ARCT, 4, 2, 2, 3, 1, (0, 1, h)),
                                                     ham(w, RC, 64, 0, 0, 3, 1, (0, 1, h)), ham(w, RC, 16, 4, 4, 2, 1, (1, 1, h)))]
                + [long(w, RC, p, n, (0, 1, h)) for w in SEQ for p, n in ((0, 64), (1, 33), (2, 70))]
                + [long(w, RC, 1 + h, 20, (0, 1, h)) for w in (RMAP, RSET)]
                + [long(w, RC, 1 + h, n, (0, 1, h), d, x, 1) for w in (HMAP, HSET) for n, d, x in LONGHASH]]),
     thorough=dict(p10_agree=[x for h in (0, 1) for x in
                   [seq(VEC, RC, 1, n, (2, 1, h)) for n in (3, 4, 7, 8, 9)] + [seq(w, RC, 0, 0, (5, 1, h)) for w in (LIST, QUEUE, STACK)]
                   + [x for w in (RMAP, RSET) for x in rbt(w, RC, 7, 8, 1, (0, 1, h)) + rbt(w, RC, 3, 5, 1, (1, 1, h))]
                   + [x for w in (HMAP, HSET) for x in (ham(w, RC, 64, 64, 0, 2, 1, (1, 1, h)), ham(w, RC, 4, 2, 2, 3, 1, (1, 1, h)))]]),
     witnesses=[("p10_agree", 1), ("p10_agree", 2)])

prop("P11",
     bounds="every interleaving of next and next_back (Vector) or every prefix of next calls, with nth, last, count, fold where "
            "stated, after 2 symbolic operations on 0 to 9 elements; vectors to 4 levels",
     outside="longer sequences except the slab runs (to 300 elements, symbolic split between the two ends)",
     quick=dict(p11_seq=[seq(VEC, RC, b, n, (1, 0, j, i)) for b, n in ((1, 0), (1, 3), (1, 5), (2, 5)) for j in (0, 1) for i in (0, 1)]
                + [seq(w, RC, 0, n, (3, 0, j, i)) for w in (LIST, QUEUE, STACK) for n in (0, 3) for j in (0, 1) for i in (0, 1)],
                p11_slab=[(0, 0, 1, 17), (0, 0, 2, 17), (0, 1, 1, 33), (0, 0, 0, 33), (0, 0, 0, 65), (0, 0, 3, 65)]),
     thorough=dict(p11_seq=[seq(VEC, RC, b, n, (1, 0, j, i)) for b, n in ((1, 7), (1, 8), (2, 8)) for j in (0, 1) for i in (0, 1)]
                   + [seq(w, ARCT, 0, n, (5, 0, j, i)) for w in (LIST, QUEUE, STACK) for n in (0, 4) for j in (0, 1) for i in (0, 1)],
                   p11_slab=[(0, 0, 1, 65), (0, 0, 2, 257), (0, 0, 8, 300)]),
     witnesses=[("p11_seq", 1), ("p11_slab", 1)])

prop("P12",
     bounds="entries, keys, values and into_iter after 1 operation on tries of 2 to 4 keys with symbolic hashes, remaining length at every step. " + HASHES,
     outside="more keys, deeper mixes of collision buckets and branches",
     quick=dict(p12_map=[ham(0, RC, 64, 64, 0, 2, 1, (1,)), ham(0, RC, 4, 2, 2, 3, 1, (1,)), ham(0, ARCT, 16, 4, 4, 2, 1, (1,)),
                         ham(0, RC, 64, 0, 0, 4, 0, (1,)), ham(0, RC, 2, 2, 1, 2, 1, (1,))]
                + [long(HMAP, k, p, n, (0,), d, h, 0) for k, p in ((RC, 0), (ARCT, 1), (RC, 2)) for n, d, h in LONGHASH],
                p12_set=[ham(0, RC, 64, 64, 0, 2, 1, (1,)), ham(0, RC, 4, 2, 2, 3, 1, (1,)), ham(0, ARC, 64, 0, 0, 4, 0, (1,))]
                + [long(HSET, k, p, n, (0,), d, h, 0) for k, p in ((RC, 0), (ARCT, 2)) for n, d, h in LONGHASH]),
     thorough=dict(p12_map=[ham(0, RC, 64, 64, 0, 3, 1, (1,)), ham(0, RC, 4, 2, 2, 4, 1, (1,)), ham(0, RC, 16, 4, 4, 3, 1, (2,)),
                            ham(0, RC, 2, 3, 2, 4, 0, (1,))],
                   p12_set=[ham(0, RC, 64, 64, 0, 3, 1, (1,)), ham(0, RC, 4, 2, 2, 4, 1, (1,)), ham(0, RC, 8, 3, 3, 4, 0, (2,))]),
     witnesses=[("p12_map", 1), ("p12_set", 1)])

prop("P13",
     bounds="as P05 for sets; subset, superset and disjointness of every two sets over 3 (thorough 4) keys, degrees and hashers "
            "different, and of two versions of one set. " + HASHES,
     outside="more keys",
     quick=dict(p13_hist=[ham(0, RC, 64, 64, 0, 2, 1, (2, 1)), ham(0, RC, 16, 4, 4, 3, 1, (1,)), ham(0, ARCT, 4, 2, 2, 3, 1, (2,)),
                          ham(0, RC, 64, 0, 0, 4, 0, (2,)), ham(0, RC, 2, 2, 2, 2, 1, (2,))]
                + [long(HSET, RC, p, n, (1, 0), d, h, 1) for p in range(3) for n, d, h in LONGHASH],
                p13_pers=[ham(0, RC, 64, 64, 0, 2, 1, (1,)), ham(0, RC, 4, 2, 2, 3, 1, (1,))]
                + [long(HSET, RC, p, n, (1,), d, h, 1) for p in (1, 2) for n, d, h in LONGHASH],
                p13_relate=[(0, k, d, 3, lo, hi, e, h) for k, d, lo, hi, e, h in
                            ((0, 64, 64, 0, 64, 0), (0, 64, 6, 0, 4, 1), (1, 4, 2, 2, 64, 2), (0, 16, 0, 0, 2, 3), (0, 2, 2, 1, 2, 3))],
                p13_versions=[ham(0, RC, 64, 64, 0, 2, 1, (1,)), ham(0, ARCT, 4, 2, 2, 3, 1, (1,)), ham(0, RC, 64, 0, 0, 3, 1, (2,)),
                              ham(0, RC, 64, 6, 4, 2, 1, (2,))] + [long(HSET, RC, 2, n, (1,), d, h, 1) for n, d, h in LONGHASH]),
     thorough=dict(p13_hist=[ham(0, RC, 64, 64, 0, 3, 1, (2,)), ham(0, RC, 4, 2, 2, 3, 1, (3,)), ham(0, RC, 64, 0, 0, 4, 1, (4,))],
                   p13_pers=[ham(0, RC, 64, 64, 0, 2, 1, (2,)), ham(0, RC, 4, 2, 2, 3, 1, (2,))],
                   p13_relate=[(0, k, d, 4, lo, hi, e, h) for k, d, lo, hi, e, h in
                               ((0, 64, 64, 0, 64, 0), (0, 64, 6, 0, 4, 1), (1, 4, 2, 2, 64, 2), (0, 16, 0, 0, 2, 3))],
                   p13_versions=[ham(0, RC, 64, 64, 0, 2, 1, (2,)), ham(0, RC, 4, 2, 2, 3, 1, (2,))]),
     witnesses=[("p13_hist", 1), ("p13_pers", 1), ("p13_relate", 1), ("p13_versions", 1)])

prop("P14",
     bounds="as P06 and P07 for sets, in every tree shape of 0 to 7 nodes (thorough 9); subset, superset and disjointness of "
            "every two sets over 4 (thorough 5) keys of symbolic order, with different pointer kinds, and of two versions of one set",
     outside="larger sets",
     quick=dict(p14_hist=rbt(0, RC, 0, 8, 1, (1,)) + rbt(0, ARCT, 0, 4, 2, (2,)) + [long(RSET, RC, p, n, (1, 0)) for p in range(3) for n in (40, 65)],
                p14_pers=rbt(0, RC, 0, 6, 1, (1,)) + [long(RSET, RC, p, 36, (1,)) for p in range(3)],
                p14_relate=[(0, k, 0, m) for k in (0, 1, 2) for m in (3, 4)],
                p14_versions=rbt(0, RC, 0, 5, 1, (1,)) + [long(RSET, RC, p, 36, (1,)) for p in range(3)],
                p14_ends=rbt(0, RC, 0, 5, 1, (1, 0, 0)) + rbt(0, ARC, 0, 4, 0, (0, 0, 1)) + [long(RSET, RC, p, n, (0, 0, 0), sym=0) for p, n in ((0, 40), (1, 60), (2, 65))]),
     thorough=dict(p14_hist=rbt(0, RC, 9, 10, 1, (1,)) + rbt(0, RC, 5, 7, 2, (2,)), p14_pers=rbt(0, RC, 7, 8, 1, (1,)),
                   p14_relate=[(0, 0, 0, 5)], p14_versions=rbt(0, RC, 6, 7, 1, (1,)) + rbt(0, RC, 2, 4, 1, (2,)),
                   p14_ends=rbt(0, RC, 6, 7, 1, (1, 0, 0))),
     witnesses=[("p14_hist", 1), ("p14_pers", 1), ("p14_relate", 1), ("p14_versions", 1), ("p14_ends", 1)])

P15J = lambda a, b: ([J(VEC, k, c, 0, 0, 0, 0, (a, b, d)) for k, c, d in ((RC, 1, 1), (ARCT, 1, 2), (RC, 0, 5))]
                     + [J(w, RC, 0, 0, 0, 0, 0, (a, b)) for w in (LIST, QUEUE, STACK)]
                     + [J(w, RC, 0, 2, extra=(a, b)) for w in (RMAP, RSET)])
prop("P15",
     bounds="every two histories of 2 (thorough 3) operations each, with different configurations and pointer kinds, for the "
            "eight collections; and versions that share memory. " + HASHES,
     outside="longer histories",
     quick=dict(p15_pair=P15J(2, 2) + [J(w, RC, d, 2, lo, hi, 0, (2, 2, e)) for w in (HMAP, HSET)
                                       for d, lo, hi, e in ((64, 64, 0, 4), (4, 0, 0, 4))],
                p15_shared=[seq(VEC, RC, 1, 3, (1, 1)), seq(LIST, RC, 0, 2, (2, 1)), seq(QUEUE, RC, 0, 3, (2, 1)), seq(STACK, RC, 0, 2, (2, 1))]
                + [x for w in (RMAP, RSET) for x in rbt(w, RC, 1, 4, 1, (1, 1))]
                + [x for w in (HMAP, HSET) for x in (ham(w, RC, 64, 64, 0, 2, 1, (1, 1)), ham(w, RC, 64, 0, 0, 3, 0, (1, 1)))]
                + [long(w, RC, p, n, (1, 0)) for w in SEQ for p, n in ((0, 40), (2, 70))] + [long(w, RC, p, 36, (1, 0)) for w in (RMAP, RSET) for p in (1, 2)]
                + [long(w, RC, 1, n, (1, 0), d, h, 1) for w in (HMAP, HSET) for n, d, h in LONGHASH]),
     thorough=dict(p15_pair=P15J(3, 2) + P15J(3, 3)[3:6] + [J(w, RC, d, 2, lo, hi, 0, (3, 2, e)) for w in (HMAP, HSET)
                                                   for d, lo, hi, e in ((64, 64, 0, 4), (4, 2, 0, 2))],
                   p15_shared=[x for w in (RMAP, RSET) for x in rbt(w, RC, 5, 6, 1, (1, 1)) + rbt(w, RC, 2, 3, 1, (2, 2))]
                   + [x for w in (HMAP, HSET) for x in (ham(w, RC, 4, 2, 2, 2, 1, (2, 1)),)]),
     witnesses=[("p15_pair", 1), ("p15_pair", 2)])

prop("P16",
     bounds="every two sequences of up to 2 (sequences: 3; thorough: 3 for trees) elements of symbolic 8-bit values, built in two "
            "ways, against the order of vectors of the same items; partially ordered values; collections hashed in pairs; and every two histories of 2 to 4 operations (trees: 2; "
            "or one each on versions that share memory)",
     outside="longer collections; element values above 8 bits",
     quick=dict(p16_order=[(w, k, 8, n, n) for w in range(4) for k, n in ((0, 2), (1, 2))] + [(w, 0, 8, 2, 2) for w in (4, 5)]
                + [(4, 1, 8, 2, 1), (5, 1, 8, 2, 2)],
                p16_odd=[(w, 0, 0, 3) for w in range(5)], p16_hash=[(w, 0, 8, 1) for w in range(6)] + [(w, 0, 1, 2) for w in (0, 1, 2, 3)],
                p16_hist=[J(w, k, 1 if w == 0 else 0, extra=(2 if w == 0 else 4, 2 if w == 0 else 3, 1, 0 if w or k else 1)) for w in SEQ for k in (0, 1)]
                + [J(w, 0, 0, extra=(2, 2, 0), prefix=[1, 1]) for w in SEQ if w] + [J(VEC, 0, 1, extra=(1, 1, 0), prefix=[1] * n) for n in (2, 3, 4)]
                + [J(w, k, 0, 2, extra=(2, 2, 1)) for w in (RMAP, RSET) for k in (0, 1)]
                + [x for w in (RMAP, RSET) for x in rbt(w, RC, 1, 4, 1, (1, 1, 0))]
                + [long(w, RC, p, n, (1, 0, 0)) for w in (*SEQ, RMAP, RSET) for p, n in ((0, 36), (2, 40))]),
     thorough=dict(p16_hist=[J(w, 0, 1 if w == 0 else 0, extra=(3 if w == 0 else 5, 2 if w == 0 else 4, 1, 2 if w == 0 else 0)) for w in SEQ]
                   + [J(w, 0, 0, 2, extra=(3, 2, 1)) for w in (RMAP, RSET)] + [x for w in (RMAP, RSET) for x in rbt(w, RC, 5, 6, 1, (1, 1, 0))],
                   p16_order=[(w, 0, 8, 3, 3) for w in range(6)], p16_odd=[(w, 0, 0, 4) for w in range(5)],
                   p16_hash=[(w, 0, 8, 2) for w in range(6)]),
     witnesses=[("p16_hist", 3), ("p16_hist", 4), ("p16_order", 1), ("p16_order", 2), ("p16_odd", 1), ("p16_hash", 1), ("p16_hash", 2)])

prop("P17",
     bounds="any lookup and any one update in every tree shape of 0 to 8 (thorough 10) nodes, and after regular histories of up "
            "to 250 (thorough 1000) keys of ten kinds, the key looked up being symbolic",
     outside="trees reached only by irregular long histories",
     quick=dict(p17_map=rbt(0, RC, 0, 8, 0, (8,)), p17_set=rbt(0, RC, 0, 7, 0, (8,)),
                p17_long=[(p, n, k) for p, k in ((0, 0), (1, 0), (2, 0), (3, 0), (4, 5), (4, 21), (5, 6), (5, 33), (6, 2), (6, 5), (7, 3),
                                                 (7, 16), (8, 37), (8, 101), (9, 0)) for n in (64, 250)]),
     thorough=dict(p17_map=rbt(0, RC, 9, 11, 0, (8,)), p17_set=rbt(0, RC, 8, 9, 0, (8,)),
                   p17_long=[(p, 1000, k) for p, k in ((0, 0), (1, 0), (2, 0), (3, 0), (4, 100), (5, 77), (6, 7), (7, 9), (8, 377), (9, 0))]
                   + [(p, 300, k) for p in (4, 5, 6, 7) for k in (2, 3, 4, 9, 17, 50)] + [(8, 300, k) for k in (7, 11, 77, 133, 151)]),
     witnesses=[("p17_map", 1), ("p17_set", 1), ("p17_long", 1)])

prop("P18",
     bounds="2 updates (persistent or in-place on a clone) at any of a few old keys or a symbolic new one, in collections of 12 "
            "to 100 elements (thorough to 600); allocations against a bound from depth, element clones, object identity",
     outside="larger collections",
     quick=dict(p18_share=[J(VEC, RC, b, extra=(n, 2, 0)) for b, n in ((1, 17), (2, 65), (0, 100), (0, 33))]
                + [J(w, RC, 0, extra=(100, 3, 0)) for w in (LIST, QUEUE, STACK)]
                + [J(w, RC, 0, 1, extra=(n, 2, p)) for w in (RMAP, RSET) for n, p in ((30, 0), (60, 1), (60, 2))]
                + [J(w, RC, 64, 1, 12, 0, 0, (30, 1, 0)) for w in (HMAP, HSET)] + [J(w, ARCT, 4, 1, 4, 2, 0, (20, 1, 0)) for w in (HMAP, HSET)]),
     thorough=dict(p18_share=[J(VEC, RC, b, extra=(n, 3, 0)) for b, n in ((1, 129), (2, 257), (0, 600))]
                   + [J(w, ARC, 0, extra=(600, 4, 0)) for w in (LIST, QUEUE, STACK)]
                   + [J(w, RC, 0, 1, extra=(n, 2, p)) for w in (RMAP, RSET) for n, p in ((200, 0), (200, 1), (200, 2))]
                   + [J(w, RC, 64, 1, 12, 0, 0, (100, 2, 0)) for w in (HMAP, HSET)]),
     witnesses=[("p18_share", 1)])

prop("P19",
     bounds="every schedule of 3 (thorough 4) steps over up to 3 versions and their iterators of the eight collections; every "
            "element's life is followed, and at the end no element and no block of memory is left",
     outside="longer histories",
     quick=dict(p19_life=[seq(VEC, k, 1, n, (s, 3)) for k, n, s in ((RC, 0, 3), (ARCT, 3, 2), (OWN, 4, 2))]
                + [seq(w, k, 0, n, (3, 3)) for w in (LIST, QUEUE, STACK) for k, n in ((RC, 0), (ARCT, 2), (ARC, 3))]
                + [J(w, RC, 0, 2, 0, 0, 0, (2, 3)) for w in (RMAP, RSET)] + [x for w in (RMAP, RSET) for x in rbt(w, ARCT, 3, 5, 0, (1, 2))]
                + [ham(w, RC, 64, lo, hi, 2, 1, (1, 2)) for w in (HMAP, HSET) for lo, hi in ((64, 0), (0, 0), (0, 4))]
                + [ham(w, ARCT, 4, 2, 2, 2, 0, (2, 2)) for w in (HMAP, HSET)]
                + [long(w, RC, p, n, (1, 2), 1 if w == VEC else 0) for w in SEQ for p, n in ((0, 36), (1, 40))]
                + [long(w, RC, 1, 24, (1, 2)) for w in (RMAP, RSET)] + [long(w, RC, 2, n, (1, 2), d, h, 0) for w in (HMAP, HSET) for n, d, h in LONGHASH[:4]]),
     thorough=dict(p19_life=[seq(VEC, RC, 1, n, (3, 3)) for n in (1, 2, 3)] + [seq(w, RC, 0, n, (4, 3)) for w in (LIST, QUEUE, STACK) for n in (0, 2)]
                   + [x for w in (RMAP, RSET) for x in rbt(w, RC, 1, 4, 1, (2, 2))]
                   + [ham(w, RC, 64, lo, hi, 2, 1, (2, 2)) for w in (HMAP, HSET) for lo, hi in ((64, 0), (0, 0), (0, 4))]),
     witnesses=[("p19_life", 1)])

prop("P20",
     bounds="peak call depth with 400 (thorough 3000) elements against 10, for List, Stack and Queue, 4 pointer kinds, 11 ways of "
            "use, 4 ways of sharing, 2 orders of drop, every call counted; of 120 against 10 keys of one hash in a HashTrieMap; two threads that drop handles to 200 shared nodes with 2 (thorough 3) "
            "preemptions at any operation of the pointer kind, three threads to 100 nodes",
     outside="more preemptions or threads; depth is counted in frames of the code as compiled without optimisation, where no tail call is a loop",
     quick=dict(p20_depth=[(c, k, 10, 400) for c in range(3) for k in range(4)], p20_bucket=[(k, 10, 120) for k in range(3)], p20_race=[(2, 2, 200, 0, 1), (2, 1, 200, 0, 3)]),
     thorough=dict(p20_depth=[(c, k, 10, 3000) for c in range(3) for k in (0, 1)], p20_race=[(3, 2, 100, 0, 1), (2, 3, 60, 0, 1), (4, 1, 60, 0, 1)]),
     witnesses=[("p20_depth", 1), ("p20_bucket", 2), ("p20_race", 1)], unoptimised=True,
     assumptions=["threads interleave at the operations of the pointer kind only: rpds has no other shared mutable state"])

P21J = lambda w, k, mode, ops, last, sym: J(w, k, {VEC: 1, HMAP: 4, HSET: 4}.get(w, 0), sym if w >= 4 else 0, 2, 0, 0, (last, mode, ops))
prop("P21",
     bounds="a panic at each of the first 6 (thorough 12) calls into user code (clone, equality, comparison, hash) during any one operation, in-place, "
            "persistent, lookup or equality, after 1 (thorough 2) symbolic operations, for the eight collections; panics of source iterators",
     outside="later panic positions, larger collections",
     quick=dict(p21_faults=[P21J(w, k, m, 1, 6, 2) for w in range(8) for k in (RC, ARCT) for m in range(4)]
                + [x for w in (RMAP, RSET) for m in (0, 1) for x in rbt(w, RC, 2, 4, 1, (5, m, 0))],
                p21_sources=[(w, 0, 0, 0, 0, 0, 0, 3, 0) for w in range(6)] + [(w, 0, b, 0, 0, 0, 0, 3, n) for w in (6, 7) for b in (1, 2) for n in (0, 2, 3, 4)]),
     thorough=dict(p21_faults=[P21J(w, k, m, 2, 12, 2) for w in range(8) for k in (RC, ARC) for m in range(4)]
                   + [x for w in (RMAP, RSET) for m in (0, 1) for x in rbt(w, RC, 5, 7, 1, (8, m, 0))],
                   p21_sources=[(w, 1, 0, 0, 0, 0, 0, 6, 0) for w in range(6)]),
     witnesses=[("p21_faults", 0), ("p21_faults", 1), ("p21_sources", 2), ("p21_sources", 3)])

P22W = lambda w, k, ops: (J(w, k, 64, 2, 64, 0, 0, (ops,)) if w in (HMAP, HSET) else J(w, k, 0, 2 if w in (RMAP, RSET) else 0, 0, 0, 0, (ops,)))
prop("P22",
     bounds="serialization and back after every history of 2 (thorough 3) operations of the eight collections, data compared token by token; "
            "every input of up to 3 (thorough 4) items over 2 keys (and one of 24 over 20) with every announced length and an error at any position",
     outside="longer inputs; formats are represented by a serializer and deserializer in the harness that accept any legal call",
     quick=dict(p22_round=[P22W(w, k, 2) for w in range(8) for k in (0, 1)] + [long(w, RC, p, n, (1,)) for w in SEQ for p, n in ((0, 40), (2, 33))]
                + [long(w, RC, p, n, (0,), sym=0) for w in (RMAP, RSET) for p, n in ((0, 40), (2, 33))]
                + [long(w, RC, 1, n, (0,), d, h, 0) for w in (HMAP, HSET) for n, d, h in LONGHASH],
                p22_data=[J(w, 0, 0, 0, 64 if w in (HMAP, HSET) else 0, 0, 0, (3, 2, 1 if w in (LIST, STACK) else 0)) for w in range(8)]
                + [J(w, 0, 0, 0, 102 if w in (HMAP, HSET) else 0, 0, 20 if w > 3 else 0, (1024, 20, 1 if w in (LIST, STACK) else 0)) for w in range(8)]),
     thorough=dict(p22_round=[P22W(w, k, 3) for w in range(8) for k in (0, 1)],
                   p22_data=[J(w, 1, 0, 0, 64 if w in (HMAP, HSET) else 0, 0, 0, (4, 2, 1 if w in (LIST, STACK) else 0)) for w in range(8)]),
     witnesses=[("p22_round", 1), ("p22_round", 2), ("p22_data", 1), ("p22_data", 2)])

prop("P23",
     bounds="every sequence of up to 3 (thorough 4) items over 2 keys (and 40 or 65 over 30 concrete keys), any legal size hint including the largest, for the eight "
            "collections; extension of a Vector of 0 to 5 elements; the macros",
     outside="longer sequences",
     quick=dict(p23_from=[(w, 0, 0, 2, 64, 0, 0, 3) for w in range(8)] + [(8, k, b, 0, 0, 0, 0, 3, n, h) for k in (0, 1) for b in (1, 2) for n in range(6) for h in (0, 1)]
                + [(w, 0, 0, 0, 100 + h, 0, 30 if w > 3 else 0, 1000 + n) for w in range(8) for n in (40, 65) for h in range(4 if w in (HMAP, HSET) else 1)]
                + [(8, 0, b, 0, 0, 0, 0, 1000 + m, n, h) for b, n, m in ((1, 6, 40), (2, 10, 90), (0, 30, 70)) for h in (0, 1)],
                p23_macros=[(i,) for i in range(6)]),
     thorough=dict(p23_from=[(w, 1, 0, 3, 64, 0, 0, 4) for w in range(8)] + [(8, 0, b, 0, 0, 0, 0, 6, n, h) for b in (1, 2) for n in (0, 1, 3, 7, 8, 15, 16) for h in (0, 1)]),
     witnesses=[("p23_from", 1), ("p23_from", 2), ("p23_from", 3), ("p23_macros", 4)])

prop("P24",
     bounds="maps of 0 to 4 keys of symbolic hash (any 64 bits; or runs of equal hash bits, collisions included) after "
            "insertions and removals, degrees 2, 4, 16 and 64; 0, 1, 2, 4 and 1000 workers; at every join either order of the "
            "two halves, and nobody, the second half or both stolen; a consumer that never fills up or does so at any "
            "moment; maps of 24 to 40 keys of concrete hashes with every outcome of the first two joins and one for the others; count, sum, collect, find_any, any, all, filter, reduce, for_each with any subset of the keys searched "
            "for. The real rayon crate is executed over a stand-in for its thread pool (harness/rayon-core).",
     outside="more keys; preemption of one half by the other inside a fold (the halves share nothing but the consumer); the "
             "thread pool itself",
     quick=dict(
         p24_consumer=[(n, 64, 64, 0, w, 0, f) for n in (0, 1, 2) for w in (1, 4) for f in (0, 1)]
         + [(3, 64, 64, 0, 4, 0, 1), (3, 64, 64, 0, 1000, 0, 0), (4, 64, 6, 0, 1, 0, 0), (4, 64, 3, 0, 2, 0, 1),
            (3, 4, 2, 2, 2, 0, 1), (4, 4, 2, 2, 1, 1, 0), (4, 16, 4, 4, 1, 1, 1), (3, 2, 1, 2, 2, 0, 1)]
         + [(3, 4, 4, 0, w, 0, 1) for w in (0, 1)] + [(4, 2, 3, 0, 0, 0, 1), (4, 4, 4, 0, 0, 0, 1), (4, 4, 4, 0, 1, 0, 0)]
         + [(n, 64, 0, 0, 2, g, 1) for n in (3, 5) for g in (0, 1)]
         + [(n, d, h, 0, w, g, f, 2) for n, d, h, w, g in ((40, 64, 100, 4, 0), (36, 4, 101, 1, 5), (24, 64, 102, 2, 3), (40, 16, 103, 8, 0), (24, 2, 100, 64, 4)) for f in (0, 1)],
         p24_adaptors=[(n, 64, 64, 0, w, 0) for n in (0, 1, 2) for w in (1, 4)]
         + [(3, 4, 2, 2, 1, 0), (3, 4, 2, 2, 2, 1), (3, 64, 6, 0, 2, 0), (4, 64, 3, 0, 0, 1)] + [(3, 64, 0, 0, 1, g) for g in (0, 1)]),
     thorough=dict(
         p24_consumer=[(4, 64, 64, 0, 1, 0, 0), (4, 2, 2, 2, 0, 0, 1), (5, 2, 3, 0, 0, 0, 1), (5, 64, 6, 0, 0, 1, 0), (4, 4, 2, 2, 2, 0, 1), (5, 4, 2, 2, 0, 1, 1), (4, 16, 4, 4, 2, 0, 1)],
         p24_adaptors=[(3, 64, 64, 0, 4, 0), (3, 16, 4, 4, 2, 0), (4, 4, 2, 2, 0, 0), (4, 64, 64, 0, 0, 1)]),
     witnesses=[("p24_consumer", 1), ("p24_consumer", 2), ("p24_consumer", 3), ("p24_adaptors", 4)])

prop("P25",
     bounds="the text of every collection after every history of 2 (thorough 3) operations, byte by byte, and a formatter that fails at any of its first 12 writes, for good or once",
     outside="longer histories",
     quick=dict(p25_shown=[J(w, k, 4 if w in (HMAP, HSET) else 0, 2 if w >= 4 else 0, 2, 0, 0, (2, 12)) for w in range(8) for k in (0, 1)]
                + [J(w, 0, 0, 0, 0, 0, 0, (3, 14)) for w in SEQ]
                + [long(w, RC, p, 40, (0, 3)) for w in (*SEQ, RMAP, RSET) for p in (0, 1)]
                + [long(w, RC, 1, n, (0, 3), d, h, 0) for w in (HMAP, HSET) for n, d, h in LONGHASH]),
     thorough=dict(p25_shown=[J(w, 2, 4 if w in (HMAP, HSET) else 0, 2 if w >= 4 else 0, 2, 0, 0, (3, 20)) for w in range(8)]
                   + [J(w, 0, 0, 0, 0, 0, 0, (4, 20)) for w in SEQ]),
     witnesses=[("p25_shown", 1), ("p25_shown", 2)])

P26J = lambda w, k, s: [ham(w, k, 4, 2, 0, 1, 1, (s,))] if w in (HMAP, HSET) else [J(w, k, 0, 1, 0, 0, 2, (s,), (1, 2))]
prop("P26",
     bounds="every schedule of 2 (thorough 3) steps that make versions (clones, persistent and in-place operations) of a map or set; all pairs compared",
     outside="longer histories",
     quick=dict(p26_versions=[x for w in range(4, 8) for k in (0, 1, 2) for x in P26J(w, k, 2)] + [ham(w, 0, 64, 64, 0, 2, 1, (1,)) for w in (HMAP, HSET)]
                + [x for w in (RMAP, RSET) for x in rbt(w, RC, 3, 7, 1, (1,))]
                + [x for w in (HMAP, HSET) for x in (ham(w, RC, 4, 2, 1, 3, 1, (1,)), ham(w, RC, 64, 0, 0, 4, 1, (1,)), ham(w, ARCT, 16, 4, 4, 3, 1, (1,)))]
                + [long(w, RC, p, 36, (1,)) for w in (RMAP, RSET) for p in (1, 2)] + [long(w, RC, 2, n, (1,), d, h, 1) for w in (HMAP, HSET) for n, d, h in LONGHASH],
                p26_apart=[(4, 0, 4, 0, 2, 0, 0, 2), (5, 0, 0, 0, 0, 0, 0, 2)]),
     thorough=dict(p26_versions=[x for w in range(4, 8) for k in (0, 1) for x in P26J(w, k, 3)]),
     witnesses=[("p26_versions", 1), ("p26_versions", 2), ("p26_versions", 3), ("p26_apart", 4)])

prop("P27",
     bounds="equality and hash calls of every history of 2 (thorough 3) operations and of lookups, tries of up to 3 keys with symbolic hashes. " + HASHES,
     outside="more keys",
     quick=dict(p27_counts=[ham(w, k, d, lo, hi, 1, 1, (2,)) for w in (HMAP, HSET) for k, d, lo, hi in ((0, 64, 64, 0), (1, 4, 2, 2), (0, 64, 0, 0), (0, 16, 4, 4))]
                + [ham(w, 0, 64, 0, 0, 3, 0, (1,)) for w in (HMAP, HSET)]
                + [long(w, RC, p, n, (1,), d, h, 1) for w in (HMAP, HSET) for p in (1, 2) for n, d, h in LONGHASH]),
     thorough=dict(p27_counts=[ham(w, k, d, lo, hi, 2, 1, (2,)) for w in (HMAP, HSET) for k, d, lo, hi in ((0, 64, 64, 0), (1, 4, 2, 2), (0, 64, 0, 0), (0, 16, 4, 4))]
                   + [ham(w, 0, 4, 2, 2, 0, 3, (3,)) for w in (HMAP, HSET)]),
     witnesses=[("p27_counts", 1)])

P28J = lambda w, p, ops, h: J(w, p, {VEC: 1, HMAP: 4, HSET: 4}.get(w, 0), 2 if w >= 4 else 0, 2, 0, 0, (ops, h))
prop("P28",
     bounds="every history of 2 (thorough 3) operations, with another handle held or not, on two collections of different pointer kinds side by side: "
            "same results, equal to each other; a user-supplied kind that checks every use against its contract; "
            "every constructor of every kind, every 8-bit branching factor and degree",
     outside="longer histories",
     quick=dict(p28_alike=[P28J(w, p, 3 if w < 4 else 2, h) for w in range(8) for p in range(3) for h in (0, 1)]
                + [long(w, p, p, n, (1, 0)) for w in SEQ for p, n in ((0, 40), (2, 66))]
                + [long(w, p, p, 16, (1, 0)) for w in (RMAP, RSET) for p in (0, 2)]
                + [long(w, p, 1, n, (1, 0), d, h, 0) for w in (HMAP, HSET) for p, (n, d, h) in zip((0, 2, 0, 2, 0), LONGHASH)],
                p28_make=[(w,) for w in range(10)], p28_degree=[(0,), (1,)]),
     thorough=dict(p28_alike=[P28J(w, p, 4 if w < 4 else 3, 1) for w in range(8) for p in range(3)]),
     witnesses=[("p28_alike", 1), ("p28_make", 2), ("p28_degree", 3)])

prop("P29",
     bounds="two (for List and Stack also three) threads, each with a version of its own that shares memory with the others', doing one (List, "
            "Queue, Stack: two) operation(s) and dropping it, with up to 1 or 2 preemptions at any operation of the pointer kind, for the eight collections",
     outside="more threads, operations or preemptions; data races inside the pointer kinds of the archery crate",
     quick=dict(p29_threads=[seq(w, 2, 0, 2, (1, p, h)) for w in SEQ for p, h in ((1, 1), (2, 0))]
                + [J(VEC, 2, 1, extra=(1, 1, 0), prefix=[1] * n) for n in (2, 3, 4, 5)]
                + [J(QUEUE, 2, 0, extra=(1, 1, 0), prefix=[1, 1, 1, 65, 1]), J(QUEUE, 2, 0, extra=(2, 1, 0), prefix=[1, 1, 65])]
                + [J(w, 2, 0, extra=(2, 1, 0), prefix=[1] * 2) for w in (LIST, STACK)]
                + [J(w, 2, 0, extra=(1, 2, 1), prefix=[1] * 3) for w in (LIST, STACK)]
                + [J(w, 3, 0, extra=(1, 1, 0), prefix=[1] * 2) for w in (LIST, STACK)]
                + [J(w, 2, 0, 0, 0, 0, 5, (1, 1, 0), (1, 2, 3, 4, 5)) for w in (RMAP, RSET)]
                + [J(w, 2, 64, 0, 0, 0, 3, (1, 1, 0), (1, 2, 3)) for w in (HMAP, HSET)]
                + [J(w, 2, 4, 1, 2, 0, 1, (1, 1, 0), (1,)) for w in (HMAP, HSET)]
                + [J(w, 2, 0, 1, 0, 0, 2, (1, 1, 0), (1, 2)) for w in (RMAP, RSET)]),
     thorough=dict(p29_threads=[seq(w, 3, 0, 2, (1, 1, h)) for w in SEQ for h in (0, 1)] + [seq(w, 2, 0, 3, (2, 1, 0)) for w in (LIST, QUEUE, STACK)]
                   + [J(w, 2, 4, 1, 2, 0, 1, (1, 2, 0), (1,)) for w in (HMAP, HSET)]
                   + [J(w, 2, 0, 1, 0, 0, 3, (1, 1, 0), (1, 2, 3)) for w in (RMAP, RSET)]
                   + [J(w, 2, 64, 0, 0, 0, 3, (1, 1, 1), (1, 2, 3)) for w in (HMAP, HSET)]),
     witnesses=[("p29_threads", 1)],
     assumptions=["threads interleave at the operations of the pointer kind only: rpds has no other shared mutable state"])

prop("P30",
     bounds="one or two operations at any of a few old places or a symbolic new one, persistent or in place, with another handle held or "
            "not, or every read, in collections of 300 to 600 elements made by three kinds of history; every sequence of 4 phases of "
            "1, 5 or 40 enqueueings or dequeueings; visits counted by a pointer kind of the harness. " + HASHES,
     outside="larger collections; work that looks at no node",
     quick=dict(p30_cost=[long(VEC, 3, p, n, (1,), b) for p in range(3) for n, b in ((300, 1), (600, 2), (600, 0))]
                + [long(w, 3, p, 300, (2,)) for w in (LIST, QUEUE, STACK) for p in range(3)]
                + [long(w, 3, p, 600, (1,)) for w in (RMAP, RSET) for p in range(3)]
                + [long(w, 3, p, n, (1,), d, 0, 1) for w in (HMAP, HSET) for p in range(3) for n, d in ((300, 64), (300, 16), (600, 4))],
                p30_queue=[(0, 4)]),
     thorough=dict(p30_queue=[(0, 6)],
                   p30_cost=[long(VEC, 3, p, 1200, (2,), b) for p in range(3) for b in (1, 2, 0)] + [long(w, 3, p, 1000, (2,)) for w in (LIST, QUEUE, STACK) for p in range(3)]
                   + [long(w, 3, p, 300, (2,)) for w in (RMAP, RSET) for p in range(3)]
                   + [long(w, 3, p, 300, (2,), d, 0, 1) for w in (HMAP, HSET) for p in range(3) for d in (64, 16)]),
     witnesses=[("p30_cost", 1), ("p30_queue", 1)])

prop("P31",
     bounds="any history of 1 or 2 operations with earlier versions alive from short and long starting states, then nothing, all but "
            "one or all removed; blocks counted by a pointer kind of the harness. " + HASHES,
     outside="longer histories; bytes inside a block",
     quick=dict(p31_storage=[seq(VEC, 3, 1, n, (1,)) for n in (0, 1, 2, 4, 5, 8, 9)] + [seq(w, 3, 0, n, (2,)) for w in (LIST, QUEUE, STACK) for n in (0, 3)]
                + [x for w in (RMAP, RSET) for x in rbt(w, 3, 0, 5, 1, (1,))]
                + [x for w in (HMAP, HSET) for x in (ham(w, 3, 64, 64, 0, 2, 1, (1,)), ham(w, 3, 4, 2, 2, 3, 1, (1,)), ham(w, 3, 16, 4, 4, 3, 0, (1,)))]
                + [long(VEC, 3, p, n, (1,), b) for p, n, b in ((0, 33, 0), (1, 64, 1), (2, 65, 2))]
                + [long(w, 3, 2, n, (1,), d, h, 1) for w in (HMAP, HSET) for n, d, h in LONGHASH]),
     thorough=dict(p31_storage=[seq(VEC, 3, 1, n, (2,)) for n in (0, 1, 2, 4, 5, 8, 9)] + [seq(w, 3, 0, n, (4,)) for w in (LIST, QUEUE, STACK) for n in (0, 3)]
                   + [x for w in (RMAP, RSET) for x in rbt(w, 3, 6, 8, 1, (1,)) + rbt(w, 3, 2, 4, 2, (2,))]
                   + [x for w in (HMAP, HSET) for x in (ham(w, 3, 64, 64, 0, 2, 1, (2,)), ham(w, 3, 4, 2, 2, 3, 1, (2,)))]),
     witnesses=[("p31_storage", 1)])

prop("P32",
     bounds="the first 2 to 5 answers of equality, order and hash inside one or two updates (persistent or in place) or one read are free, "
            "whatever they are asked, or equality and order answer a constant, the same to every question; starting states of 0 to 4 keys (every red-black shape of 1 to 5 nodes), earlier versions held; "
            "afterwards every version is walked through, the earlier one read back and all dropped in two orders. " + HASHES,
     outside="more free answers; what the operation itself returns and the contents of its own result, which may be anything",
     quick=dict(p32_wild=[ham(w, p, d, lo, hi, 2, 1, (4, 1, 0)) for w, p in ((HMAP, RC), (HSET, ARCT)) for d, lo, hi in ((64, 64, 0), (16, 4, 4))]
                + [ham(w, p, 4, 2, 0, 2, 1, (2, 2, 0)) for w, p in ((HMAP, RC), (HSET, ARCT))]
                + [ham(w, p, d, lo, hi, 2, 1, (3, 0, 1)) for w, p in ((HMAP, ARCT), (HSET, RC)) for d, lo, hi in ((64, 64, 0), (4, 2, 2))]
                + [x for w, p in ((RMAP, ARCT), (RSET, RC))
                   for x in rbt(w, p, 2, 4, 1, (4, 0, 1)) + rbt(w, p, 1, 2, 1, (2, 1, 1)) + rbt(w, p, 0, 5, 1, (5, 1, 0))]
                + rbt(RMAP, RC, 2, 2, 1, (3, 2, 0))
                + [ham(w, p, 4, 2, 0, 2, 1, x) for x in ((0, 1, 0), (0, 0, 1)) for w, p in ((HMAP, ARCT), (HSET, RC))]
                + [ham(w, p, 4, 2, 0, 1, 1, x) for x in ((0, 2, 0), (0, 1, 1)) for w, p in ((HMAP, ARCT), (HSET, RC))]
                + [x for w, p in ((RMAP, RC), (RSET, ARCT)) for x in rbt(w, p, 1, 4, 1, (0, 1, 0)) + rbt(w, p, 1, 3, 1, (0, 1, 1)) + rbt(w, p, 1, 2, 1, (0, 2, 0))]),
     thorough=dict(p32_wild=[ham(w, p, 4, 2, 0, 2, 1, (3, 2, 0)) for w, p in ((HMAP, RC), (HSET, ARCT))]
                   + [ham(w, p, d, lo, hi, 3, 1, (5, 1, 0)) for w, p in ((HMAP, RC), (HSET, ARCT)) for d, lo, hi in ((64, 64, 0), (4, 2, 2))]
                   + [ham(w, p, d, lo, hi, 2, 1, (4, 1, 1)) for w, p in ((HMAP, RC), (HSET, ARCT)) for d, lo, hi in ((64, 64, 0), (4, 2, 2))]
                   + [x for w, p in ((RMAP, RC), (RSET, ARCT)) for x in rbt(w, p, 2, 4, 1, (3, 1, 1)) + rbt(w, p, 4, 6, 1, (6, 1, 0)) + rbt(w, p, 2, 4, 1, (3, 2, 0))]),
     witnesses=[("p32_wild", 1)])

pl = os.environ.get("PLANX")
if pl:
    p, e, ps = eval(pl)
    PLAN[p] = dict(feature=p.lower(), bounds="", quick=[(e, ps)])
