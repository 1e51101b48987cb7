"""C01: every event stream of compute_operator_contractions (disconnected contractions included) against an
independent brute-force enumeration of the generalized Wick theorem."""
from vlib import gen, wick

RULE = ("random lists of 1-4 operators over all label spaces, ranks 0-4 (unequal creator/annihilator counts, diagonal and "
        "sparse labels), random cumulant limit, open-index window and hole-expansion setting; the recorded contractions are "
        "compared as a multiset (densities, open operator, sign) with an independent enumeration.  Non-trivial: the "
        "enumeration has at least two non-vanishing contractions and at least one density")
ASSUMPTIONS = ["contractions containing a density that is zero by its orbital spaces may be listed or omitted",
               "cumulant limit >= 1 (values below 1 mean 'no limit' in the code and are not claimed)"]
BUDGET = {"quick": 45, "thorough": 700}
MIN_NONTRIVIAL = {"quick": 90, "thorough": 1500}
MIN_OBSERVED = {"contractions": 12000, "cumulants_ge2": 300, "hole_or_delta": 1200, "windowed": 24, "diagonal_lists": 3,
                "unbalanced_lists": 12}
CONNECTED = False


DENSE = [[(3, 3), (3, 3)], [(2, 2), (2, 2), (2, 2)], [(4, 0), (0, 4)], [(5, 0), (0, 5)], [(4, 1), (1, 4)], [(4, 2), (2, 4)],
         [(3, 3), (2, 2)], [(2, 2), (2, 2), (1, 1)], [(3, 0), (0, 3), (2, 2)], [(0, 3), (3, 0)], [(0, 4), (3, 0), (1, 0)],
         [(2, 2), (2, 2)], [(3, 1), (1, 3), (1, 1)], [(3, 2), (2, 3)]]


def make_dense(rng):
    """(nearly) fully contracted lists of active and general labels: many large cumulants, several at once"""
    spec = rng.choice(DENSE)
    tot = sum(map(sum, spec))
    pool = rng.choice(["a", "a", "a", "g", "ga", "gah", "hp", "aag"])
    names = [l + str(k) for l, k in zip(gen.rand_labels(rng, tot, pool), gen.rand_numbers(rng, tot))]
    ops, p = [], 0
    for c, a in spec:
        ops.append([names[p:p + c], names[p + c:p + c + a]])
        p += c + a
    lo = rng.choice([0, 0, 0, 1, 2])
    kw = {"max_cu": rng.choice([2, 3, 3, 4, 4, 5, 6, 20]), "min_n_open": lo, "max_n_open": lo + rng.choice([0, 0, 1, 2]),
          "expand_hole": rng.random() < 0.5}
    return ops, kw, tot


PACKED = [[(2, 2), (2, 2), (2, 2)], [(4, 2), (2, 4)], [(6, 0), (0, 6)], [(5, 1), (1, 5)], [(2, 2), (3, 1), (1, 3)], [(1, 3), (3, 1), (2, 2)],
          [(3, 3), (3, 3)], [(0, 6), (6, 0)]]


def make_packed(rng, i):
    """fully contracted active labels plus one core or virtual pair: two three-body cumulants next to a pairwise contraction"""
    spec = PACKED[i % len(PACKED)]
    nums = gen.rand_numbers(rng, sum(map(sum, spec)) + 2)
    ops = [[["a%d" % nums.pop() for _ in range(c)], ["a%d" % nums.pop() for _ in range(a)]] for c, a in spec]
    x, y = rng.sample(range(len(ops)), 2)
    if x > y:
        x, y = y, x
    lab = rng.choice("cv")     # creator first: core pair; annihilator first: virtual pair
    for o, side in ((x, 0), (y, 1)) if lab == "c" else ((x, 1), (y, 0)):
        ops[o][side].insert(rng.randint(0, len(ops[o][side])), lab + str(nums.pop()))
    return ops, {"max_cu": 3, "min_n_open": 0, "max_n_open": 0, "expand_hole": False}, sum(map(sum, spec)) + 2


def make(rng, thorough, connected):
    u = rng.random()
    if connected:
        n = rng.choice([2, 2, 2, 3, 3, 3, 4, 4, 5]) if u < 0.8 else 2
    else:
        n = rng.choice([1, 2, 2, 2, 3, 3, 4])
    ranks = {1: [1, 2, 3, 4], 2: [1, 2, 2, 3, 3, 4], 3: [1, 1, 2, 2, 3], 4: [1, 1, 1, 2], 5: [1]}[n]
    maxtot = {1: 8, 2: 12, 3: 10, 4: 10, 5: 10}[n] + (2 if thorough and rng.random() < 0.3 and n < 4 else 0)
    ops = gen.rand_ops(rng, n, ranks, maxtot=maxtot)
    tot = sum(len(c) + len(a) for c, a in ops)
    kw = {"max_cu": rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 20])}
    v = rng.random()
    if v < 0.35:
        lo, hi = 0, tot
    elif v < 0.85:
        lo = rng.randint(0, tot)
        hi = rng.randint(lo, min(tot, lo + 4))
    elif v < 0.92:
        lo, hi = rng.randint(0, tot), tot + rng.randint(0, 4)
    else:
        lo, hi = 0, rng.choice([0, 2, 4])
    kw["min_n_open"], kw["max_n_open"] = lo, hi
    kw["expand_hole"] = rng.random() < 0.5
    return ops, kw, tot


def shard(sh):
    rng = sh.rng
    thorough = sh.tier == "thorough"
    connected = CONNECTED
    one(sh, connected, thorough)


def one(sh, connected, thorough, ncases=10 ** 9):
    rng = sh.rng
    limit0 = 6000 if not thorough else 15000
    packed = rng.randrange(10 ** 6) * 8 + sh.idx if ncases > 10 ** 6 else None
    while not sh.over() and ncases:
        ncases -= 1
        if packed is not None or thorough and ncases % 60 == 0:
            dense = True
            ops, kw, tot = make_packed(rng, packed if packed is not None else rng.randrange(8))
            limit, packed = 40000, None
            sh.count("packed_lists")
        elif rng.random() < 0.1:
            dense = True
            ops, kw, tot = make_dense(rng)
            limit = 2 * limit0 if rng.random() < 0.3 else 1000
        else:
            dense = False
            ops, kw, tot = make(rng, thorough, connected)
            limit = 800 if rng.random() < 0.6 else limit0
        if not ops:
            continue
        try:
            m, lost, n = wick.coefficient_map(ops, kw["max_cu"], kw["min_n_open"], kw["max_n_open"], connected,
                                              kw["expand_hole"], limit)
            if connected and len(ops) >= 4 or kw["min_n_open"] > 0:
                # bound the work asked of the generator by the unrestricted enumeration as well
                wick.count(ops, kw["max_cu"], 0, 10 ** 9, 4 * limit)
        except OverflowError:
            sh.count("skipped_large")
            continue
        req = dict(ops=ops, kw=dict(kw, for_commutator=connected))
        r = sh.need("contractions", **req)
        if r is None:
            continue
        if dense:
            sh.count("dense_lists")
        for s, d, o in r["con"]:
            if sum(len(u) > 2 for k, nm, u, l in d) > 1:
                sh.count("two_large_cumulants")
        dens_n = sum(1 for s, d, o in r["con"] if d)
        sh.evaluated(key=[ops, kw], nontrivial=len(m) + len(lost) >= 2 and dens_n >= 1,
                     sample=dict(request=req, contractions=len(r["con"]), first=r["con"][:2]))
        sh.count("contractions", len(r["con"]))
        sh.count("operator_lists_%d" % len(ops))
        sh.top("contractions_one_list", len(r["con"]))
        for s, d, o in r["con"]:
            for k, name, u, l in d:
                if len(u) > 1:
                    sh.count("cumulants_ge2")
                elif k in "KC":
                    sh.count("hole_or_delta")
        if kw["min_n_open"] > 0 or kw["max_n_open"] < tot:
            sh.count("windowed")
        if any(set(c) & set(a) for c, a in ops):
            sh.count("diagonal_lists")
        if any(len(c) != len(a) for c, a in ops):
            sh.count("unbalanced_lists")
        judge(sh, req, r, m, lost, connected)


def judge(sh, req, r, m, lost, connected):
    ops, kw = req["ops"], req["kw"]
    got = wick.event_map(r["con"])
    if r["ops_after"] != [[list(c), list(a)] for c, a in ops]:
        sh.violate("operators passed in were altered", request=req, after=r["ops_after"])
        return
    # limits, checked event by event
    for s, d, o in r["con"]:
        no = len(o[0]) + len(o[1])
        if not kw["min_n_open"] <= no <= kw["max_n_open"]:
            sh.violate("result outside the open-index window", request=req, event=[s, d, o])
            return
        if any(len(u) > kw["max_cu"] for k, nm, u, l in d):
            sh.violate("cumulant above the requested level", request=req, event=[s, d, o])
            return
        if any(k not in ("L", "K" if kw["expand_hole"] else "C") for k, nm, u, l in d):
            sh.violate("unexpected density kind", request=req, event=[s, d, o])
            return
    exp = dict(m)
    if lost:
        full = dict(m)
        for k, v in lost.items():
            w = full.get(k, 0) + v
            if w:
                full[k] = w
            else:
                full.pop(k, None)
        if got == full:
            exp = full
        elif got == m:
            sh.known_finding("nonprefix", "commutator mode with four or more operators omits connected contractions whose operator "
                                          "categories are not linked step by step in the enumeration order")
            sh.count("known_shortfall_lists")
    if got != exp:
        missing = [k for k in exp if k not in got][:2]
        extra = [k for k in got if k not in exp][:2]
        wrong = [(k, got[k], exp[k]) for k in got if k in exp and got[k] != exp[k]][:2]
        sh.violate("contractions differ from the Wick expansion", request=req, missing=missing, extra=extra, wrong=wrong,
                   n_missing=sum(k not in got for k in exp), n_extra=sum(k not in exp for k in got))
        return
    # exactly once: number of non-vanishing events equals the number of distinct contractions
    live = [1 for s, d, o in r["con"] if not any(wick.vanishes(k, u, l) for k, nm, u, l in d)]
    if len(live) != sum(abs(v) for v in exp.values()):
        sh.violate("a contraction is listed more than once", request=req, listed=len(live),
                   distinct=sum(abs(v) for v in exp.values()))
