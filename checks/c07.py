"""C07: nested commutators against explicit Fock-space matrices (untruncated) and against the independent Wick
enumeration (with per-level limits; each level of a recursion is judged from the recorded level below)."""
from itertools import product
from math import comb, factorial
import numpy as np
from vlib import terms, numev, fock, wick
from checks.c06 import op_term, cluster, expansion, compare, merged, same_inputs

RULE = ("random nesting level, set of cluster ranks, single/multi-reference, unitary/non-unitary, hole expansion, shortcut and "
        "Hermiticity settings for nested_commutator_cc and bch_cc_rsc, and random operator sequences for "
        "recursive_single_commutator; untruncated results become matrices on the Fock space of a random reference and are "
        "compared with the nested matrix commutator over k!; truncated results are compared, per open rank, with the "
        "independent enumeration.  Non-trivial: the highest level has at least two terms")
ASSUMPTIONS = ["all-active amplitudes are zero (the generator's default)", "real orbitals; Hermitian tensors unless the option is off",
               "sequences handed to the recursion carry labels that stay distinct from its canonical labels",
               "symbolic expansion is exercised with at most three factors when amplitudes can contract with each other (C02 finding)"]
BUDGET = {"quick": 60, "thorough": 720}
MIN_NONTRIVIAL = {"quick": 24, "thorough": 250}
MIN_OBSERVED = {"nested_fock": 4, "bch_fock": 4, "rsc_fock": 4, "nested_limited": 3, "bch_limited": 3, "rsc_limited": 4,
                "level_2": 12, "nested_deep": 3, "level_3": 2, "unitary": 4, "result_terms": 900, "amplitude_lists": 20}


def bare_h(start=0):
    out = []
    for k in (1, 2):
        c = ["g%d" % (start + i) for i in range(k)]
        a = ["g%d" % (start + k + i) for i in range(k)]
        out.append({"c": 1.0 / factorial(k) ** 2, "t": [["H", "H", a, c]], "op": [c, a], "ty": "so"})
    return out


def amps(levels, start, sr, un):
    h, p = ("c", "v") if sr else ("h", "p")
    r = [cluster(k, start, h, p) for k in levels]
    if un:
        r += [cluster(k, start, h, p, False, -1.0) for k in levels]
    return r


def got(sh, op, **req):
    """call the real code; every returned list must be merged"""
    r = sh.need(op, **req)
    if r is None:
        return None
    levels = r["out"] if isinstance(r["out"], dict) else {"": r["out"]}
    return r if all(merged(sh, dict(req, level=k), o) for k, o in levels.items()) else None


class Focks:
    def __init__(self, sh):
        self.sh, self.c = sh, {}

    def get(self, dims, herm):
        k = (dims, self.sh.rng.randint(0, 1))
        if k not in self.c:
            ne = 0 if dims[1] == 0 else 1 + (k[1] + self.sh.idx) % max(1, dims[1] - 1)
            self.c[k] = fock.Fock(self.sh.seed * 100 + self.sh.idx * 10 + k[1], dims, nact_elec=ne)
        kk = (k, herm)
        if kk not in self.c:
            self.c[kk] = self.c[k].model(self.sh.seed * 7 + self.sh.idx, hermitian=herm)
        return self.c[k], self.c[kk]


# (single reference, unitary, levels of cluster operator, nesting) small enough to run in seconds
NESTED = [(True, False, [1], 1), (True, False, [1], 2), (True, False, [1], 3), (True, False, [1], 4), (True, False, [2], 1),
          (True, False, [2], 2), (True, False, [1, 2], 1), (True, False, [1, 2], 2), (True, False, [3], 1),
          (True, True, [1], 1), (True, True, [1], 2), (True, True, [2], 1), (True, True, [1, 2], 1), (True, True, [2], 2),
          (False, False, [1], 1), (False, False, [1], 2), (False, False, [2], 1), (False, True, [1], 1), (False, True, [1], 2),
          (False, True, [2], 1), (False, True, [1, 2], 1)]
DEEP = [(True, False, [1], 3), (True, False, [1], 4)]
# bch_cc_rsc expands H into elementary blocks: more left terms, each small
BCH = [(True, False, [1], 1), (True, False, [1], 2), (True, False, [1], 3), (True, False, [1], 4), (True, False, [2], 1),
       (True, False, [2], 2), (True, False, [1, 2], 2), (True, True, [1], 1), (True, True, [1], 2), (True, True, [1], 3),
       (True, True, [2], 1), (True, True, [1, 2], 1), (True, True, [2], 2), (False, False, [1], 1), (False, False, [1], 2),
       (False, True, [1], 1), (False, False, [2], 1)]
SLOW_NESTED = [(True, False, [1, 2], 3), (True, False, [2], 3)]
SLOW_BCH = [(True, False, [2], 3), (False, True, [1], 2), (True, False, [1, 2], 3)]
# with limits (few open indices): triples and more
TRIPLES = [(True, True, [3], 1), (True, False, [3], 1), (True, True, [1, 3], 1), (True, False, [1, 2, 3], 1), (True, False, [2, 3], 1),
           (True, True, [3, 1], 1), (True, False, [1, 3], 2), (True, False, [3, 2, 1], 1)]
SRD = [(2, 0, 2), (2, 0, 3), (3, 0, 2), (1, 0, 3), (2, 0, 2)]
MRD = [(1, 2, 1), (1, 2, 1), (1, 3, 1), (0, 3, 1), (1, 2, 2), (2, 2, 1)]


def shard(sh):
    rng = sh.rng
    F = Focks(sh)
    kinds = [nested_fock, bch_fock, rsc_fock, nested_limited, bch_limited, rsc_limited, rsc_fock, rsc_limited]
    i = sh.idx
    if i % 2 == 0:
        nested_fock(sh, F, [(True, False, [1], 3 + i // 2 % 2)])
    while not sh.over():
        amp_list(sh)
        f = kinds[i % len(kinds)]
        i += 1
        try:
            f(sh, F)
        except (numev.TooBig, OverflowError):
            sh.count("skipped_large")


def done(sh, req, top, kind, level, un):
    sh.count(kind)
    for k in range(1, level + 1):
        sh.count("level_%d" % k)
    sh.count("unitary", bool(un))
    sh.count("result_terms", len(top))
    sh.top("result_terms_one", len(top))
    sh.evaluated(key=[kind, req], nontrivial=len(top) > 1, sample=dict(kind=kind, request=req, n_out=len(top), first=top[:1]))


def pick(sh, table):
    rng = sh.rng
    if sh.tier == "thorough" and rng.random() < 0.1:
        table = SLOW_NESTED if table is NESTED else SLOW_BCH if table is BCH else table
    sr, un, cl, lev = rng.choice(table)
    cl = list(cl)
    rng.shuffle(cl)
    kw = dict(nested_level=lev, cluster_levels=cl, single_reference=sr, unitary=un)
    herm = rng.random() < 0.75
    if not herm:
        kw["hermitian_tensor"] = False
    if rng.random() < 0.3:
        kw["expand_hole"] = False
    return sr, un, cl, lev, herm, kw


def nested_value(fm, m, seq, levels):
    """left-nested matrix commutators"""
    M = seq[0]
    out = []
    for A in seq[1:]:
        M = M @ A - A @ M
        out.append(M)
    return out


def nested_fock(sh, F, table=None):
    rng = sh.rng
    sr, un, cl, lev, herm, kw = pick(sh, table or (DEEP if rng.random() < 0.25 else NESTED))
    if rng.random() < 0.15 and lev < 3 and len(cl) == 1 and (sr or cl == [1]):
        kw["for_commutator"] = False
    dims = rng.choice(SRD if sr and rng.random() < 0.7 else MRD)
    kw.update(max_cu=20, max_n_open=99)
    fm, m = F.get(dims, herm)
    r = got(sh, "nested", kw=kw)
    if r is None:
        return
    H, A = fm.matrix(m, bare_h()), fm.matrix(m, amps(cl, 20, sr, un))
    exp = nested_value(fm, m, [H] + [A] * lev, lev)[-1] / factorial(lev)
    compare(sh, dict(kw=kw), fm, m, exp, r["out"], "nested commutator differs from the true BCH term")
    done(sh, kw, r["out"], "nested_fock", lev, un)
    sh.count("nested_deep", lev > 2)


def bch_fock(sh, F):
    rng = sh.rng
    sr, un, cl, lev, herm, kw = pick(sh, BCH)
    dims = rng.choice(SRD if sr else MRD)
    lim = 99
    kw["max_cu_levels"] = rng.choice([20, [20] * lev])
    kw["n_opens"] = rng.choice([{"all": [0, lim]}, [[0, lim]] * lev])
    fm, m = F.get(dims, herm)
    r = got(sh, "bch", kw=kw)
    if r is None:
        return
    H, A = fm.matrix(m, bare_h()), fm.matrix(m, amps(cl, 20, sr, un))
    seq = nested_value(fm, m, [H] + [A] * lev, lev)
    out = r["out"]
    for k in range(lev + 1):
        exp = H if k == 0 else seq[k - 1] / factorial(k)
        if not compare(sh, dict(kw=kw, level=k), fm, m, exp, out.get(str(k), []), "BCH level differs from the true nested commutator"):
            return
    done(sh, kw, out.get(str(lev), []), "bch_fock", lev, un)


def rand_seq(rng, n):
    ranks = {2: [1, 2, 2], 3: [1, 1, 2], 4: [1]}[n]
    pools = ["cv", "cav", "cav", "ghpcav", "hp", "a", None]
    lst = []
    two = 0
    for i in range(n):
        r = rng.choice(ranks)
        if n >= 3 and r == 2:
            two += 1
            if two > 1:
                r = 1
        lst.append(op_term(rng, rng.choice("HTD"), r, 40 * i + (0 if i == 0 else 20), rng.choice(pools)))
    return lst


def rsc_fock(sh, F):
    rng = sh.rng
    n = rng.choice([2, 2, 3, 3, 3, 4])
    lst = rand_seq(rng, n)
    wick.count([t["op"] for t in lst], 20, 0, 99, 1500)
    herm = rng.random() < 0.75
    kw = dict(max_cu_levels=rng.choice([20, [20] * (n - 1)]), n_opens=rng.choice([{"all": [0, 99]}, [[0, 99]] * (n - 1)]))
    if not herm:
        kw["hermitian_tensor"] = False
    if rng.random() < 0.3:
        kw["expand_hole"] = False
    if rng.random() < 0.15:
        kw["for_commutator"] = False
    req = dict(terms=lst, kw=kw)
    r = got(sh, "rsc", **req)
    if r is None:
        return
    fm, m = F.get(rng.choice(MRD), herm)
    mats = [fm.matrix(m, [t]) for t in lst]
    seq = nested_value(fm, m, mats, n - 1)
    for k in range(1, n):
        if not compare(sh, dict(req, level=k), fm, m, seq[k - 1], r["out"].get(str(k), []), "recursive commutator differs from the true one"):
            return
    # only the deepest level is guaranteed unshared with the input
    same_inputs(sh, req, lst, r["after"])
    done(sh, req, r["out"].get(str(n - 1), []), "rsc_fock", n - 1, False)


def by_rank(sh, req, exp, got, herm, what, d=(2, 3, 2)):
    m = numev.Model(sh.seed * 31 + sh.idx, d, hermitian=herm)
    for rk in sorted({len(t["op"][0]) for t in exp} | {len(t["op"][0]) for t in got}):
        e = [t for t in exp if len(t["op"][0]) == rk]
        o = [t for t in got if len(t["op"][0]) == rk]
        if not all(terms.size_ok(t, d, 1e6) for t in e + o):
            sh.count("rank_skipped_large")
            continue
        v, s = m.values(e)
        w, s2 = m.values(o)
        sh.count("ranks_compared")
        if not numev.close(v, w, s * 1e-2 + s2 * 1e-2):
            sh.violate(what, request=req, open_rank=rk, expected=v, got=w, n_expected=len(e), n_out=len(o), got_terms=o[:6])
            return False
    return True


def window(sh, req, out, lo, hi, mc):
    for t in out:
        no = len(t["op"][0]) + len(t["op"][1])
        if not lo <= no <= hi:
            sh.violate("result outside the open-index window", request=req, term=t)
            return False
        if mc is not None and any(x[0] == "L" and len(x[2]) > mc for x in t["t"]):
            sh.violate("cumulant above the requested level", request=req, term=t)
            return False
    return True


def rand_window(rng, tot):
    hi = rng.choice([0, 2, 4, 4, 6])
    lo = rng.choice([0, 0, 0, min(2, hi), hi])
    return lo, min(hi, tot)


def parity(x, y):
    p = [y.index(i) for i in x]
    return (-1) ** sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p)))


def amp_list(sh):
    """the list of cluster operators that enters the commutators"""
    rng = sh.rng
    lv = rng.sample([1, 2, 3, 4], rng.choice([1, 2, 3, 4]))
    start, un, sr = rng.choice([0, 4, 7, 20]), rng.random() < 0.5, rng.random() < 0.5
    kw = dict(levels=lv, start=start, unitary=un, single_reference=sr)
    r = sh.need("builder", f="cluster_operators", kw=kw)
    if r is None:
        return
    m = numev.Model(sh.seed * 31 + sh.idx, (2, 2, 2))
    for k in lv:
        for exc in (True, False):
            e = [t for t in amps([k], start, sr, un) if (t["op"][0][0][0] in "vp") == exc]
            o = [t for t in r["out"] if len(t["op"][0]) == k and (t["op"][0][0][0] in "vp") == exc]
            if len(o) != len(e):
                sh.violate("wrong number of cluster operators", request=kw, out=r["out"])
                return
            if k > 3:     # too large to evaluate: same labels on tensor and operator, same order up to a sign
                bad = False
                for t in o:
                    tn, u, l = t["t"][0][1:]
                    c, a = t["op"] if exc else t["op"][::-1]
                    ok = len(t["t"]) == 1 and tn == "T" and set(u) == set(a) and set(l) == set(c) and len(set(u)) == len(set(l)) == k \
                        and {x[0] for x in u} == {"c" if sr else "h"} and {x[0] for x in l} == {"v" if sr else "p"}
                    bad |= not ok or abs(t["c"] * parity(u, a) * parity(l, c) - e[0]["c"]) > 1e-14
            else:
                v, s = m.values(e)
                w, s2 = m.values(o)
                bad = not numev.close(v, w, s + s2)
            if bad:
                sh.violate("cluster operator list is not T or T - T+", request=kw, expected=e, got=o)
                return
    if len(r["out"]) != len(lv) * (2 if un else 1):
        sh.violate("wrong number of cluster operators", request=kw, out=r["out"])
    sh.count("amplitude_lists")


def nested_limited(sh, F):
    rng = sh.rng
    tri = rng.random() < 0.25
    sr, un, cl, lev, herm, kw = pick(sh, TRIPLES if tri else NESTED)
    sh.count("triples", tri)
    if lev > 3 or lev == 3 and 2 in cl:
        return
    mc = rng.choice([1, 2, 2, 3])
    lo, hi = rand_window(rng, 99)
    kw.update(max_cu=mc, max_n_open=hi, min_n_open=lo)
    lim = 1500
    exh = kw.get("expand_hole", True)
    exp = []
    tot = 0
    for h in bare_h():
        for choice in product(amps(cl, 0, sr, un), repeat=lev):
            A = [terms.map_term(t, lambda x, i=i: x[0] + str(int(x[1:]) + 10 + 10 * i)) for i, t in enumerate(choice)]
            for k in range(lev + 1):
                # [..[H,A1],..An] over all choices: (-1)^k C(n,k) A^k H A^(n-k)
                e = expansion(A[:k] + [h] + A[k:], mc, lo, hi, True, exh, (-1) ** k * comb(lev, k) / factorial(lev), lim)
                tot += len(e)
                if tot > lim:
                    raise OverflowError
                exp += e
    r = got(sh, "nested", kw=kw)
    if r is None:
        return
    if window(sh, dict(kw=kw), r["out"], lo, hi, mc) and \
            by_rank(sh, dict(kw=kw), exp, r["out"], herm, "nested commutator with limits differs from the expansion"):
        done(sh, kw, r["out"], "nested_limited", lev, un)


def chain(sh, req, left, right_terms, out, mc, lo, hi, fc, exh, factor, herm, lim, what):
    """expected level from the recorded level below"""
    exp = []
    for l in left:
        # the recorded left term may use any labels; keep the right factor's labels apart
        far = 1 + max([int(x[1:]) for x in terms.all_indices(l)] + [0])
        for r in right_terms:
            r2 = terms.map_term(r, lambda x: x[0] + str(int(x[1:]) + far))
            if fc and (not l["op"][0] and not l["op"][1]):
                continue
            exp += expansion([l, r2], mc, lo, hi, fc, exh, factor, lim) + expansion([r2, l], mc, lo, hi, fc, exh, -factor, lim)
            if len(exp) > 4 * lim:
                raise OverflowError
    return window(sh, req, out, lo, hi, None) and by_rank(sh, req, exp, out, herm, what)


def bch_limited(sh, F):
    rng = sh.rng
    tri = rng.random() < 0.25
    sr, un, cl, lev, herm, kw = pick(sh, TRIPLES if tri else [x for x in BCH if x[3] <= 3 and not (x[2] == [2] and x[3] > 1)])
    sh.count("triples", tri)
    mcs = [rng.choice([1, 2, 3]) for _ in range(lev)]
    wins = [rand_window(rng, 99) for _ in range(lev)]
    for i in range(lev - 1):
        if wins[i][1] < 2:
            wins[i] = (0, rng.choice([2, 4]))
    kw["max_cu_levels"] = mcs
    kw["n_opens"] = [list(w) for w in wins]
    if rng.random() < 0.2:
        kw["max_cu_levels"], mcs = mcs[0], [mcs[0]] * lev
    r = got(sh, "bch", kw=kw)
    if r is None:
        return
    left = r["out"].get("0", [])
    h = bare_h()
    m = numev.Model(sh.seed * 31 + sh.idx, (2, 0, 2) if sr else (2, 2, 2), hermitian=herm)
    v, s = m.values(h)
    w, s2 = m.values(left)
    if not numev.close(v, w, s + s2):
        sh.violate("level zero is not the bare Hamiltonian", request=dict(kw=kw), expected=v, got=w)
        return
    for k in range(1, lev + 1):
        out = r["out"].get(str(k), [])
        if len(left) > 150:
            sh.count("level_skipped_large")
            return
        if not chain(sh, dict(kw=kw, level=k), left, amps(cl, 0, sr, un), out, mcs[k - 1], wins[k - 1][0], wins[k - 1][1], True,
                     kw.get("expand_hole", True), 1.0 / k, herm, 800, "BCH level with limits differs from the commutator of the level below"):
            return
        left = out
    done(sh, kw, left, "bch_limited", lev, un)


def rsc_limited(sh, F):
    rng = sh.rng
    n = rng.choice([2, 3, 3, 3, 4])
    lst = rand_seq(rng, n)
    wick.count([t["op"] for t in lst], 3, 0, 99, 4000)
    herm = rng.random() < 0.75
    mcs = [rng.choice([1, 2, 2, 3]) for _ in range(n - 1)]
    wins = [rand_window(rng, 99) for _ in range(n - 1)]
    for i in range(n - 2):
        if wins[i][1] < 2:
            wins[i] = (0, rng.choice([2, 4]))
    kw = dict(max_cu_levels=mcs, n_opens=[list(w) for w in wins])
    if not herm:
        kw["hermitian_tensor"] = False
    if rng.random() < 0.3:
        kw["expand_hole"] = False
    if rng.random() < 0.2:
        kw["for_commutator"] = False
    if rng.random() < 0.2:
        kw["max_cu_levels"], mcs = mcs[0], [mcs[0]] * (n - 1)
    if rng.random() < 0.2:
        kw["n_opens"], wins = {"all": list(wins[0])}, [wins[0]] * (n - 1)
    req = dict(terms=lst, kw=kw)
    r = got(sh, "rsc", **req)
    if r is None:
        return
    left = [lst[0]]
    for k in range(1, n):
        out = r["out"].get(str(k), [])
        if not chain(sh, dict(req, level=k), left, [lst[k]], out, mcs[k - 1], wins[k - 1][0], wins[k - 1][1],
                     kw.get("for_commutator", True), kw.get("expand_hole", True), 1.0, herm, 1500,
                     "recursive commutator with limits differs from the commutator of the level below"):
            return
        left = out
    same_inputs(sh, req, lst, r["after"])
    done(sh, req, left, "rsc_limited", n - 1, False)
