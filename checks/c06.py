"""C06: products and commutators against explicit Fock-space matrices (no truncation) and against the independent Wick
enumeration evaluated numerically (with limits)."""
from math import factorial
import numpy as np
from vlib import terms, numev, fock, wick

RULE = ("random products of 1-3 and commutators of 2 operator terms (Hamiltonian, excitation, de-excitation, scalar factors; rank "
        "1-3; all label spaces) and commutators of operator sums; untruncated results are turned into matrices on the full Fock "
        "space of 4-6 spin orbitals with a random multi-determinant reference and compared with the matrix product or commutator; "
        "results with cumulant/open-index limits are compared in value with the independently enumerated expansion.  "
        "Non-trivial: the result has at least two terms")
ASSUMPTIONS = ["all-active amplitudes are zero (the generator's default)", "real orbitals; Hermitian tensors unless the option is off",
               "factors carry distinct index labels"]
BUDGET = {"quick": 60, "thorough": 720}
MIN_NONTRIVIAL = {"quick": 48, "thorough": 800}
MIN_OBSERVED = {"fock_product": 9, "fock_commutator": 9, "fock_sum": 4, "limited": 24, "scalar": 4, "result_terms": 1200,
                "nonhermitian": 4, "over_internal_batch": 1}


def op_term(rng, kind, rank, start, pool=None):
    nxt = {l: start for l in "ghpcav"}
    t, (cre, ann) = terms.factor(rng, kind, rank, nxt, pool)
    u = rng.random()
    if kind == "H" and u < 0.3:     # plain builder-like operator
        ann = ["g%d" % (start + rank + i) for i in range(rank)]
        cre = ["g%d" % (start + i) for i in range(rank)]
        t = ["H", t[1], ann, cre]
    c = 1.0 / factorial(rank) ** 2 if rng.random() < 0.6 else terms.rand_coeff(rng)
    cre2, ann2 = list(cre), list(ann)
    if rng.random() < 0.3:
        rng.shuffle(cre2)
        rng.shuffle(ann2)
    return {"c": c, "t": [t], "op": [cre2, ann2], "ty": "so"}


def scalar_term(rng, start):
    for _ in range(50):
        t = terms.rand_term(rng, "so", n_fac=rng.choice([1, 2]), scalar=True, max_rank=2)
        if t is not None:
            return terms.map_term(t, lambda x: x[0] + str(int(x[1:]) + start))
    return None


def rand_operator(rng, start, maxrank=2):
    k = rng.choice("HHTTD")
    r = rng.choice([1, 1, 2, 2, 2] if maxrank < 3 else [1, 2, 2, 3])
    return op_term(rng, k, min(r, maxrank), start)


class Focks:
    def __init__(self, sh):
        self.sh, self.c = sh, {}

    def get(self, herm):
        rng = self.sh.rng
        dims = rng.choice([(1, 2, 1), (1, 3, 1), (0, 4, 1), (1, 2, 2), (2, 2, 1), (1, 3, 1), (2, 2, 2), (1, 4, 1)]
                          if self.sh.tier == "quick" else [(1, 3, 1), (1, 4, 1), (2, 2, 2), (1, 3, 2), (2, 3, 1), (0, 4, 1), (0, 5, 1)])
        k = (dims, rng.randint(0, 1))
        if k not in self.c:
            F = fock.Fock(self.sh.seed * 100 + self.sh.idx * 10 + k[1], dims, nact_elec=1 + (k[1] + self.sh.idx) % max(1, dims[1] - 1))
            self.c[k] = F
        F = self.c[k]
        kk = (k, herm)
        if kk not in self.c:
            self.c[kk] = F.model(self.sh.seed * 7 + self.sh.idx, hermitian=herm)
        return F, self.c[kk]


def factor_terms(lst):
    return [dict(t) for t in lst]


def shard(sh):
    rng = sh.rng
    F = Focks(sh)
    if sh.idx < 2:
        big(sh, sh.idx == 0)
    while not sh.over():
        u = rng.random()
        try:
            if u < 0.2:
                fock_product(sh, F)
            elif u < 0.42:
                fock_commutator(sh, F)
            elif u < 0.54:
                fock_sum(sh, F)
            elif u < 0.92:
                limited(sh)
            else:
                scalars(sh, F)
        except (numev.TooBig, OverflowError):
            sh.count("skipped_large")


def rank_of(t):
    return len(t["op"][0])


def done(sh, req, r, kind, mats=None):
    if not merged(sh, req, r["out"]):
        return
    sh.count(kind)
    sh.count("result_terms", len(r["out"]))
    sh.top("result_terms_one", len(r["out"]))
    sh.evaluated(key=req, nontrivial=len(r["out"]) > 1, sample=dict(request=req, n_out=len(r["out"]), first=r["out"][:2]))


def same_inputs(sh, req, given, after):
    def n(t):
        return (sorted(map(str, t["t"])), t["op"], t["c"])
    if [n(t) for t in given] != [n(t) for t in after]:
        sh.violate("input terms were altered", request=req, after=after)


def merged(sh, req, out):
    """no two returned terms differ only in the coefficient"""
    seen = {}
    for t in out:
        k = repr([t["t"], t["op"]])
        if k in seen:
            sh.violate("like terms are not merged in a returned list", request=req, terms=[seen[k], t], n_out=len(out))
            return False
        seen[k] = t
    return True


def compare(sh, req, F, m, exp, out, what):
    got = F.matrix(m, out)
    scale = max(1.0, np.abs(exp).max())
    if np.abs(got - exp).max() > 1e-8 * scale:
        sh.violate(what, request=req, max_error=float(np.abs(got - exp).max()), scale=float(scale), n_out=len(out), dims=F.dims,
                   out=out[:10])
        return False
    return True


def opts(rng, sh):
    kw = {}
    herm = rng.random() < 0.75
    if not herm:
        kw["hermitian_tensor"] = False
    kw["scale_factor"] = rng.choice([1.0, 1.0, -1.0, 0.5, 2.0, 1.0 / 3.0])
    if rng.random() < 0.3:
        kw["expand_hole"] = False
    return kw, herm


def too_many(ops, cap):
    wick.count(ops, 20, 0, 99, cap)


def fock_product(sh, F):
    rng = sh.rng
    n = rng.choice([1, 2, 2, 2, 3])
    fm, m = None, None
    kw, herm = opts(rng, sh)
    fm, m = F.get(herm)
    lst = [rand_operator(rng, 10 * i, 2 if n < 3 else 1) for i in range(n)]
    too_many([t["op"] for t in lst], 900)
    kw.update(max_cu=20, max_n_open=99, min_n_open=0)
    req = dict(terms=lst, kw=kw)
    r = sh.need("product", **req)
    if r is None:
        return
    exp = kw["scale_factor"] * fm.one
    for t in lst:
        exp = exp @ fm.matrix(m, [t])
    compare(sh, req, fm, m, exp, r["out"], "product differs from the true operator product")
    same_inputs(sh, req, lst, r["after"])
    sh.count("nonhermitian", not herm)
    done(sh, req, r, "fock_product")


def fock_commutator(sh, F):
    rng = sh.rng
    kw, herm = opts(rng, sh)
    fm, m = F.get(herm)
    a, b = rand_operator(rng, 0), rand_operator(rng, 10)
    too_many([a["op"], b["op"]], 900)
    kw.update(max_cu=20, max_n_open=99, min_n_open=0)
    if rng.random() < 0.25:
        kw["for_commutator"] = False
    req = dict(left=a, right=b, kw=kw)
    r = sh.need("commutator", **req)
    if r is None:
        return
    A, B = fm.matrix(m, [a]), fm.matrix(m, [b])
    compare(sh, req, fm, m, kw["scale_factor"] * (A @ B - B @ A), r["out"], "commutator differs from the true commutator")
    same_inputs(sh, req, [a, b], r["after"])
    sh.count("nonhermitian", not herm)
    done(sh, req, r, "fock_commutator")


def cluster(k, start, h, p, exc=True, c=1.0):
    hole = ["%s%d" % (h, start + i) for i in range(k)]
    part = ["%s%d" % (p, start + i) for i in range(k)]
    return {"c": c / factorial(k) ** 2, "t": [["T", "T", hole, part]], "op": [part, hole] if exc else [hole, part], "ty": "so"}


def fock_sum(sh, F):
    rng = sh.rng
    kw, herm = opts(rng, sh)
    kw.pop("expand_hole", None)
    fm, m = F.get(herm)
    left = [op_term(rng, rng.choice("HTD"), rng.choice([1, 1, 2]), 0) for _ in range(rng.choice([1, 2, 2]))]
    kw.update(max_cu=20, max_n_open=99, min_n_open=0)
    if rng.random() < 0.2:
        kw["for_commutator"] = False
    if rng.random() < 0.5:
        sr, un = rng.random() < 0.5, rng.random() < 0.5
        h, p = ("c", "v") if sr else ("h", "p")
        levels = rng.choice([[1], [2], [1, 2], [1]])
        start = rng.choice([8, 12, 30])
        right = [cluster(k, start, h, p) for k in levels]
        if un:
            right += [cluster(k, start, h, p, False, -1.0) for k in levels]
        kw.update(cluster_levels=levels, start=start, unitary=un, single_reference=sr)
        req = dict(left=left, amp=True, kw=kw)
    else:
        right = [op_term(rng, rng.choice("HTD"), rng.choice([1, 1, 2]), 10) for _ in range(rng.choice([1, 2, 2]))]
        req = dict(left=left, right=right, kw=kw)
    for a in left:
        for b in right:
            too_many([a["op"], b["op"]], 700)
    r = sh.need("lincomm", **req)
    if r is None:
        return
    A, B = fm.matrix(m, left), fm.matrix(m, right)
    compare(sh, req, fm, m, kw["scale_factor"] * (A @ B - B @ A), r["out"], "commutator of sums differs from the true commutator")
    same_inputs(sh, req, left, r["after"][0])
    if not req.get("amp"):
        same_inputs(sh, req, right, r["after"][1])
    done(sh, req, r, "fock_sum")


def expansion(lst, max_cu, lo, hi, connected, expand, coeff, limit):
    """independently enumerated terms"""
    cm, lost, n = wick.coefficient_map([t["op"] for t in lst], max_cu, lo, hi, connected, expand, limit)
    ts = [x for t in lst for x in t["t"]]
    for t in lst:
        coeff *= t["c"]
    return [{"c": coeff * c, "t": ts + [[k, k, list(u), list(l)] for k, u, l in dens], "op": [list(cre), list(ann)], "ty": "so"}
            for (dens, cre, ann), c in cm.items()]


def big(sh, connected):
    """a product with more contractions than the generator canonicalizes in one go (10000)"""
    rng = sh.rng
    labs = ["g"] * 6 if connected else ["a", "a", "h", "p", "p", "h"]
    lst = []
    for i, nm in enumerate(["H", "V", "W"]):
        c, a = ["%s%d" % (labs[2 * i], 20 * i + j) for j in range(2)], ["%s%d" % (labs[2 * i + 1], 20 * i + 10 + j) for j in range(2)]
        lst.append({"c": rng.choice([0.25, -0.5, 1.0]), "t": [["H", nm, a, c]], "op": [c, a], "ty": "so"})
    kw = dict(max_cu=2 if connected else 1, max_n_open=0 if connected else 4, scale_factor=rng.choice([1.0, 0.5]))
    if connected:
        kw.update(for_commutator=True, hermitian_tensor=False)
    exp = expansion(lst, kw["max_cu"], 0, kw["max_n_open"], connected, True, kw["scale_factor"], 60000)
    req = dict(terms=lst, kw=kw)
    r = sh.need("product", timeout=350, **req)
    if r is None:
        return
    d = (1, 2, 1)
    m = numev.Model(sh.seed * 31 + sh.idx, d, hermitian=not connected)
    for rk in sorted({rank_of(t) for t in exp} | {rank_of(t) for t in r["out"]}):
        v, s = m.values([t for t in exp if rank_of(t) == rk])
        w, s2 = m.values([t for t in r["out"] if rank_of(t) == rk])
        if not numev.close(v, w, s * 1e-2 + s2 * 1e-2):
            sh.violate("a product larger than one internal batch is wrong", request=req, open_rank=rk, expected=v, got=w,
                       n_expected=len(exp), n_out=len(r["out"]))
            return
    sh.top("contractions_in_one_product", len(exp))
    done(sh, req, r, "over_internal_batch")


def limited(sh):
    rng = sh.rng
    comm = rng.random() < 0.6
    kw, herm = opts(rng, sh)
    if rng.random() < 0.6:
        kw["expand_hole"] = True
    n = 2 if comm else rng.choice([2, 2, 3])
    lst = [rand_operator(rng, 12 * i, 3 if n == 2 else 2) for i in range(n)]
    tot = sum(2 * rank_of(t) for t in lst)
    hi = rng.choice([0, 2, 4, 6, tot, tot])
    lo = rng.choice([0, 0, 0, min(hi, 2), min(hi, 4), max(0, hi - 2)])
    mc = rng.choice([1, 2, 2, 3, 3, 4])
    kw.update(max_cu=mc, max_n_open=hi, min_n_open=lo)
    sf = kw["scale_factor"]
    exh = kw.get("expand_hole", True)
    lim = 500 if sh.tier == "quick" else 1500
    wick.count([t["op"] for t in lst], mc, 0, 99, 40 * lim)
    if comm:
        a, b = lst
        fc = rng.random() < 0.8
        if not fc:
            kw["for_commutator"] = False
        exp = expansion([a, b], mc, lo, hi, fc, exh, sf, lim) + expansion([b, a], mc, lo, hi, fc, exh, -sf, lim)
        req = dict(left=a, right=b, kw=kw)
        r = sh.need("commutator", **req)
    else:
        fc = rng.random() < 0.3
        if fc:
            kw["for_commutator"] = True
        exp = expansion(lst, mc, lo, hi, fc, exh, sf, lim)
        req = dict(terms=lst, kw=kw)
        r = sh.need("product", **req)
    if r is None:
        return
    for t in r["out"]:
        no = len(t["op"][0]) + len(t["op"][1])
        if not lo <= no <= hi or any(x[0] == "L" and len(x[2]) > mc for x in t["t"]):
            sh.violate("result outside the limits", request=req, term=t)
            return
    # group by rank of the open operator; one value per rank
    d = (2, 3, 2)
    m = numev.Model(sh.seed * 31 + sh.idx, d, hermitian=herm)
    for rk in sorted({len(t["op"][0]) for t in exp} | {len(t["op"][0]) for t in r["out"]}):
        e = [t for t in exp if len(t["op"][0]) == rk]
        o = [t for t in r["out"] if len(t["op"][0]) == rk]
        if not all(terms.size_ok(t, d, 2e6) for t in e + o):
            sh.count("rank_skipped_large")
            continue
        v, s = m.values(e)
        w, s2 = m.values(o)
        sh.count("ranks_compared")
        if not numev.close(v, w, s * 1e-2 + s2 * 1e-2):
            sh.violate("result with limits differs from the expansion within the limits", request=req, open_rank=rk,
                       expected=v, got=w, n_expected=len(e), n_out=len(o))
            return
    same_inputs(sh, req, lst, r["after"])
    sh.count("nonhermitian", not herm)
    done(sh, req, r, "limited")


def scalars(sh, F):
    rng = sh.rng
    s = scalar_term(rng, 0)
    if s is None:
        return
    b = rand_operator(rng, 150, 2)
    fm, m = F.get(True)
    u = rng.random()
    if u < 0.5:
        lst = [s, b] if rng.random() < 0.5 else [b, s]
        if rng.random() < 0.3:
            lst = [s]
        elif rng.random() < 0.2:
            lst = [b]
        elif rng.random() < 0.3:
            lst = [b, s, rand_operator(rng, 180, 1)]
        kw = dict(max_cu=20, max_n_open=99, scale_factor=rng.choice([1.0, -0.5, 3.0]))
        req = dict(terms=lst, kw=kw)
        too_many([t["op"] for t in lst if t["op"][0]], 500)
        r = sh.need("product", **req)
        if r is None:
            return
        exp = kw["scale_factor"] * fm.one
        for t in lst:
            exp = exp @ fm.matrix(m, [t])
        compare(sh, req, fm, m, exp, r["out"], "product with a scalar is not passed through exactly")
    else:
        l, rr = (s, b) if rng.random() < 0.5 else (b, s)
        kw = dict(for_commutator=rng.random() < 0.5)
        req = dict(left=l, right=rr, kw=kw)
        r = sh.need("commutator", **req)
        if r is None:
            return
        if fm is not None and np.abs(fm.matrix(m, r["out"])).max() > 1e-9:
            sh.violate("scalar does not commute", request=req, out=r["out"])
    done(sh, req, r, "scalar")
