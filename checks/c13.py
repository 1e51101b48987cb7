"""C13: spin-adapted terms evaluated with spin-free tensors against the spin-integrated term evaluated with the singlet spin
blocks built from those spin-free tensors."""
import numpy as np
from itertools import combinations
from vlib import terms, numev

RULE = ("random spin-integrated terms, fully contracted or with a one-body alpha or two-body alpha-beta operator, tensors up to "
        "three-body in every spin block, both majority conventions; all spin blocks are built from random spin-free tensors "
        "(pair-permutation symmetric, Hermitian) and the adapted terms are evaluated with the spin-free tensors.  Non-trivial: "
        "non-zero value and at least two tensors")
ASSUMPTIONS = ["singlet: every spin block of a tensor is the signed sum of its spin-free tensor over same-spin permutations",
               "result tensors carry the (n!)^2 factor of the code emitter"]
BUDGET = {"quick": 20, "thorough": 500}
MIN_NONTRIVIAL = {"quick": 150, "thorough": 2000}
MIN_OBSERVED = {"scalar": 80, "one_body": 40, "two_body": 30, "same_spin_pair": 60, "rank3_factor": 20, "beta_majority": 60,
                "adapted_terms": 1500, "alpha_minor": 30}


def spin_op(rng, t, n):
    """assign spins such that the operator is the one-body alpha or two-body alpha-beta block"""
    for _ in range(25):
        s = terms.assign_spin(rng, t)
        if s is None:
            return None
        cre, ann = s["op"]
        if n == 0:
            return s
        b = sum(x[0].isupper() for x in cre)
        if (n == 1 and b == 0) or (n == 2 and b == 1):
            return s
    return None


class SM:
    def __init__(self, seed):
        self.seed, self.m = seed, {}

    def get(self, d):
        if d not in self.m:
            if len(self.m) > 20:
                self.m.clear()
            m = numev.Model(self.seed, d, spin=True, singlet=True)
            G = m.G
            a1 = m.rng("opsf", 1).uniform(-1, 1, (G, G))
            a2 = m.rng("opsf", 2).uniform(-1, 1, (G,) * 4)
            a2 = (a2 + np.transpose(a2, (1, 0, 3, 2))) / 2
            m.over[("Asa", 1, 1)] = a1
            m.over[("Asa", 2, 2)] = a2
            R1 = np.zeros((m.M, m.M))
            R1[:G, :G] = a1
            m.over[("A", 1, 1)] = R1
            cb = list(combinations(range(m.M), 2))
            R2 = np.zeros((len(cb), len(cb)))
            for i, (p, q) in enumerate(cb):
                if not (p < G <= q):
                    continue
                for j, (r, s) in enumerate(cb):
                    if r < G <= s:
                        R2[i, j] = a2[p, q - G, r, s - G]
            m.over[("A", 2, 2)] = R2
            self.m[d] = m
        return self.m[d]


def shard(sh):
    rng = sh.rng
    models = SM(sh.seed * 1000 + sh.idx)
    while not sh.over():
        n = rng.choice([0, 0, 0, 1, 1, 2])
        t = None
        for _ in range(40):
            t = terms.rand_term(rng, "so", n_fac=rng.choice([1, 2, 2, 3]), max_rank=rng.choice([2, 2, 3]), p_open=[0.05, 0.25, 0.4][n],
                                max_open=2 * n, max_cu=3, one_h=rng.random() < 0.7, scalar=n == 0,
                                pool=rng.choice([None, None, "cav", "a", "hp", "cv"]))
            if t is not None and len(t["op"][0]) == n and len(terms.all_indices(t)) <= 14:
                break
            t = None
        if t is None:
            continue
        s = spin_op(rng, t, n)
        if s is None:
            continue
        s = dict(s, ty="si")
        try:
            judge(sh, rng, models, s, n)
        except numev.TooBig:
            sh.count("skipped_large")
        if sh.violations:
            return


def judge(sh, rng, models, t, n):
    d = terms.dims_for(t, rng.choice([(1, 2, 1), (1, 1, 2), (2, 1, 1), (1, 2, 2)]))
    d = tuple(min(x, y) for x, y in zip(d, (2, 3, 2)))
    if not terms.size_ok(t, d, 1e6) or (sum(d) > 5 and any(len(x[2]) > 2 for x in t["t"])):
        d = (1, 2, 1)
        if not terms.size_ok(t, d, 1e6):
            sh.count("skipped_large")
            return
    m = models.get(d)
    want = m.value(t)
    kw = {}
    if rng.random() < 0.4:
        kw["alpha_major"] = rng.random() < 0.3
    r = sh.need("singlet", term=t, kw=kw)
    if r is None:
        return
    out = r["out"]
    sh.count(["scalar", "one_body", "two_body"][n])
    sh.count("adapted_terms", len(out))
    sh.count("alpha_minor", kw.get("alpha_major") is False)
    nb = [sum(x[0].isupper() for x in f[2]) for f in t["t"]]
    sh.count("rank3_factor", any(len(f[2]) > 2 for f in t["t"]))
    sh.count("beta_majority", any(2 * b > len(f[2]) > 1 for f, b in zip(t["t"], nb)))
    sh.count("same_spin_pair", any(b > 1 or len(f[2]) - b > 1 for f, b in zip(t["t"], nb)))
    req = dict(term=t, kw=kw, dims=d)
    for o in out:
        if o["ty"] != "sa" and (o["t"] or o["op"][0]):
            return sh.violate("adapted term is not spin-free", request=req, result=o)
        if any(x[0].isupper() for x in terms.all_indices(o)):
            return sh.violate("adapted term carries beta labels", request=req, result=o)
    live = [o for o in out if o["t"] or o["op"][0]]
    got, scale = m.values(live)
    f = [1, 1, 4][n]
    sh.evaluated(key=[t, kw], nontrivial=abs(want) > 1e-8 and len(t["t"]) > 1,
                 sample=dict(request=req, adapted=out[:6], value=want, sum=f * got))
    if not numev.close(want, f * got, f * scale):
        return sh.violate("spin-adapted terms do not reproduce the spin-integrated term", request=req, expected=want, got=f * got, adapted=out[:20])
