"""C12: the spin-integrated terms generated from a spin-orbital term are evaluated with the spin blocks of the same tensors."""
from itertools import product
from vlib import terms, numev
from checks.c06 import op_term

RULE = ("random spin-orbital terms (scalars and open operators up to three-body, 1-4 factors with cumulants and deltas, random "
        "labels) and canonical commutator results are spin-integrated; the original is evaluated with spin-orbital labels running "
        "over alpha and beta orbitals, the generated terms with spin-labelled orbitals, all tensors spin-conserving with "
        "independent random spin blocks.  Non-trivial: non-zero value and at least three indices")
ASSUMPTIONS = ["Hermitian tensors, all-active amplitudes zero (defaults of the generated canonical terms)", "spin-conserving tensors"]
BUDGET = {"quick": 30, "thorough": 500}
MIN_NONTRIVIAL = {"quick": 150, "thorough": 2500}
MIN_OBSERVED = {"generated_terms": 3000, "open": 100, "scalar": 60, "rank3_factor": 30, "assignments": 3000, "commutator_terms": 20,
                "mixed_spin_terms": 1500}


def assignments(t, cap=20000):
    """number of spin assignments conserving spin in every factor (brute force over union-find classes of one-body factors)"""
    idx = terms.all_indices(t)
    pos = {x: i for i, x in enumerate(idx)}
    if len(idx) > 14:
        return None
    groups = [([pos[x] for x in u], [pos[x] for x in l]) for k, nm, u, l in t["t"]] + [([pos[x] for x in t["op"][0]], [pos[x] for x in t["op"][1]])]
    n = 0
    for s in product((0, 1), repeat=len(idx)):
        if all(sum(s[i] for i in u) == sum(s[i] for i in l) for u, l in groups):
            n += 1
    return n


def cases(t):
    n = 1
    from math import comb
    for k, nm, u, l in t["t"]:
        n *= comb(2 * len(u), len(u))
    n *= comb(2 * len(t["op"][0]), len(t["op"][0]))
    return n


def shard(sh):
    rng = sh.rng
    models = {}
    k = 0
    while not sh.over():
        k += 1
        ts = []
        src = "random"
        if k % 5 == 0:
            pool = rng.choice([None, "cav", "hp", "cv"])
            l = op_term(rng, "H", rng.choice([1, 2, 2]), 0, pool)
            r = op_term(rng, rng.choice("TTD"), rng.choice([1, 2, 2]), 50, pool)
            ev = sh.call("commutator", left=l, right=r, kw=dict(max_cu=2, max_n_open=6, min_n_open=0, n_process=1))
            if ev is None or "ok" not in ev or not ev["ok"]["out"]:
                continue
            out = ev["ok"]["out"]
            ts = rng.sample(out, min(4, len(out)))
            src = "commutator_terms"
        else:
            t = terms.rand_term(rng, "so", n_fac=rng.choice([1, 2, 2, 3]), max_rank=rng.choice([2, 2, 3]),
                                p_open=rng.choice([0.05, 0.3, 0.5]), max_cu=3, one_h=rng.random() < 0.7,
                                pool=rng.choice([None, None, "cav", "a", "hp", "cv"]), scalar=rng.random() < 0.3)
            if t is None:
                continue
            ts = [t]
        for t in ts:
            if not t["t"] or cases(t) > (60000 if sh.tier == "quick" else 600000) or len(terms.all_indices(t)) > 13:
                sh.count("skipped_large")
                continue
            try:
                judge(sh, rng, models, t, src)
            except numev.TooBig:
                sh.count("skipped_large")
            if sh.violations:
                return


def judge(sh, rng, models, t, src):
    d = terms.dims_for(t, rng.choice([(1, 1, 1), (1, 2, 1), (1, 1, 2), (2, 1, 1)]))
    d = tuple(min(x, y) for x, y in zip(d, (2, 3, 2)))
    m = models.get(d)
    if m is None:
        m = models[d] = numev.Model(sh.seed * 1000 + sh.idx, d, spin=True)
    if not terms.size_ok(t, tuple(2 * x for x in d), 2e6):
        sh.count("skipped_large")
        return
    m.soX = True
    try:
        want = m.value(t)
    finally:
        m.soX = False
    r = sh.need("spin", term=t)
    if r is None:
        return
    out = r["out"]
    n = assignments(t)
    sh.count("generated_terms", len(out))
    sh.count("assignments", n or 0)
    sh.count("open" if t["op"][0] else "scalar")
    sh.count("rank3_factor", any(len(x[2]) > 2 for x in t["t"]))
    sh.count(src)
    for o in out:
        if o["ty"] != "si":
            return sh.violate("generated term is not spin-integrated", request=dict(term=t), result=o)
        for u, l in [(x[2], x[3]) for x in o["t"]] + [tuple(o["op"])]:
            if sum(x[0].isupper() for x in u) != sum(x[0].isupper() for x in l):
                return sh.violate("generated term does not conserve spin", request=dict(term=t), result=o)
        sh.count("mixed_spin_terms", len({x[0].isupper() for x in terms.all_indices(o)}) > 1)
    live = [o for o in out if o["t"] or o["op"][0]]
    got, scale = m.values(live)
    sh.evaluated(key=t, nontrivial=abs(want) > 1e-8 and len(terms.all_indices(t)) > 2,
                 sample=dict(term=t, generated=len(out), assignments=n, value=want, sum=got))
    if not numev.close(want, got, scale):
        return sh.violate("spin-integrated terms do not sum to the spin-orbital term", request=dict(term=t, dims=d), expected=want, got=got,
                          generated=len(out), assignments=n)
    if n is not None and len(live) > n:
        return sh.violate("more generated terms than spin assignments", request=dict(term=t), generated=len(live), assignments=n)
