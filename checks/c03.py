"""C03: numerical value of terms before and after simplification / canonicalization."""
from vlib import terms, numev

RULE = ("random contraction-like terms (1-4 Hamiltonian/amplitude factors of rank 1-3 times one random Wick contraction with "
        "cumulants up to rank 3 and deltas), spin-orbital, spin-integrated and spin-adapted, random labels and order, all option "
        "settings; the value (random tensors with exactly the assumed symmetries, random operator) is computed before and after. "
        "Non-trivial: the input value is non-zero and the term has at least two tensors")
ASSUMPTIONS = ["the terms are contraction results: every index of a density or delta belongs to a physical tensor, deltas do not chain (except through a diagonal index); at most one tensor has diagonal indices",
               "spin-adapted tensors have pair-permutation symmetry"]
BUDGET = {"quick": 45, "thorough": 700}
MIN_NONTRIVIAL = {"quick": 900, "thorough": 15000}
MIN_OBSERVED = {"diagonal_terms": 200, "so": 600, "si": 180, "sa": 180, "sign_flips": 120, "deltas": 300, "cumulants": 300, "voids": 12,
                "nonhermitian": 180, "repeated_calls": 60, "core_option_off": 40, "core_resolved": 30}
BATCH = 40


def options(rng, how):
    kw = {}
    if rng.random() < 0.35:
        kw["simplify_core_cumulant"] = rng.random() < 0.5
    if rng.random() < 0.35:
        kw["remove_active_amplitudes"] = rng.random() < 0.5
    if how.startswith("canonicalize") and how != "canonicalize_simple" and rng.random() < 0.4:
        kw["hermitian_tensor"] = rng.random() < 0.4
    return kw


class Models:
    def __init__(self, seed):
        self.seed, self.m = seed, {}

    def get(self, dims, ty, herm, zat):
        k = (dims, ty == "si", herm, zat)
        if k not in self.m:
            if len(self.m) > 40:
                self.m.clear()
            self.m[k] = numev.Model(self.seed, dims, hermitian=herm, spin=ty == "si", zero_active_t=zat)
        return self.m[k]


def shard(sh):
    rng = sh.rng
    models = Models(sh.seed * 1000 + sh.idx)
    big = sh.tier == "thorough"
    while not sh.over():
        jobs, meta = [], []
        for _ in range(BATCH):
            ty = rng.choice(["so", "so", "so", "si", "sa"])
            diag = False
            t = terms.rand_term(rng, ty, p_open=rng.choice([0.05, 0.25, 0.4, 0.6]), one_h=rng.random() < 0.7,
                                keep_c=0.15 if rng.random() < 0.1 else 0.0,
                                pool=rng.choice([None, None, None, "cav", "a", "hp", "ca"]))
            if t is None:
                continue
            if rng.random() < 0.2:
                t2 = make_diagonal(rng, t)
                if t2 is not None:
                    t, diag = t2, True
            how = rng.choice(["canonicalize", "canonicalize", "canonicalize", "canonicalize_sympy", "canonicalize_simple", "simplify"])
            if diag:
                how = rng.choice(["canonicalize_simple", "simplify"])
            kw = options(rng, how)
            d = terms.dims_for(t, rng.choice([(2, 2, 2), (2, 3, 2), (1, 3, 2), (2, 2, 3)]) if not big else
                               rng.choice([(2, 3, 2), (3, 3, 3), (2, 4, 2)]))
            if not terms.size_ok(t, d, 1e6 if ty == "sa" else 3e6):
                d = terms.dims_for(t, (1, 2, 1))
                if not terms.size_ok(t, d, 1e6):
                    sh.count("skipped_large")
                    continue
            jobs.append([t, how, kw])
            if how == "simplify" and rng.random() < 0.6:
                jobs[-1].append(rng.choice(["simplify", "canonicalize_simple"] + (["canonicalize"] if not diag else [])))
            meta.append((t, how, kw, d, diag))
        r = sh.need("canon", jobs=jobs)
        if r is None:
            continue
        for (t, how, kw, d, diag), ev in zip(meta, r["res"]):
            try:
                judge(sh, models, t, how, kw, d, ev, diag)
            except numev.TooBig:
                sh.count("skipped_large")


def judge(sh, models, t, how, kw, d, ev, diag=False):
    req = dict(term=t, how=how, kw=kw)
    if "builderr" in ev:
        sh.violate("valid term rejected", request=req, event=ev)
        return
    if "err" in ev:
        sh.violate("valid term fails to canonicalize", request=req, event=ev)
        return
    ty = t["ty"]
    herm = kw.get("hermitian_tensor", True)
    zat = kw.get("remove_active_amplitudes", True)
    m = models.get(d, ty, herm, zat)
    v0 = m.value(t)
    out = ev["r"]
    v1 = m.value(out) if out["t"] or out["op"][0] or out["op"][1] else out["c"]
    nz = abs(v0) > 1e-9
    sh.evaluated(key=[t, how, kw], nontrivial=nz and len(t["t"]) > 1, sample=dict(request=req, value=v0, result=out))
    sh.count(ty)
    if diag:
        sh.count("diagonal_terms")
    sh.count("voids", ev["void"])
    sh.count("sign_flips", (t["c"] > 0) != (out["c"] > 0))
    sh.count("deltas", sum(x[0] == "K" for x in t["t"]))
    sh.count("cumulants", sum(x[0] == "L" for x in t["t"]))
    sh.count("nonhermitian", not herm)
    if out["ty"] != ty and not ev["void"]:
        sh.violate("index kind changed", request=req, result=out)
    if any(x[0] == "K" for x in out["t"]):
        sh.violate("delta left after simplification", request=req, result=out)
    if not ev["void"] and not diag:      # what the core-cumulant option selects
        n0, n1 = (sum(x[0] == "L" for x in z["t"]) for z in (t, out))
        core = [x for x in out["t"] if x[0] == "L" and any(y[0] in "cC" for y in x[2] + x[3])]
        on = kw.get("simplify_core_cumulant", True)
        sh.count("core_option_off", not on and n0 > 0)
        sh.count("core_resolved", on and n1 < n0)
        if n1 != n0 if not on else bool(core):
            sh.violate("core-labelled cumulants are not treated as the option says", request=req, result=out)
    if "again" in ev:
        sh.count("repeated_calls")
        o2 = ev["again"]
        v2 = m.value(o2) if o2["t"] or o2["op"][0] or o2["op"][1] else o2["c"]
        if not numev.close(v0, v2):
            sh.violate("value changed by a second call on the same term", request=req, result=out, again=o2, before=v0, after=v2)
    if not numev.close(v0, v1):
        sh.violate("value changed", request=req, result=out, before=v0, after=v1)


def make_diagonal(rng, t):
    """identify upper with lower labels of one Hamiltonian tensor, wherever they are contracted (diagonal tensor times diagonal operator)"""
    hs = [x for x in t["t"] if x[0] == "H"]
    if not hs:
        return None
    k, nm, u, l = rng.choice(hs)
    cand = [(x, y) for x in u for y in l if x[0] == y[0]]
    rng.shuffle(cand)
    m = {}
    for x, y in cand[:rng.choice([1, 1, 2])]:
        if x not in m.values() and y not in m:
            m[y] = x
    if not m:
        return None
    return terms.map_term(t, lambda z: m.get(z, z))
