"""C04: symmetry-equivalent rewritings of a term must canonicalize to the same term with the same sign."""
from vlib import terms, numev
from checks.c03 import Models

RULE = ("random contraction-like terms (spin-orbital, spin-integrated, spin-adapted); each is rewritten several times by renaming "
        "indices, permuting antisymmetric groups (with sign) or index pairs, swapping upper and lower indices of Hermitian "
        "tensors and reordering tensors; all copies are canonicalized, and the canonical term is canonicalized again.  "
        "Non-trivial: the canonical form is non-empty and has at least two tensors")
# a term with an odd automorphism that is wrongly kept shows up as a sign mismatch for half of all rewritings
ASSUMPTIONS = ["contraction results as in C03"]
BUDGET = {"quick": 45, "thorough": 700}
MIN_NONTRIVIAL = {"quick": 480, "thorough": 8000}
MIN_OBSERVED = {"so": 300, "si": 90, "sa": 90, "rewritings": 1800, "negative_rewritings": 480, "voids": 12, "swap_refused": 18,
                "repeated_tensors": 180}


def parity(p):
    s = 1
    for i in range(len(p)):
        for j in range(i):
            if p[j] > p[i]:
                s = -s
    return s


def rewrite(rng, t, hermitian):
    t = terms.relabel_indices(rng, t)
    sign = 1
    ts = []
    for k, nm, u, l in t["t"]:
        n = len(u)
        if t["ty"] == "sa":
            p = list(range(n))
            rng.shuffle(p)
            u, l = [u[i] for i in p], [l[i] for i in p]
        else:
            p, q = list(range(n)), list(range(n))
            if rng.random() < 0.8:
                rng.shuffle(p)
            if rng.random() < 0.8:
                rng.shuffle(q)
            sign *= parity(p) * parity(q)
            u, l = [u[i] for i in p], [l[i] for i in q]
        if (hermitian or k == "K") and rng.random() < 0.5:
            u, l = l, u
        ts.append([k, nm, u, l])
    rng.shuffle(ts)
    cre, ann = list(t["op"][0]), list(t["op"][1])
    if t["ty"] != "sa":
        p, q = list(range(len(cre))), list(range(len(ann)))
        rng.shuffle(p)
        rng.shuffle(q)
        sign *= parity(p) * parity(q)
        cre, ann = [cre[i] for i in p], [ann[i] for i in q]
    return dict(t, t=ts, op=[cre, ann]), sign


def shard(sh):
    rng = sh.rng
    models = Models(sh.seed * 1000 + sh.idx)
    thorough = sh.tier == "thorough"
    while not sh.over():
        jobs, meta = [], []
        for _ in range(10):
            ty = rng.choice(["so", "so", "so", "si", "sa"])
            if rng.random() < 0.3:
                n, pool = rng.choice([3, 4, 4, 5]), rng.choice(["hp", "cv", "cav", "g"])
                t = terms.rand_term(rng, ty, n_fac=n, max_rank=2, p_open=rng.choice([0.0, 0.2, 0.5]),
                                    pool=pool, kinds=rng.choice(["HTT", "TTTD", "TD", "T", "HT"]))
            else:
                t = terms.rand_term(rng, ty, p_open=rng.choice([0.05, 0.25, 0.4, 0.6]), one_h=rng.random() < 0.6,
                                    pool=rng.choice([None, None, "cav", "a", "hp", "ca"]))
            if t is None:
                continue
            kw = {}
            herm = True
            if rng.random() < 0.25:
                kw["hermitian_tensor"] = herm = rng.random() < 0.3
            if rng.random() < 0.2:
                kw["simplify_core_cumulant"] = False
            if rng.random() < 0.2:
                kw["remove_active_amplitudes"] = False
            how = rng.choice(["canonicalize", "canonicalize_sympy"])
            nw = rng.choice([2, 3, 4]) if not thorough else rng.choice([3, 5])
            reps = [rewrite(rng, t, herm) for _ in range(nw)]
            swap = None
            if not herm:
                swap = swapped(rng, t)
            a = len(jobs)
            jobs.append([t, how, kw])
            jobs += [[r, how, kw] for r, s in reps]
            if swap:
                jobs.append([swap, how, kw])
            meta.append((t, how, kw, reps, swap, a, herm))
        r = sh.need("canon", jobs=jobs, twice=True)
        if r is None:
            continue
        for t, how, kw, reps, swap, a, herm in meta:
            judge(sh, models, t, how, kw, reps, swap, herm, r["res"][a:a + 1 + len(reps) + (1 if swap else 0)])


def swapped(rng, t):
    c = [i for i, x in enumerate(t["t"]) if x[0] in "HT"]
    if not c:
        return None
    i = rng.choice(c)
    k, nm, u, l = t["t"][i]
    return dict(t, t=t["t"][:i] + [[k, nm, l, u]] + t["t"][i + 1:])


def judge(sh, models, t, how, kw, reps, swap, herm, evs):
    req = dict(term=t, how=how, kw=kw)
    for ev, w in zip(evs, [t] + [x[0] for x in reps] + ([swap] if swap else [])):
        if "err" in ev or "builderr" in ev:
            sh.violate("valid term fails to canonicalize", request=dict(req, rewritten=w), event=ev)
            return
    base = evs[0]["r"]
    sh.count(t["ty"])
    names = [(x[0], x[1], len(x[2])) for x in t["t"] if x[0] in "HT"]
    sh.count("repeated_tensors", len(set(names)) < len(names))
    sh.evaluated(key=[t, kw], nontrivial=not evs[0]["void"] and len(base["t"]) > 1, sample=dict(request=req, canonical=base,
                                                                                               rewriting=reps[0]))
    sh.count("voids", evs[0]["void"])
    for ev in evs:
        if ev["void"]:
            if ev["r"]["t"] or ev["r"]["op"] != [[], []]:
                sh.violate("vanishing term is not the empty term", request=req, result=ev["r"])
                return
        if (ev["r2"]["t"], ev["r2"]["op"]) != (ev["r"]["t"], ev["r"]["op"]) or abs(ev["r2"]["c"] - ev["r"]["c"]) > 1e-12 or not ev["eq2"]:
            sh.violate("canonicalizing a canonical term changes it", request=req, first=ev["r"], second=ev["r2"])
            return
    for (w, s), ev in zip(reps, evs[1:]):
        sh.count("rewritings")
        sh.count("negative_rewritings", s < 0)
        o = ev["r"]
        if o["t"] != base["t"] or o["op"] != base["op"] or abs(o["c"] - s * base["c"]) > 1e-12 * (1 + abs(o["c"])):
            sh.violate("equivalent terms have different canonical forms", request=req, rewritten=w, sign=s, first=base, second=o)
            return
    zat = kw.get("remove_active_amplitudes", True)
    d = terms.dims_for(t, (2, 3, 2))
    ok = terms.size_ok(t, d, 1e6)
    if swap and ok:
        m = models.get(d, t["ty"], False, zat)
        try:
            v, w = m.value(t), m.value(swap)
        except numev.TooBig:
            return
        if abs(abs(v) - abs(w)) > 1e-6 * (abs(v) + abs(w)):
            sh.count("swap_refused")
            o = evs[-1]["r"]
            if (o["t"], o["op"]) == (base["t"], base["op"]):
                sh.violate("upper/lower swap identified although tensors are not Hermitian", request=req, swapped=swap, result=o)
