"""C15: gradient terms contracted with an amplitude variation against the directional derivative of the term's value."""
from vlib import terms, numev

RULE = ("random fully contracted terms with 0-4 amplitudes (excitation and de-excitation, ranks 1-3, repeated names) in spin-orbital, "
        "spin-integrated and spin-free form, as given and canonical; the derivative is computed by the product rule with a random "
        "variation tensor in place of each amplitude in turn, and compared with the gradient terms whose operator is replaced by "
        "that variation; open terms must be refused.  Non-trivial: non-zero derivative and at least two tensors")
ASSUMPTIONS = ["Hermitian tensors; all-active amplitudes are zero and not varied"]
BUDGET = {"quick": 20, "thorough": 300}
MIN_NONTRIVIAL = {"quick": 200, "thorough": 4000}
MIN_OBSERVED = {"so": 150, "si": 60, "sa": 60, "no_amplitudes": 20, "refused": 30, "several_amplitudes": 100, "gradient_terms": 500,
                "equal_amplitudes": 60}


def get_model(cache, seed, d, spin):
    k = (d, spin)
    if k not in cache:
        if len(cache) > 20:
            cache.clear()
        m = numev.Model(seed, d, spin=spin)
        for n in (1, 2, 3):
            if n < 3 or m.M <= 10:
                dl = m.R("T", "Zdelta", n)
                m.over[("R", "T", "Z", n)] = dl
                m.over[("A", n, n)] = dl.T.copy()
        cache[k] = m
    return cache[k]


def sa_model(cache, seed, d):
    k = (d, "sa")
    if k not in cache:
        m = numev.Model(seed, d)
        for n in (1, 2, 3):
            if m.G ** (2 * n) > 500000:
                continue
            x = m.sf_tensor("T", "Zdelta", n)
            m.cache[("sf", "T", "Z", n)] = x
            m.over[("Asa", n, n)] = x.transpose(list(range(n, 2 * n)) + list(range(n))).copy()
        cache[k] = m
    return cache[k]


def shard(sh):
    rng = sh.rng
    cache = {}
    seed = sh.seed * 1000 + sh.idx
    while not sh.over():
        ty = rng.choice(["so", "so", "si", "sa"])
        kinds = rng.choice([None, None, "HT", "HTTD", "HH", "TD"])
        open_ = rng.random() < 0.1
        t = terms.rand_term(rng, ty, n_fac=rng.choice([1, 2, 2, 3, 4]), max_rank=rng.choice([2, 2, 3]), scalar=not open_,
                            p_open=0.5, max_open=4, max_cu=3, one_h=rng.random() < 0.7, kinds=kinds,
                            pool=rng.choice([None, None, "cav", "hp", "cv", "a"]))
        if t is None or not t["t"]:
            continue
        if rng.random() < 0.5 and not open_:
            ev = sh.call("canon", jobs=[[t, "canonicalize", {}]])
            if ev is None or "ok" not in ev or "err" in ev["ok"]["res"][0]:
                continue
            t = ev["ok"]["res"][0]["r"]
            if not t["t"]:
                continue
        try:
            judge(sh, rng, cache, seed, t, ty)
        except numev.TooBig:
            sh.count("skipped_large")
        if sh.violations:
            return


def judge(sh, rng, cache, seed, t, ty):
    if t["op"][0]:
        ev = sh.call("gradient", term=t)
        if ev is None:
            return
        if "ok" in ev and "refused" not in ev["ok"]:
            return sh.violate("gradient of a term with an open operator is not refused", request=dict(term=t), result=ev["ok"])
        sh.count("refused")
        sh.evaluated(key=t, nontrivial=False)
        return
    d = terms.dims_for(t, rng.choice([(1, 2, 1), (1, 1, 2)]) if ty == "si" else rng.choice([(2, 2, 2), (1, 2, 2), (2, 2, 1), (1, 3, 1)]))
    d = tuple(min(x, y) for x, y in zip(d, (3, 3, 3)))
    if not terms.size_ok(t, d, 1e6) or sum(d) > (5 if ty == "si" else 7):
        d = (1, 2, 1)
        if not terms.size_ok(t, d, 1e6):
            sh.count("skipped_large")
            return
    m = sa_model(cache, seed, d) if ty == "sa" else get_model(cache, seed, d, ty == "si")
    want = 0.0
    amps = [i for i, x in enumerate(t["t"]) if x[0] == "T"]
    for i in amps:
        f = t["t"][i]
        want += m.value(dict(t, t=t["t"][:i] + [["T", "Z", f[2], f[3]]] + t["t"][i + 1:]))
    r = sh.need("gradient", term=t)
    if r is None:
        return
    req = dict(term=t, dims=d)
    if "refused" in r:
        return sh.violate("gradient of a fully contracted term is refused", request=req, result=r)
    out = [o for o in r["out"] if o["t"] or o["op"][0]]
    got, scale = m.values(out)
    sh.count(ty)
    sh.count("no_amplitudes", not amps)
    sh.count("several_amplitudes", len(amps) > 1)
    nm = [(t["t"][i][1], len(t["t"][i][2])) for i in amps]
    sh.count("equal_amplitudes", len(set(nm)) < len(nm))
    sh.count("gradient_terms", len(out))
    sh.evaluated(key=t, nontrivial=abs(want) > 1e-8 and len(t["t"]) > 1, sample=dict(request=req, gradient=out[:4], derivative=want, sum=got))
    if not amps and r["out"]:
        return sh.violate("gradient terms for a term without amplitudes", request=req, result=r["out"])
    if not numev.close(want, got, scale):
        return sh.violate("gradient terms are not the derivative", request=req, expected=want, got=got, gradient=out)
