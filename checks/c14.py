"""C14: block operations on the operator part, and operator builders, evaluated with masked operator tensors."""
from itertools import product, combinations
from math import factorial
import numpy as np
from vlib import terms, numev

EL = {"g": "cav", "p": "av", "h": "ca", "c": "c", "a": "a", "v": "v"}
RULE = ("random terms with open operators (one- to three-body, composite and elementary labels; spin-orbital, spin-integrated, "
        "spin-free) are expanded, restricted by core/virtual counts, projected to excitations or block-diagonalized; the returned "
        "terms are evaluated with a random operator tensor and the input with the same tensor masked to the documented blocks; the "
        "blocks of the returned operators are enumerated; builders are evaluated against direct sums over orbitals.  Non-trivial: "
        "non-zero masked value and more than one block")
ASSUMPTIONS = ["Hermitian tensors, all-active amplitudes zero", "excitation projection for spin-orbital and spin-free labels",
               "an operator with only active labels counts as no excitation"]
BUDGET = {"quick": 20, "thorough": 400}
MIN_NONTRIVIAL = {"quick": 200, "thorough": 4000}
MIN_OBSERVED = {"make_ddca": 60, "expand_composite_indices": 60, "make_excitation": 60, "make_one_body_diagonal": 30, "so": 100,
                "si": 40, "sa": 40, "blocks": 1500, "void_excitations": 10, "builders": 100, "single_ref": 60}


def space_of(m, x):
    x %= m.G
    return "c" if x < m.nc else ("a" if x < m.nc + m.na else "v")


def mask(m, n, f):
    """mask over (creator combination, annihilator combination)"""
    cb = [tuple(space_of(m, x) for x in c) for c in combinations(range(m.M), n)]
    u = sorted(set(cb))
    d = {(a, b): float(f(a, b)) for a in u for b in u}
    return np.array([[d[a, b] for b in cb] for a in cb])


def full_mask(m, n, f):
    """mask over all orbitals of creators then annihilators (spin-free)"""
    sp = [space_of(m, x) for x in range(m.G)]
    out = np.zeros((m.G,) * (2 * n))
    cache = {}
    for ix in product(range(m.G), repeat=2 * n):
        k = tuple(sp[i] for i in ix)
        if k not in cache:
            cache[k] = float(f(k[:n], k[n:]))
        out[ix] = cache[k]
    return out


def masked(m, t, f):
    n = len(t["op"][0])
    if t["ty"] == "sa":
        k = ("Asa", n, n)
        m.opblock(["g0"] * n, ["g0"] * n, "sa")
        base = m.cache[k]
        new = base * full_mask(m, n, f)
    else:
        k = ("A", n, n)
        base = m.Rop(n, n)
        new = base * mask(m, n, f)
    m2 = numev.Model(m.rs, (m.nc, m.na, m.nv), spin=m.spin)
    m2.rank_cache = m.rank_cache
    m2.over[k] = new
    return m2.value(t)


def rand_call(rng, t):
    n = len(t["op"][0])
    hows = ["make_ddca", "expand_composite_indices"]
    if t["ty"] in ("so", "sa"):
        hows.append("make_excitation")
    if n == 1:
        hows += ["make_one_body_diagonal"] * 2
    how = rng.choice(hows)
    sr = rng.random() < 0.5
    if how == "make_ddca":
        args = [rng.randint(0, 2 * n), rng.randint(0, 2 * n), sr]
        if rng.random() < 0.3:
            args.append(rng.choice([1, 5, 20]))
    elif how == "expand_composite_indices":
        args = [sr] + ([rng.choice([1, 7])] if rng.random() < 0.3 else [])
    else:
        args = [sr]
    return how, args, sr


def rule(how, args, sr):
    if how == "make_ddca":
        mc, mv = args[0], args[1]
    else:
        mc = mv = 99

    def ddca(cre, ann):
        s = cre + ann
        return s.count("c") <= mc and s.count("v") <= mv and not (sr and "a" in s)

    def exc(cre, ann):
        return all(x in ("v" if sr else "av") for x in cre) and all(x in ("c" if sr else "ca") for x in ann)

    def diag(cre, ann):
        return cre == ann and not (sr and cre[0] == "a")
    return {"make_ddca": ddca, "expand_composite_indices": ddca, "make_excitation": exc, "make_one_body_diagonal": diag}[how]


def shard(sh):
    rng = sh.rng
    k = 0
    builders(sh, rng)
    while not sh.over():
        k += 1
        if k % 12 == 0:
            builders(sh, rng)
        ty = rng.choice(["so", "so", "si", "sa"])
        t = terms.rand_term(rng, ty, n_fac=rng.choice([1, 1, 2, 2, 3]), max_rank=rng.choice([2, 2, 3]), p_open=rng.choice([0.2, 0.4, 0.7]),
                            max_open=rng.choice([2, 4, 4, 6]), max_cu=2, one_h=rng.random() < 0.7,
                            pool=rng.choice([None, None, "cav", "g", "hp", "cv", "ga"]))
        if t is None or not t["op"][0]:
            continue
        nb = 1
        for x in t["op"][0] + t["op"][1]:
            nb *= len(EL[x[0].lower()])
        if nb > 250 or not t["t"]:
            continue
        try:
            judge(sh, rng, t, nb)
        except numev.TooBig:
            sh.count("skipped_large")
        if sh.violations:
            return


def judge(sh, rng, t, nb):
    n = len(t["op"][0])
    d = terms.dims_for(t, rng.choice([(1, 2, 1), (1, 1, 2), (2, 1, 1)]) if t["ty"] == "si" else rng.choice([(2, 2, 2), (1, 2, 2), (2, 2, 1)]))
    if n == 3:
        d = (1, 2, 1) if t["ty"] != "so" else (2, 2, 2)
    if not terms.size_ok(t, d, 1e6):
        sh.count("skipped_large")
        return
    m = numev.Model(sh.seed * 1000 + sh.idx, d, spin=t["ty"] == "si")
    how, args, sr = rand_call(rng, t)
    req = dict(term=t, how=how, args=args, dims=d)
    r = sh.need("blocks", term=t, how=how, args=args)
    if r is None:
        return
    f = rule(how, args, sr)
    want = masked(m, t, f)
    labels = [x[0].lower() for x in t["op"][0] + t["op"][1]]
    if how == "make_excitation" and set(labels) == {"a"}:
        want = 0.0
    out = [o for o in r["out"] if o["t"]]
    got, scale = m.values(out)
    sh.count(how)
    sh.count(t["ty"])
    sh.count("single_ref", sr)
    sh.count("blocks", len(out))
    sh.count("void_excitations", how == "make_excitation" and not out)
    sh.evaluated(key=req, nontrivial=abs(want) > 1e-8 and nb > 1, sample=dict(request=req, returned=out[:4], value=want, sum=got))
    if not numev.close(want, got, scale):
        return sh.violate("%s does not return exactly the documented blocks" % how, request=req, expected=want, got=got, returned=out[:12])
    seen = []
    for o in out:
        for x in o["op"][0] + o["op"][1]:
            if how != "make_excitation" and x[0].lower() not in "cav":
                return sh.violate("%s leaves a composite label" % how, request=req, returned=o)
        seen.append((tuple(sorted(x[0] for x in o["op"][0])), tuple(sorted(x[0] for x in o["op"][1]))))
    if how in ("make_ddca", "expand_composite_indices"):
        want_b = []
        for s in product(*[EL[x] for x in labels]):
            if f(s[:n], s[n:]):
                up = [c.upper() if o[0].isupper() else c for c, o in zip(s, t["op"][0] + t["op"][1])]
                want_b.append((tuple(sorted(up[:n])), tuple(sorted(up[n:]))))
        if sorted(seen) != sorted(want_b):
            return sh.violate("%s: blocks missing or repeated" % how, request=req, blocks=sorted(seen)[:30], expected=sorted(want_b)[:30])
    elif how == "make_one_body_diagonal":
        if len(set(seen)) != len(seen) or any(c != a for c, a in seen):
            return sh.violate("block-diagonal part repeats a block or has an off-diagonal one", request=req, blocks=seen)
    elif how == "make_excitation" and len(r["out"]) != 1:
        return sh.violate("excitation projection is not one term", request=req)


def direct(m, n, kind, name, f, transpose):
    """sum over orbitals of tensor[upper,lower] A[cre,ann] / (n!)^2 with spaces restricted by f(cre spaces, ann spaces)"""
    R = m.R(kind, name, n)
    A = m.Rop(n, n) * mask(m, n, f)
    return float((R.T * A).sum()) if transpose else float((R * A).sum())


def builders(sh, rng):
    d = rng.choice([(2, 2, 2), (1, 2, 2), (2, 1, 2), (1, 3, 1)])
    m = numev.Model(sh.seed * 1000 + sh.idx, d)
    for _ in range(4):
        f = rng.choice(["hamiltonian_operator", "cluster_operator", "cluster_operator", "diagonal_fock_operator", "dyall_hamiltonian",
                        "fink_hamiltonian"])
        args, kw, start, k = [], {}, 0, None
        sr = rng.random() < 0.5
        if f == "hamiltonian_operator":
            k = rng.choice([1, 2, 3])
            start = rng.choice([0, 0, 3, 11])
            args = [k] + ([start] if start else [])
            want = direct(m, k, "H", "H", lambda c, a: True, True)
        elif f == "cluster_operator":
            k = rng.choice([1, 2, 3])
            args = [k]
            start = rng.choice([0, 0, 4])
            if start:
                kw["start"] = start
            exc = rng.random() < 0.6
            if not exc:
                kw["excitation"] = False
            nm = rng.choice(["T", "T", "S"])
            if nm != "T":
                kw["name"] = nm
            sc = rng.choice([1.0, -1.0, 0.5])
            if sc != 1.0:
                kw["scale_factor"] = sc
            hl, pl = "h", "p"
            if rng.random() < 0.4:
                hl, pl = rng.choice([("c", "v"), ("h", "v"), ("c", "p")])
                kw.update(hole_label=hl, particle_label=pl)
            H, P = EL[hl], EL[pl]
            if exc:
                want = sc * direct(m, k, "T", nm, lambda c, a: all(x in P for x in c) and all(x in H for x in a), True)
            else:
                want = sc * direct(m, k, "T", nm, lambda c, a: all(x in H for x in c) and all(x in P for x in a), False)
        elif f == "diagonal_fock_operator":
            args = [sr]
            want = direct(m, 1, "H", "H", lambda c, a: c == a and not (sr and c[0] == "a"), True)
        elif f == "dyall_hamiltonian":
            want = direct(m, 1, "H", "H", lambda c, a: c == a, True) + \
                direct(m, 2, "H", "H", lambda c, a: set(c + a) == {"a"}, True)
        else:
            args = [sr]
            want = direct(m, 1, "H", "H", lambda c, a: c == a and not (sr and c[0] == "a"), True) + \
                direct(m, 2, "H", "H", lambda c, a: sorted(c) == sorted(a) and not (sr and "a" in c), True)
        r = sh.need("builder", f=f, args=args, kw=kw)
        if r is None:
            return
        out = r["out"]
        got, scale = m.values(out)
        req = dict(builder=f, args=args, kw=kw, dims=d)
        sh.count("builders")
        sh.count("single_ref", sr)
        sh.evaluated(key=req, nontrivial=abs(want) > 1e-8 and len(out) > 1, sample=dict(request=req, returned=out[:3], value=want, sum=got))
        if not numev.close(want, got, scale):
            return sh.violate("operator builder does not return the documented operator", request=req, expected=want, got=got, returned=out[:20])
        if k:
            nums = [int(x[1:]) for x in terms.all_indices(out[0])]
            if len(out) != 1 or min(nums) < start or max(nums) >= start + 2 * k or len(terms.all_indices(out[0])) != 2 * k or \
                    abs(out[0]["c"] * factorial(k) ** 2 - kw.get("scale_factor", 1.0)) > 1e-12:
                return sh.violate("operator builder: labels or prefactor not as documented", request=req, returned=out)
