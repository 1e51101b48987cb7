"""C05: conservation and uniqueness of combine_terms, checked on the recorded argument and result of each call."""
from vlib import terms

RULE = ("random lists of 0-120 terms drawn with repetition from pools of related terms (same tensors with one label, rank, name "
        "or operator changed; coefficients that add, cancel or vanish), in random order and again reshuffled; the multiset of "
        "products and coefficient sums is compared with the result.  Non-trivial: at least two distinct products and one repeat")
ASSUMPTIONS = ["tensors of different kind have different names",
               "coefficients are dyadic rationals where cancellation is judged, so sums are exact"]
BUDGET = {"quick": 25, "thorough": 400}
MIN_NONTRIVIAL = {"quick": 180, "thorough": 3000}
MIN_OBSERVED = {"terms_in": 4800, "products_cancelled": 180, "products_summed": 900, "near_collisions": 600, "tiny_coefficients": 60, "near_cancellations": 20}


def norm(n):
    return n[0] + str(int(n[1:]))


def key(t):
    ts = sorted((k, nm, tuple(map(norm, u)), tuple(map(norm, l))) for k, nm, u, l in t["t"])
    return (tuple(ts), tuple(map(norm, t["op"][0])), tuple(map(norm, t["op"][1])))


def variant(rng, t):
    """a different term that looks similar"""
    idx = terms.all_indices(t)
    u = rng.random()
    if u < 0.5 and idx:
        x = rng.choice(idx)
        used = set(idx)
        for _ in range(20):
            y = x[0] + str(rng.choice([int(x[1:]) * 10 + int(x[1:]) % 10, int(x[1:]) + 1, int(x[1:] + "1"), rng.randint(0, 30)]))
            if y not in used:
                return terms.map_term(t, lambda z: y if z == x else z)
        return None
    if u < 0.6:      # upper and lower exchanged, or one index moved across in the operator
        i = rng.randrange(len(t["t"]))
        k, nm, up, lo = t["t"][i]
        c, a = t["op"]
        if t["ty"] == "so" and len(c) + len(a) > 1 and rng.random() < 0.4:
            return dict(t, op=[c[:-1], c[-1:] + a] if c and rng.random() < 0.5 else [c + a[:1], a[1:]])
        return dict(t, t=t["t"][:i] + [[k, nm, lo, up]] + t["t"][i + 1:])
    if u < 0.72:
        i = rng.randrange(len(t["t"]))
        k, nm, up, lo = t["t"][i]
        if len(up) > 1:
            a = list(up)
            a[0], a[1] = a[1], a[0]
            return dict(t, t=t["t"][:i] + [[k, nm, a, lo]] + t["t"][i + 1:])
        if k in "HT":
            return dict(t, t=t["t"][:i] + [[k, nm + rng.choice(["2", "x"]), up, lo]] + t["t"][i + 1:])
    if u < 0.85 and t["op"][0]:
        return dict(t, op=[t["op"][1], t["op"][0]])
    c, a = list(t["op"][0]), list(t["op"][1])
    if len(c) > 1:
        c.reverse()
        return dict(t, op=[c, a])
    return None


def shard(sh):
    rng = sh.rng
    while not sh.over():
        ty = rng.choice(["so", "so", "si", "sa"])
        pool = []
        for _ in range(rng.choice([1, 2, 4, 8])):
            t = terms.rand_term(rng, ty, max_rank=2, max_open=4)
            if t:
                pool.append(t)
                for _ in range(rng.randint(0, 4)):
                    v = variant(rng, rng.choice(pool))
                    if v:
                        pool.append(v)
                        sh.count("near_collisions")
        if not pool:
            continue
        exact = rng.random() < 0.7
        n = rng.choice([0, 1, 2, 5, 20, 60, 120])
        lst = []
        for _ in range(n):
            t = dict(rng.choice(pool))
            t["c"] = rng.choice([-1, 1]) * rng.choice([1, 1, 2, 3, 0.5, 0.25, 0.125]) if exact else rng.uniform(-2, 2)
            if exact and rng.random() < 0.03:
                t["c"] = 0.0
            if exact and rng.random() < 0.06:
                t["c"] = rng.choice([-1, 1]) * 2.0 ** -rng.randint(10, 40)
                sh.count("tiny_coefficients")
            # the same product written with its tensors in another order
            ts = list(t["t"])
            rng.shuffle(ts)
            t["t"] = ts
            lst.append(t)
            if exact and rng.random() < 0.25:
                lst.append(dict(t, c=-t["c"]))
                if rng.random() < 0.15 and abs(t["c"]) >= 0.125:
                    lst[-1]["c"] += rng.choice([-1, 1]) * 2.0 ** -rng.randint(10, 40)
                    sh.count("near_cancellations")
        rng.shuffle(lst)
        req = dict(terms=lst)
        r = sh.need("combine", **req)
        if r is None:
            continue
        exp, cnt = {}, {}
        for t in lst:
            k = key(t)
            exp[k] = exp.get(k, 0.0) + t["c"]
            cnt[k] = cnt.get(k, 0) + 1
        sh.evaluated(key=[key(t) + (t["c"],) for t in lst], nontrivial=len(exp) > 1 and len(lst) > len(exp),
                     sample=dict(n_in=len(lst), distinct=len(exp), n_out=len(r["out"]), first=lst[:1]))
        sh.count("terms_in", len(lst))
        got = {}
        for t in r["out"]:
            k = key(t)
            if k in got:
                sh.violate("two entries for one product", request=req, term=t)
            got[k] = t["c"]
        for k, v in exp.items():
            if abs(v) < 1e-15:
                sh.count("products_cancelled")
            elif cnt[k] > 1:
                sh.count("products_summed")
            if exact:
                if abs(v) < 1e-15 and k in got:
                    sh.violate("cancelled product kept", request=req, product=k, got=got[k])
                if abs(v) >= 1e-15 and abs(got.get(k, 0.0) - v) > 1e-9 * abs(v):
                    sh.violate("coefficient is not the sum", request=req, product=k, got=got.get(k), expected=v)
            elif abs(v) > 1e-9 and abs(got.get(k, 0.0) - v) > 1e-10:
                sh.violate("coefficient is not the sum", request=req, product=k, got=got.get(k), expected=v)
        for k in got:
            if k not in exp:
                sh.violate("product that was not in the input", request=req, product=k)
        if not r["sorted"]:
            sh.violate("result is not in ascending order", request=req, out=r["out"])
        if r["pair_eq"]:
            sh.violate("result contains equal products", request=req, pairs=r["pair_eq"])
        if rng.random() < 0.5 and lst:
            l2 = list(lst)
            rng.shuffle(l2)
            r2 = sh.need("combine", terms=l2)
            if r2 is None:
                continue
            sh.count("reshuffled")
            a, b = [(key(t)) for t in r["out"]], [(key(t)) for t in r2["out"]]
            if exact and a != b or sorted(a) != sorted(b):
                sh.violate("result depends on the input order", request=req, second=l2, out1=r["out"], out2=r2["out"])
