"""C19: cost counters, shared-index counters, label lookup and integer partitions against reference models."""
from checks.c17 import rlist, ikey

RULE = ("random label counters (upper and lower case, composite labels) are compared pairwise, random pairs of tensors and operators "
        "with planted shared labels are counted, every integer up to the bound is partitioned and separated, every set of elementary "
        "spaces is looked up; all outcomes judged against direct models.  Non-trivial: counters with at least two labels, pairs with "
        "shared labels, integers above 3")
ASSUMPTIONS = ["counts are positive", "sets of elementary spaces that have a composite label (core plus virtual alone has none)"]
BUDGET = {"quick": 15, "thorough": 200}
MIN_NONTRIVIAL = {"quick": 200, "thorough": 4000}
MIN_OBSERVED = {"counters": 500, "counters_equal": 40, "counters_tied": 20, "counters_mixed_case": 100, "bad_counters": 20, "space_pairs": 200,
                "shared": 300, "space_orders": 500, "partitions": 500, "labels": 20, "downgrades": 100, "separations": 10, "mismatched_types": 10}

ORD12 = "gphvcaGPHVCA"
PART = {}


def n_part(n):
    p = [1] + [0] * n
    for k in range(1, n + 1):
        for i in range(k, n + 1):
            p[i] += p[i - k]
    return p[n]


def model(c):
    raw, v = {}, [0, 0, 0]
    for k, n in c.items():
        k = k.lower()
        raw[k] = raw.get(k, 0) + n
        v[{"v": 0, "p": 0, "g": 0, "c": 1, "h": 1, "a": 2}[k]] += n
    return raw, v


def rand_counter(rng):
    ks = rng.sample(rng.choice(["gphvca", ORD12, "cavCAV", "cav", "hpHP"]), rng.randint(0, 3) if rng.random() < 0.3 else rng.randint(1, 3))
    return {k: rng.randint(1, 4) for k in ks}


def vary(rng, c):
    """same or nearly the same counter written differently"""
    c = dict(c)
    u = rng.random()
    if not c:
        return c
    k = rng.choice(sorted(c))
    if u < 0.3:
        n = c.pop(k)
        j = k.swapcase()
        c[j] = c.get(j, 0) + n
    elif u < 0.5 and c[k] > 1:
        j = k.swapcase()
        c[k] -= 1
        c[j] = c.get(j, 0) + 1
    elif u < 0.75:
        j = rng.choice("gphvca")
        n = c.pop(k)
        c[j] = c.get(j, 0) + n
    else:
        c[k] += 1
    return c


def do_counter(sh, rng):
    pairs = []
    for _ in range(20):
        a = rand_counter(rng)
        pairs.append([a, vary(rng, a) if rng.random() < 0.7 else rand_counter(rng)])
    r = sh.need("helpers", what="counter", pairs=pairs)
    if r is None:
        return
    for (a, b), (x, y, f) in zip(pairs, r["r"]):
        (ra, va), (rb, vb) = model(a), model(b)
        sh.count("counters")
        sh.count("counters_mixed_case", any(k.isupper() for k in a) and any(k.islower() for k in a))
        for c, raw, v in ((x, ra, va), (y, rb, vb)):
            if c["raw"] != raw or c["parsed"] != v or c["tot"] != sum(v):
                return sh.violate("cost counter does not add up the labels given", request=[a, b], got=c, expected=[raw, v, sum(v)])
        ka, kb = (sum(va), va), (sum(vb), vb)
        want = [ka < kb, ka <= kb, ra == rb, ra != rb, ka > kb, ka >= kb]
        sh.count("counters_equal", ra == rb)
        sh.count("counters_tied", ra != rb and sum(va) == sum(vb))
        if f != want:
            return sh.violate("cost counters compare wrongly (< <= == != > >=)", request=[a, b], expected=want, got=f)
        sh.evaluated(key=[a, b], nontrivial=len(a) > 1, sample=dict(a=a, b=b, verdict=f))
    bad = rand_counter(rng)
    bad[rng.choice("xkbioXZ01")] = 1
    r = sh.need("helpers", what="counter_bad", d=bad)
    if r is None:
        return
    sh.count("bad_counters")
    if r["r"] != "ValueError":
        return sh.violate("cost counter with an unknown label is accepted", request=bad, got=r)


def do_space(sh, rng):
    ty = rng.choice(["so", "si", "sa"])
    up = ty != "so"
    pairs, want = [], []
    for _ in range(6):
        def obj(u, l):
            return rng.choice([["btensor", ty, u, l, "A", 0], ["sq", ty, u, l]])
        u1, l1 = rlist(rng, rng.randint(0, 4), up), rlist(rng, rng.randint(0, 4), up)
        u2, l2 = rlist(rng, rng.randint(0, 2), up), rlist(rng, rng.randint(0, 2), up)
        for x in u1:
            if rng.random() < 0.5 and x not in l2:
                l2.insert(rng.randrange(len(l2) + 1), x)
            elif rng.random() < 0.15 and x not in u2:
                u2.append(x)
        for x in l1:
            if rng.random() < 0.5 and x not in u2:
                u2.insert(rng.randrange(len(u2) + 1), x)
        pairs.append([obj(u1, l1), obj(u2, l2)])
        L = ORD12 if up else ORD12[:6]
        su, sl = set(u1) & set(l2), set(l1) & set(u2)
        want.append(([sum(x[0] == c for x in su) for c in L], [sum(x[0] == c for x in sl) for c in L]))
    r = sh.need("helpers", what="space", pairs=pairs)
    if r is None:
        return
    for p, g, (u, l) in zip(pairs, r["r"], want):
        sh.count("space_pairs")
        sh.count("shared", sum(u) + sum(l))
        if g["u"] != u or g["l"] != l or g["nu"] != sum(u) or g["nl"] != sum(l) or g["size"] != sum(u) + sum(l):
            return sh.violate("shared-index counter is wrong", request=p, expected=[u, l], got=g)
        if g["tu"] != l or g["tl"] != u or g["tnu"] != sum(l) or g["tnl"] != sum(u):
            return sh.violate("transposed shared-index counter is wrong", request=p, got=g)
        sh.evaluated(key=p, nontrivial=sum(u) + sum(l) > 0, sample=dict(request=p, upper=u, lower=l))
    for i, (a, b) in enumerate(want):
        for j, (c, d) in enumerate(want):
            x, y = (sum(a) + sum(b), a, b), (sum(c) + sum(d), c, d)
            f = "".join("1" if v else "0" for v in (x < y, x <= y, x == y, x != y, x > y, x >= y))
            sh.count("space_orders")
            if r["m"][i][j] != f:
                return sh.violate("shared-index counters compare wrongly (< <= == != > >=)", request=[pairs[i], pairs[j]], expected=f, got=r["m"][i][j])
    t1, t2 = rng.sample(["so", "si", "sa"], 2)
    ev = sh.call("helpers", what="space", pairs=[[["sq", t1, ["g0"], ["g1"]], ["sq", t2, ["g1"], ["g0"]]]])
    if ev is not None:
        sh.count("mismatched_types")
        if "ok" in ev:
            return sh.violate("shared-index counter accepts tensors with different index types", request=[t1, t2], got=ev["ok"])


def do_int(sh, rng):
    n = rng.choice([1, 2, 3, 4, 5, rng.randint(1, 12), rng.randint(6, 22 if sh.tier == "quick" else 32)])
    r = sh.need("helpers", what="partition", n=n)
    if r is None:
        return
    parts = [tuple(sorted(x, reverse=True)) for x in r["r"]]
    sh.count("partitions", len(parts))
    sh.top("integer", n)
    if len(set(parts)) != len(parts) or len(parts) != n_part(n) or any(sum(x) != n or min(x) < 1 for x in parts):
        return sh.violate("partitions of an integer are not enumerated exactly once", request=n, got=r["r"][:30], count=len(parts), expected=n_part(n))
    for z in (True, False):
        m = rng.randint(1, 40)
        r = sh.need("helpers", what="separation", n=m, z=z)
        if r is None:
            return
        sh.count("separations")
        want = [[i, m - i] for i in range(0 if z else 1, m + (1 if z else 0))]
        if sorted(r["r"]) != want:
            return sh.violate("two-part separations are not enumerated exactly once", request=[m, z], got=r["r"], expected=want)
    sh.evaluated(key=[n, m], nontrivial=n > 3, sample=dict(n=n, partitions=len(parts)))


REL = {"c": "c", "a": "a", "v": "v", "h": "ca", "p": "av", "g": "cav"}
KEEP = {"L": "ca", "C": "av", "K": "cav"}


def do_downgrade(sh, rng):
    """the label of a density or delta that is left after its orbital-space restrictions"""
    lst, want = [], []
    for _ in range(30):
        k, x, y = rng.choice("LCK"), rng.choice("gphvca"), rng.choice("gphvca")
        ty = rng.choice(["so", "si", "sa"])
        s = set(REL[x]) & set(REL[y]) & set(KEEP[k])
        w = next((l for l, r in REL.items() if set(r) == s), "")
        if ty == "si" and rng.random() < 0.5:
            x, y, w = x.upper(), y.upper(), w.upper()
        lst.append([[k, k, [x + "1"], [y + "2"]], ty])
        want.append(w)
    r = sh.need("helpers", what="downgrade", tensors=lst)
    if r is None:
        return
    sh.count("downgrades", len(lst))
    for t, g, w in zip(lst, r["r"], want):
        if g != w:
            return sh.violate("restricted label of a density or delta is wrong", request=t, got=g, expected=w)
    sh.evaluated(key=lst, nontrivial=True, sample=dict(request=lst[0], label=want[0]))


def do_label(sh, rng):
    do_downgrade(sh, rng)
    for s, w in (("c", "c"), ("a", "a"), ("v", "v"), ("ca", "h"), ("av", "p"), ("cav", "g")):
        if rng.random() < 0.5:
            s, w = s.upper(), w.upper()
        l = list(s)
        rng.shuffle(l)
        r = sh.need("helpers", what="label", s=l)
        if r is None:
            return
        sh.count("labels")
        if r["r"] != w:
            return sh.violate("composite label for a set of elementary spaces is wrong", request=l, expected=w, got=r["r"])
    for bad in ([], ["x"], ["c", "q"]):
        ev = sh.call("helpers", what="label", s=bad)
        if ev is not None and "ok" in ev:
            return sh.violate("label lookup accepts an invalid set", request=bad, got=ev["ok"])
    sh.evaluated(key=["labels", rng.random()], nontrivial=False)


def shard(sh):
    rng = sh.rng
    while not sh.over():
        u = rng.random()
        if u < 0.4:
            do_counter(sh, rng)
        elif u < 0.75:
            do_space(sh, rng)
        elif u < 0.95:
            do_int(sh, rng)
        else:
            do_label(sh, rng)
        if sh.violations:
            return
