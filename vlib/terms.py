"""Random contraction-like terms: physical tensors times one randomly chosen Wick contraction of their operators."""
from . import gen
from .wick import REL, spaces

HOLE, PART = "hca", "pva"


def factor(rng, kind, rank, nxt, pool=None):
    """-> (tensor, (cre, ann)); kinds H, T (excitation), D (de-excitation)"""
    def name(l):
        k = nxt.get(l, 0)
        nxt[l] = k + 1
        return l + str(k)
    if kind == "H":
        pool = pool or rng.choice(["ghpcav", "g", "ga", "hp", "cav", "a", "cv", "gcv"])
        cre = [name(rng.choice(pool)) for _ in range(rank)]
        ann = [name(rng.choice(pool)) for _ in range(rank)]
        return ["H", rng.choice(["H", "H", "H", "V"]), ann, cre], (cre, ann)
    style = rng.random()
    hp = ("h", "p") if style < 0.45 else (("c", "v") if style < 0.6 else (HOLE, PART))
    if pool:
        hp = ("".join(x for x in HOLE if x in pool) or "h", "".join(x for x in PART if x in pool) or "p")
    hole = [name(rng.choice(hp[0])) for _ in range(rank)]
    part = [name(rng.choice(hp[1])) for _ in range(rank)]
    t = ["T", rng.choice(["T", "T", "T", "S"]), hole, part]
    return (t, (part, hole)) if kind == "T" else (t, (hole, part))


def sample_contraction(rng, ops, max_cu=3, p_open=0.35, keep_c=0.0, max_open=6):
    """one random contraction; returns (densities, cre, ann) or None"""
    P = []
    for m, (cre, ann) in enumerate(ops):
        P += [(True, n, m) for n in cre] + [(False, n, m) for n in reversed(ann)]
    free = list(range(len(P)))
    opens, dens = [], []
    while free:
        x = free.pop(0)
        cx, nx, mx = P[x]
        if rng.random() < p_open and len(opens) < max_open:
            opens.append(x)
            continue
        opts = []
        for y in free:
            cy, ny, my = P[y]
            if cy == cx or my == mx:
                continue
            com = spaces(nx) & spaces(ny)
            if cx and com & REL['h']:
                opts.append(('L', (x,), (y,)))
            if not cx and com & REL['p']:
                opts.append(('C', (y,), (x,)))
        if 'a' in spaces(nx) and rng.random() < 0.45:
            same = [y for y in free if P[y][0] == cx and 'a' in spaces(P[y][1])]
            opp = [y for y in free if P[y][0] != cx and 'a' in spaces(P[y][1])]
            for n in range(2, max_cu + 1):
                if len(same) >= n - 1 and len(opp) >= n:
                    s, o = rng.sample(same, n - 1), rng.sample(opp, n)
                    if len({P[y][2] for y in s + o + [x]}) > 1:
                        mine = tuple([x] + s)
                        opts.append(('L', mine, tuple(o)) if cx else ('L', tuple(o), mine))
        if not opts:
            opens.append(x)
            continue
        b = rng.choice(opts)
        for y in b[1] + b[2]:
            if y != x:
                free.remove(y)
        kind, u, l = b[0], [P[y][1] for y in b[1]], [P[y][1] for y in b[2]]
        if kind == 'C':
            if rng.random() < keep_c:
                pass
            elif spaces(u[0]) & spaces(l[0]) & REL['h'] and rng.random() < 0.45:
                kind = 'L'
            else:
                kind = 'K'
        dens.append([kind, kind, u, l])
    cre = [P[x][1] for x in opens if P[x][0]]
    ann = [P[x][1] for x in opens if not P[x][0]]
    return dens, cre, ann


def rand_coeff(rng):
    u = rng.random()
    if u < 0.4:
        return rng.choice([1, -1]) * rng.choice([1, 1, 2, 3, 5]) / rng.choice([1, 2, 4, 6, 12, 36, 64])
    if u < 0.5:     # products of factorials, as in high-rank operators and deep nestings
        return rng.choice([1, -1]) * rng.choice([1, 1, 5, 7, 11]) / rng.choice([576, 720, 1296, 1440, 1536, 5040, 14400, 20736, 82944])
    return rng.choice([1.0, -1.0, 0.25, -0.5])


def rand_term(rng, ty="so", n_fac=None, max_rank=3, p_open=0.35, max_open=6, max_cu=3, keep_c=0.0, scalar=False,
              pool=None, kinds=None, one_h=True, relabel=True):
    """a valid term dict (see worker.b_term) resembling an uncanonicalized contraction result"""
    for _ in range(200):
        n = n_fac or rng.choice([1, 2, 2, 3, 3, 4])
        nxt = {}
        facs = []
        for i in range(n):
            if kinds:
                k = rng.choice(kinds)
            else:
                k = "H" if (i == 0 and rng.random() < 0.8) else rng.choice(["T", "T", "D"] + ([] if one_h else ["H"]))
            r = rng.choice([1, 2, 2] + ([3] if max_rank >= 3 and n <= 3 else []) + ([4, 4, 4] if max_rank >= 4 and n <= 2 else []))
            facs.append(factor(rng, k, min(r, max_rank), nxt, pool))
        rng.shuffle(facs)
        d = sample_contraction(rng, [f[1] for f in facs], max_cu, 0.0 if scalar else p_open, keep_c, max_open)
        dens, cre, ann = d
        if scalar and (cre or ann):
            continue
        if len(cre) + len(ann) > max_open or len(cre) != len(ann):
            continue
        t = {"c": rand_coeff(rng), "t": [f[0] for f in facs] + dens, "op": [cre, ann], "ty": ty}
        rng.shuffle(t["t"])
        for x in t["op"]:
            rng.shuffle(x)
        if ty == "si":
            t = assign_spin(rng, t)
            if t is None:
                continue
        if relabel:
            t = relabel_indices(rng, t)
        return t
    return None


def all_indices(t):
    s = []
    for k, nm, u, l in t["t"]:
        s += u + l
    s += t["op"][0] + t["op"][1]
    return sorted(set(s))


def map_term(t, f):
    return dict(t, t=[[k, nm, [f(x) for x in u], [f(x) for x in l]] for k, nm, u, l in t["t"]],
                op=[[f(x) for x in t["op"][0]], [f(x) for x in t["op"][1]]])


def relabel_indices(rng, t):
    by = {}
    for i in all_indices(t):
        by.setdefault(i[0], []).append(i)
    m = {}
    for l, xs in by.items():
        style = rng.random()
        if style < 0.5:
            nums = rng.sample(range(len(xs) + 2), len(xs))
        else:
            nums = rng.sample(range(len(xs) + (12 if style < 0.85 else 120)), len(xs))
        for x, k in zip(xs, nums):
            m[x] = l + str(k)
    return map_term(t, lambda x: m[x])


def assign_spin(rng, t, tries=60):
    """random spin labels such that every tensor conserves spin (the operator then does as well)"""
    idx = all_indices(t)
    # union indices forced equal by one-body tensors
    par = {i: i for i in idx}

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    for k, nm, u, l in t["t"]:
        if len(u) == 1:
            par[find(u[0])] = find(l[0])
    if len(t["op"][0]) == 1:
        par[find(t["op"][0][0])] = find(t["op"][1][0])
    roots = sorted({find(i) for i in idx})
    groups = [(u, l) for k, nm, u, l in t["t"] if len(u) > 1] + ([tuple(t["op"])] if len(t["op"][0]) > 1 else [])
    for _ in range(tries):
        p = rng.choice([0.5, 0.5, 0.2, 0.8])
        sp = {r: rng.random() < p for r in roots}
        if all(sum(sp[find(x)] for x in u) == sum(sp[find(x)] for x in l) for u, l in groups):
            return map_term(t, lambda x: x.upper() if sp[find(x)] else x)
    return None


def group_need(t):
    """largest number of same-space labels in one antisymmetric group, per elementary space bound"""
    need = {"c": 0, "a": 0, "v": 0}
    groups = [g for k, nm, u, l in t["t"] for g in (u, l)] + list(t["op"])
    for g in groups:
        for sub in ("c", "a", "v"):
            need[sub] = max(need[sub], sum(1 for x in g if x[0].lower() == sub))
        h = sum(1 for x in g if x[0].lower() in "ca" or x[0].lower() == "h")
        p = sum(1 for x in g if x[0].lower() in "av" or x[0].lower() == "p")
        need["h"] = max(need.get("h", 0), h)
        need["p"] = max(need.get("p", 0), p)
        need["g"] = max(need.get("g", 0), len(g))
    return need


def dims_for(t, base=(2, 2, 2)):
    n = group_need(t)
    c, a, v = max(base[0], n["c"]), max(base[1], n["a"]), max(base[2], n["v"])
    while c + a < n["h"]:
        a += 1
    while a + v < n["p"]:
        a += 1
    while c + a + v < n["g"]:
        a += 1
    return (c, a, v)


def size_ok(t, dims, lim=3e6):
    w = {"c": dims[0], "a": dims[1], "v": dims[2], "h": dims[0] + dims[1], "p": dims[1] + dims[2], "g": sum(dims)}
    for k, nm, u, l in t["t"]:
        s = 1
        for x in u + l:
            s *= w[x[0].lower()]
        if s > lim:
            return False
    s = 1
    for x in t["op"][0] + t["op"][1]:
        s *= w[x[0].lower()]
    return s <= lim
