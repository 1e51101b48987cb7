"""C16: reported contraction costs and paths against an independent subset dynamic programme and full tree enumeration."""
from itertools import combinations
from vlib import terms

RULE = ("random terms of 1-7 tensors (all label kinds; spin-orbital, spin-integrated, spin-free; scalar and open) are costed by the "
        "real code; the optimum is recomputed by dynamic programming over subsets of tensors, the returned path is replayed step by "
        "step, and for up to five tensors every enumerated path is replayed and the set of contraction trees compared with all "
        "(2n-3)!! trees.  Non-trivial: at least three tensors")
ASSUMPTIONS = ["cost order: total scaling, then virtual, core, active counts with g and p counted as virtual and h as core",
               "no diagonal indices"]
BUDGET = {"quick": 20, "thorough": 300}
MIN_NONTRIVIAL = {"quick": 200, "thorough": 4000}
MIN_OBSERVED = {"single_tensor": 20, "tensors_3plus": 200, "tensors_5plus": 60, "paths_replayed": 5000, "scalar": 100, "open": 100, "choices_matter": 100}


def key(labels):
    v = c = a = 0
    for x in labels:
        x = x[0].lower()
        if x in "vpg":
            v += 1
        elif x in "ch":
            c += 1
        else:
            a += 1
    return (v + c + a, [v, c, a])


def names(t):
    return frozenset(x[0] + str(int(x[1:])) for x in t[2] + t[3])


def optimum(sets):
    n = len(sets)
    op = {}
    best = {}
    for r in range(1, n + 1):
        for S in combinations(range(n), r):
            S = frozenset(S)
            x = frozenset()
            for i in S:
                x = x ^ sets[i]
            op[S] = x
    zero = (0, [0, 0, 0])
    for i in range(n):
        best[frozenset([i])] = (zero, zero)
    for r in range(2, n + 1):
        for S in combinations(range(n), r):
            f = S[0]
            S = frozenset(S)
            bc = bs = None
            rest = sorted(S - {f})
            for k in range(0, len(rest)):
                for sub in combinations(rest, k):
                    A = frozenset(sub) | {f}
                    B = S - A
                    c = max(best[A][0], best[B][0], key(op[A] | op[B]))
                    s = max(best[A][1], best[B][1], key(op[S]))
                    bc = c if bc is None else min(bc, c)
                    bs = s if bs is None else min(bs, s)
            best[S] = (bc, bs)
    return best[frozenset(range(n))]


def replay(p, leaves):
    """-> (leaf index set, open set, max compute, max storage) or None when the path is no binary tree over the tensors"""
    if isinstance(p, dict):
        q = p.get("pair")
        if not q or len(q) != 2:
            return None
        a, b = replay(q[0], leaves), replay(q[1], leaves)
        if a is None or b is None or a[0] & b[0]:
            return None
        o = a[1] ^ b[1]
        return (a[0] | b[0], o, max(a[2], b[2], key(a[1] | b[1])), max(a[3], b[3], key(o)))
    if p is None:
        return None
    k = (p[0], p[1], tuple(p[2]), tuple(p[3]))
    if k not in leaves:
        return None
    i = leaves[k]
    z = (0, [0, 0, 0])
    return (frozenset([i]), names(p), z, z)


def tree(p, leaves):
    if isinstance(p, dict):
        return frozenset([tree(p["pair"][0], leaves), tree(p["pair"][1], leaves)])
    return leaves[(p[0], p[1], tuple(p[2]), tuple(p[3]))]


def rep(c):
    return (c["tot"], list(c["parsed"]))


def shard(sh):
    rng = sh.rng
    while not sh.over():
        u = rng.random()
        if u < 0.1:
            t = terms.rand_term(rng, rng.choice(["so", "si", "sa"]), n_fac=1, p_open=1.0)
            if t and rng.random() < 0.3:        # one index on both sides of the only tensor
                t = {"c": t["c"], "t": [], "op": [[], []], "ty": t["ty"]}
                k = rng.choice([1, 2, 3])
                lab = [rng.choice("gphcav") + str(i) for i in range(2 * k)]
                u, l = lab[:k], lab[k:]
                for i in range(rng.randint(1, k)):
                    l[i] = u[i]
                rng.shuffle(l)
                t["t"] = [["H", "H", u, l]]
                t["op"] = [[x for x in l if x not in u], [x for x in u if x not in l]]
                sh.count("single_diagonal")
        else:
            t = terms.rand_term(rng, rng.choice(["so", "so", "si", "sa"]), n_fac=rng.choice([2, 3, 3, 4]), p_open=rng.choice([0.05, 0.3, 0.5]),
                                one_h=rng.random() < 0.7, max_open=6, scalar=rng.random() < 0.2, pool=rng.choice([None, None, "cav", "hp", "cv"]))
        if t is None or not t["t"]:
            continue
        n = len(t["t"])
        if n > 6 and not (n == 7 and rng.random() < (0.02 if sh.tier == "quick" else 0.3)):
            continue
        paths = n <= 5 and rng.random() < (1.0 if n <= 4 else 0.3)
        r = sh.need("cost", term=t, paths=paths)
        if r is None:
            continue
        judge(sh, t, n, r, paths)
        if sh.violations:
            return


def judge(sh, t, n, r, paths):
    ts = r["term"]["t"]
    leaves = {(x[0], x[1], tuple(x[2]), tuple(x[3])): i for i, x in enumerate(ts)}
    sets = [names(x) for x in ts]
    (c, pc), (s, ps) = r["opt"]
    req = dict(term=t)
    sh.count("single_tensor", n == 1)
    sh.count("tensors_3plus", n >= 3)
    sh.count("tensors_5plus", n >= 5)
    sh.count("open" if t["op"][0] else "scalar")
    sh.top("tensors", n)
    if len(leaves) != n:
        return
    for x in (c, s):
        raw = {}
        for k, v in x["raw"].items():
            raw[k.lower()] = raw.get(k.lower(), 0) + v
        if rep(x) != key([k for k, v in raw.items() for _ in range(v)]):
            return sh.violate("reported cost is not consistent with its own label counts", request=req, cost=x)
    sh.evaluated(key=t, nontrivial=n >= 3, sample=dict(request=req, compute=c, storage=s, path=pc))
    if n == 1:
        k = key(sets[0])
        if rep(c) != k or rep(s) != k:
            return sh.violate("cost of a single tensor is not its size", request=req, reported=r["opt"])
    else:
        bc, bs = optimum(sets)
        if rep(c) != bc or rep(s) != bs:
            return sh.violate("reported optimum is not the minimum over contraction orders", request=req, reported=[c, s], expected=[bc, bs])
        for what, rp, p, i in (("computational", c, pc, 2), ("storage", s, ps, 3)):
            q = replay(p, leaves)
            if q is None or len(q[0]) != n:
                return sh.violate("optimal %s path is not a pairwise contraction of all tensors" % what, request=req, path=p)
            if q[i] != rep(rp):
                return sh.violate("optimal %s path does not have the reported cost" % what, request=req, path=p, reported=rp, replayed=q[i])
    if paths:
        seen, cc = set(), set()
        for x, y, p in r["paths"]:
            if n == 1:
                continue
            sh.count("paths_replayed")
            q = replay(p, leaves)
            if q is None or len(q[0]) != n:
                return sh.violate("enumerated path is not a pairwise contraction of all tensors", request=req, path=p)
            if q[2] != rep(x) or q[3] != rep(y):
                return sh.violate("enumerated path has wrong costs", request=req, path=p, reported=[x, y], replayed=[q[2], q[3]])
            seen.add(tree(p, leaves))
            cc.add(str(q[2]))
        sh.count("choices_matter", len(cc) > 1)
        want = 1
        for k in range(3, 2 * n - 2, 2):
            want *= k
        if n > 1 and len(seen) != want:
            return sh.violate("path enumeration misses contraction orders", request=req, trees=len(seen), expected=want)
