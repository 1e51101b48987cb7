"""C17: comparisons, hashes and constructor verdicts of the real objects against an independent reference model."""
from vlib import terms

RULE = ("random groups of indices, index lists, pairs, operators, tensors and terms (built in different accepted formats, with near "
        "duplicates and renumbered copies) are compared pairwise by the real code and all six comparisons, sort order, minimum, set "
        "size and hashes are judged against reference keys; random valid and mutated invalid constructor inputs are built and the "
        "verdict and stored content judged; comparisons between kinds must raise.  Non-trivial: groups with both equal and unequal "
        "members, and constructor batches with both verdicts")
ASSUMPTIONS = ["label numbers are ASCII digits", "coefficients in one group are either identical or differ by more than 1e-3",
               "upper and lower indices are given in the same format"]
BUDGET = {"quick": 20, "thorough": 240}
MIN_NONTRIVIAL = {"quick": 200, "thorough": 4000}
MIN_OBSERVED = {"cmp_index": 40, "cmp_indices": 40, "cmp_pair": 40, "cmp_sq": 40, "cmp_tensor": 40, "cmp_term": 40, "accepted": 1000,
                "rejected": 1000, "rejected_index": 100, "rejected_indices": 100, "rejected_tensor": 100, "rejected_term": 60,
                "rejected_pair": 60, "rejected_mterm": 100, "rejected_mpair": 40, "mixed_accepted": 100, "mixed_kinds": 200, "equal_pairs": 1000}

ORDER = {k: i for i, k in enumerate("gphvcaGPHVCA")}
PRIO = {"H": 0, "T": 1, "L": 2, "C": 2, "K": -1}
HOLE, PART = set("hc"), set("pv")


def ikey(n):
    return (ORDER[n[0]], int(n[1:]))


def lkey(l):
    return (len(l), [ikey(n) for n in l])


def tkey(u, l, name, prio):
    return (prio, name, len(u) + len(l), lkey(u), lkey(l))


def term_key(t):
    ts = sorted(tkey(x[2], x[3], x[1], PRIO[x[0]]) for x in t["t"])
    return ((lkey(t["op"][0]), lkey(t["op"][1])), len(ts), ts, abs(t["c"]), t["c"])


# ---- reference validity -------------------------------------------------------------------------------

def ok_index(n):
    return isinstance(n, str) and len(n) > 1 and n[0] in ORDER and all(c in "0123456789" for c in n[1:])


def as_list(x):
    if isinstance(x, str):
        return [] if x == "" else [y.strip() for y in x.split(",")]
    return x


def ok_indices(ty, x):
    if not isinstance(x, (str, list)):
        return False
    l = as_list(x)
    if not all(ok_index(n) for n in l):
        return False
    if len({ikey(n) for n in l}) != len(l):
        return False
    return ty != "so" or not any(n[0].isupper() for n in l)


def ok_pair(ty, u, l):
    return ok_indices(ty, u) and ok_indices(ty, l) and type(u) is type(l)


def conserving(u, l):
    return len(u) == len(l) and sum(n[0].isupper() for n in u) == sum(n[0].isupper() for n in l)


def ok_tensor(ty, u, l, kind):
    if kind not in PRIO or not ok_pair(ty, u, l):
        return False
    u, l = as_list(u), as_list(l)
    if not conserving(u, l):
        return False
    if kind in "KC" and len(u) != 1:
        return False
    if kind == "T":
        for g in (u, l):
            s = {n[0].lower() for n in g}
            if s & HOLE and s & PART:
                return False
    return True


def ok_term(t):
    ty = t["ty"]
    if not all(ok_tensor(ty, x[2], x[3], x[0]) for x in t["t"]) or not ok_pair(ty, *t["op"]):
        return False
    cnt, diag = {}, set()
    for u, l in [t["op"]] + [(x[2], x[3]) for x in t["t"]]:
        ku, kl = {ikey(n) for n in u}, {ikey(n) for n in l}
        diag |= ku & kl
        for n in u + l:
            cnt[ikey(n)] = cnt.get(ikey(n), 0) + 1
    return all((v % 2 == 0) if k in diag else v == 2 for k, v in cnt.items())


# ---- generators ---------------------------------------------------------------------------------------

def rname(rng, upper=True, wide=True):
    l = rng.choice("gphvcaGPHVCA" if upper else "gphvca")
    n = rng.choice([rng.randint(0, 3), rng.randint(0, 3), rng.randint(0, 12), rng.randint(0, 120) if wide else 1])
    return l + str(n)


def rlist(rng, n, upper, labels=None):
    out, seen = [], set()
    while len(out) < n:
        x = rname(rng, upper)
        if labels:
            x = rng.choice(labels) + x[1:]
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def spell(rng, l):
    """another accepted spelling of the same list"""
    out = [n[0] + "0" * rng.choice([0, 0, 1]) + n[1:] if rng.random() < 0.2 else n for n in l]
    u = rng.random()
    if u < 0.3:
        return rng.choice([", ", ",", " ,"]).join(out)
    return out


def pair_spell(rng, u, l):
    a, b = spell(rng, u), spell(rng, l)
    if type(a) is not type(b):
        a, b = as_list(a), as_list(b)
    return a, b


def tweak(rng, l, upper):
    """a near duplicate of a list"""
    l = list(l)
    c = rng.random()
    if not l:
        return rlist(rng, 1, upper)
    if c < 0.3:
        rng.shuffle(l)
    elif c < 0.6:
        i = rng.randrange(len(l))
        y = l[i][0] + str(int(l[i][1:]) + rng.choice([1, 9, 10]))
        if y not in l:
            l[i] = y
    elif c < 0.75:
        i = rng.randrange(len(l))
        y = rng.choice("gphvcaGPHVCA" if upper else "gphvca") + l[i][1:]
        if y not in l:
            l[i] = y
    elif c < 0.85:
        l = l[:-1]
    return l


def beta_of(n):
    return n.upper()


def group(sh, rng, kind):
    """-> (descr, key) list of objects of one kind"""
    out = []
    ty = rng.choice(["so", "si", "sa", "asymm"])
    up = ty != "so"
    n = rng.randint(3, 9)
    if kind == "index":
        base = [rname(rng) for _ in range(n)]
        for x in base + [rng.choice(base) for _ in range(3)]:
            out.append((["index", x[0] + "0" * rng.choice([0, 0, 0, 1, 2]) + x[1:]], ikey(x)))
    elif kind == "indices":
        base = [rlist(rng, rng.randint(0, 4), up) for _ in range(2)]
        while len(base) < n:
            base.append(tweak(rng, rng.choice(base), up))
        for x in base + [rng.choice(base) for _ in range(3)]:
            out.append((["indices", ty, spell(rng, x)], lkey(x)))
    elif kind in ("pair", "sq"):
        base = [(rlist(rng, rng.randint(0, 3), up), rlist(rng, rng.randint(0, 3), up)) for _ in range(2)]
        while len(base) < n:
            u, l = rng.choice(base)
            c = rng.random()
            base.append((tweak(rng, u, up), l) if c < 0.4 else ((u, tweak(rng, l, up)) if c < 0.8 else (l, u)))
        for u, l in base + [rng.choice(base) for _ in range(3)]:
            out.append(([kind, ty, *pair_spell(rng, u, l)], (lkey(u), lkey(l))))
    elif kind == "tensor":
        if rng.random() < 0.5:
            base = []
            for _ in range(n):
                u, l = rng.choice(base)[:2] if base and rng.random() < 0.6 else (rlist(rng, rng.randint(0, 3), up), rlist(rng, rng.randint(0, 3), up))
                if rng.random() < 0.6:
                    u = tweak(rng, u, up)
                base.append((u, l, rng.choice(["Tensor", "A", "B", "AA", "a"]), rng.choice([0, 0, 1, -3, 7])))
            for u, l, nm, p in base + [rng.choice(base) for _ in range(3)]:
                out.append((["btensor", ty, *pair_spell(rng, u, l), nm, p], tkey(u, l, nm, p)))
        else:
            base = []
            for _ in range(n * 3):
                k = rng.choice("LCKTH")
                r = 1 if k in "CK" else rng.randint(1, 3)
                if base and rng.random() < 0.5:
                    _, u, l, nm = rng.choice(base)
                    u, l = (tweak(rng, u, up), l) if rng.random() < 0.5 else (u, tweak(rng, l, up))
                else:
                    u, l, nm = rlist(rng, r, False), rlist(rng, r, False), None
                    if up and rng.random() < 0.5:
                        u, l = [beta_of(u[0])] + u[1:], [beta_of(l[0])] + l[1:]
                nm = rng.choice([k, k, k, "X", "L"])
                if ok_tensor(ty, u, l, k):
                    base.append((k, u, l, nm))
                if len(base) >= n:
                    break
            for k, u, l, nm in base + [rng.choice(base) for _ in range(3)] if base else []:
                out.append((["tensor", ty, *pair_spell(rng, u, l), k, nm], tkey(u, l, nm, PRIO[k])))
    else:
        ty = rng.choice(["so", "si", "sa"])
        base = []
        for _ in range(30):
            if base and rng.random() < 0.6:
                t = dict(rng.choice(base))
                c = rng.random()
                if c < 0.4:
                    t["c"] = rng.choice([1.0, -1.0, 0.5, -0.5, 0.25, 2.0, 1 / 12, -1 / 3])
                elif c < 0.7 and t["t"]:
                    ts = [list(x) for x in t["t"]]
                    x = rng.choice(ts)
                    i = rng.choice([2, 3])
                    x[i] = list(x[i])
                    rng.shuffle(x[i])
                    t["t"] = ts
                elif t["op"][0]:
                    o = list(t["op"][0])
                    rng.shuffle(o)
                    t["op"] = [o, t["op"][1]]
            else:
                t = terms.rand_term(rng, ty, n_fac=rng.choice([1, 2, 2]), max_rank=2, p_open=0.4, max_open=4)
                if t is None or not t["t"]:
                    continue
                t = dict(t, c=rng.choice([1.0, -1.0, 0.5, -0.25, 2.0]))
            t["ty"] = ty
            if ok_term(t):
                base.append(t)
            if len(base) >= 6:
                break
        if not base:
            return []
        for t in base + [rng.choice(base) for _ in range(3)]:
            ts = list(t["t"])
            rng.shuffle(ts)
            out.append((["term", dict(t, t=ts)], term_key(t)))
    return out


def flags(a, b):
    return "".join("1" if v else "0" for v in (a < b, a <= b, a == b, a != b, a > b, a >= b))


def do_compare(sh, rng):
    kind = rng.choice(["index", "indices", "pair", "sq", "tensor", "term"])
    g = group(sh, rng, kind)
    if len(g) < 3:
        return
    rng.shuffle(g)
    objs, keys = [x[0] for x in g], [x[1] for x in g]
    r = sh.need("compare", objs=objs)
    if r is None:
        return
    sh.count("cmp_" + kind)
    n = len(g)
    eq = 0
    for i in range(n):
        for j in range(n):
            want = flags(keys[i], keys[j])
            if r["m"][i][j] != want:
                return sh.violate("comparison of two objects of one kind is wrong (< <= == != > >=)", request=[objs[i], objs[j]], expected=want, got=r["m"][i][j])
            if i != j and keys[i] == keys[j]:
                eq += 1
                if r["h"][i] != r["h"][j]:
                    return sh.violate("equal objects hash differently", request=[objs[i], objs[j]], hashes=[r["h"][i], r["h"][j]])
    sh.count("equal_pairs", eq)
    if [keys[i] for i in r["sorted"]] != sorted(keys) or sorted(r["sorted"]) != list(range(n)):
        return sh.violate("sorting does not give ascending order", request=objs, got=r["sorted"])
    if keys[r["min"]] != min(keys):
        return sh.violate("min is not the smallest object", request=objs, got=r["min"])
    distinct = len({str(k) for k in keys})
    if r["setsize"] != distinct:
        return sh.violate("a set of the objects does not have one member per distinct object", request=objs, got=r["setsize"], expected=distinct)
    sh.evaluated(key=objs, nontrivial=eq > 0 and distinct > 1, sample=dict(objects=objs[:4], verdicts=r["m"][0][:4]))


BAD_NAMES = ["g", "", "x0", "0", "0g", "g-1", "g1.0", "gg0", "g0g", "k3", "ga", "g 1", "p_1", "b0", "o1", "i0", "A", "V-2", "X3", "1", "g+1", "h1e2", "g0 ", " g0"]
BAD_OBJS = [3, None, 1.5, ["g0"], True]


def damage(rng, l, ty):
    """a random corruption of a list (the reference model decides whether the result is invalid)"""
    l = list(l)
    c = rng.random()
    if c < 0.3 and l:
        x = rng.choice(l)
        l.insert(rng.randrange(len(l) + 1), x if rng.random() < 0.6 else x[0] + "0" + x[1:])
    elif c < 0.6:
        bad = rng.choice(BAD_NAMES)
        l.insert(rng.randrange(len(l) + 1), bad)
    elif c < 0.7:
        l.insert(rng.randrange(len(l) + 1), rng.choice(BAD_OBJS))
    elif c < 0.9 and l:
        i = rng.randrange(len(l))
        if isinstance(l[i], str) and l[i].upper() not in l:
            l[i] = l[i].upper()
    elif l:
        l.pop(rng.randrange(len(l)))
    return l


def odd(rng):
    """combinations of kinds: index types mixed within a pair or a term, wrong objects in a slot, odd names and coefficients"""
    a, b = rlist(rng, 1, False), rlist(rng, 1, False)
    while a == b:
        b = rlist(rng, 1, False)
    t1, t2 = rng.choice(["so", "si", "sa"]), rng.choice(["so", "si", "sa"])
    c = rng.randrange(6)
    if c == 0:
        return ["mpair", t1, a, t2, b, rng.choice(["pair", "sq", "tensor"])], t1 == t2
    if c == 1:
        return ["mterm", 0.5, t1, [a, b], [[["H", "H", b, a], t2]]], t1 == t2
    if c == 2:
        k = rng.choice(["L", "H", "K"])
        return ["mterm", 0.5, t1, [a, b], [[["H", "H", b, ["g77"]], t1], [[k, k, ["g77"], a], t2]]], t1 == t2
    if c == 3:
        x = rng.choice(["abc", "1/2", "", "1.5", 2, "-3", -0.25])
        return ["mterm", x, t1, [a, b], [[["H", "H", b, a], t1]]], x not in ("abc", "1/2", "")
    if c == 4:
        x = rng.choice([["sq", t1, a, b], ["pair", t1, a, b], ["tensor", t1, a, b, "H", None], 3, None, "a"])
        return ["opterm", t1, [["H", "H", b, a]], x], isinstance(x, list) and x[0] == "sq"
    x = rng.choice([["tensor", t1, b, a, "H", None], ["sq", t1, b, a], ["pair", t1, b, a], 3, None])
    return ["tsterm", t1, [x], [a, b]], isinstance(x, list) and x[0] == "tensor"


def do_construct(sh, rng):
    batch = []
    for _ in range(30):
        k = rng.choice(["index", "indices", "pair", "sq", "tensor", "tensor", "term", "term", "odd"])
        if k == "odd":
            batch.append(odd(rng))
            continue
        ty = rng.choice(["so", "si", "sa", "asymm"])
        up = ty != "so"
        bad = rng.random() < 0.55
        if k == "index":
            x = rng.choice(BAD_NAMES + BAD_OBJS) if bad else rname(rng)
            batch.append((["index", x], ok_index(x)))
        elif k == "indices":
            l = rlist(rng, rng.randint(0, 6), up)
            if bad:
                l = damage(rng, l, ty)
                if rng.random() < 0.1:
                    l = rng.choice([3, None, 1.5, {"g0": 1}])
            if isinstance(l, list) and all(isinstance(n, str) for n in l) and rng.random() < 0.3 and not any("," in n for n in l):
                s = ", ".join(l)
                if s != "" or not l:
                    l = s
            if isinstance(l, list) and any(n == "" for n in l):
                pass
            batch.append((["indices", ty, l], ok_indices(ty, l)))
        elif k in ("pair", "sq"):
            u, l = rlist(rng, rng.randint(0, 4), up), rlist(rng, rng.randint(0, 4), up)
            if bad:
                if rng.random() < 0.5:
                    u = damage(rng, u, ty)
                else:
                    l = damage(rng, l, ty)
            batch.append(([k, ty, u, l], ok_pair(ty, u, l)))
        elif k == "tensor":
            kind = rng.choice("LCKTTTH")
            r = 1 if kind in "CK" else rng.randint(1, 4)
            nb = rng.randint(0, r) if up else 0
            if kind == "T":
                hp = rng.choice([("hca", "pva"), ("pva", "hca"), ("hc", "pv"), ("ghca", "gpva")])
                u, l = rlist(rng, r, False, hp[0]), rlist(rng, r, False, hp[1])
            else:
                u, l = rlist(rng, r, False), rlist(rng, r, False)
            u = [x.upper() if i < nb else x for i, x in enumerate(u)]
            l = [x.upper() if i < nb else x for i, x in enumerate(l)]
            rng.shuffle(u)
            rng.shuffle(l)
            if bad:
                c = rng.random()
                if c < 0.3:
                    u = damage(rng, u, ty)
                elif c < 0.5:
                    l = damage(rng, l, ty)
                elif c < 0.75 and kind == "T":      # a label of the other class, same spin
                    g = rng.choice([u, l])
                    i = rng.randrange(len(g))
                    x = rng.choice("hcpvag")
                    g[i] = (x.upper() if g[i][0].isupper() else x) + g[i][1:]
                elif c < 0.9:                       # rank
                    x = rname(rng, False)
                    (u if rng.random() < 0.5 else l).append(x)
                    if rng.random() < 0.5:
                        y = rname(rng, False)
                        (u if len(u) < len(l) else l).append(y)
                else:
                    kind = rng.choice(["Z", "tensor", "h"])
            batch.append((["tensor", ty, u, l, kind, None], ok_tensor(ty, u, l, kind)))
        else:
            ty = rng.choice(["so", "si", "sa"])
            t = terms.rand_term(rng, ty, n_fac=rng.choice([1, 2, 2, 3]), max_rank=2, p_open=0.4, max_open=4, scalar=rng.random() < 0.2)
            if t is None or not t["t"]:
                continue
            t = dict(t, ty=ty, t=[[x[0], x[1], list(x[2]), list(x[3])] for x in t["t"]], op=[list(t["op"][0]), list(t["op"][1])])
            if rng.random() < 0.25:                 # few labels, many repeats: diagonal indices in all counts
                pool = rlist(rng, rng.choice([1, 2, 2, 3]), False)
                n = rng.choice([1, 2, 2, 3])
                t["t"] = []
                for _ in range(n):
                    k = rng.randint(1, min(2, len(pool)))
                    t["t"].append(["H", "H", rng.sample(pool, k), rng.sample(pool, k)])
                k = rng.randint(0, len(pool))
                t["op"] = [rng.sample(pool, k), rng.sample(pool, k)]
                sh.count("repeated_labels")
            elif bad:
                c = rng.random()
                if c < 0.12 and not t["op"][0]:      # every index four times
                    t["t"] += [[x[0], x[1], list(x[2]), list(x[3])] for x in t["t"]]
                elif c < 0.25:
                    t["t"].pop(rng.randrange(len(t["t"])))
                elif c < 0.45:
                    t["t"].append([*rng.choice(t["t"])])
                elif c < 0.75:
                    g = rng.choice([x[i] for x in t["t"] for i in (2, 3)] + [o for o in t["op"] if o])
                    if g:
                        i = rng.randrange(len(g))
                        g[i] = g[i][0] + str(int(g[i][1:]) + rng.choice([1, 37]))
                elif t["op"][0]:
                    if rng.random() < 0.5:
                        t["op"][0].pop()
                    else:
                        t["op"] = [[], []]
                else:
                    t["op"] = [["g91"], ["g92"]]
            batch.append((["term", t], ok_term(t)))
    r = sh.need("construct", objs=[b[0] for b in batch])
    if r is None:
        return
    na = nr = 0
    for (d, want), ev in zip(batch, r["res"]):
        if ev["ok"] != want:
            return sh.violate("malformed input is accepted" if ev["ok"] else "well-formed input is rejected", request=d, outcome=ev)
        sh.count("accepted" if want else "rejected")
        if not want:
            sh.count("rejected_" + d[0])
            nr += 1
            continue
        na += 1
        if d[0] in ("mpair", "mterm", "opterm", "tsterm"):
            sh.count("mixed_accepted")
        elif d[0] == "index":
            if ev["d"] != [d[1], d[1][0], int(d[1][1:]), d[1][0].isupper()]:
                return sh.violate("index does not hold the label given", request=d, outcome=ev)
        elif d[0] == "indices":
            l = as_list(d[2])
            if ev["d"][0] != l or ev["d"][1:3] != [len(l)] * 2 or ev["d"][3] != sorted(l):
                return sh.violate("index list does not hold the labels given", request=d, outcome=ev)
        elif d[0] in ("pair", "sq", "tensor"):
            if ev["d"] != [as_list(d[2]), as_list(d[3]), len(as_list(d[2])) + len(as_list(d[3]))]:
                return sh.violate("object does not hold the labels given", request=d, outcome=ev)
        else:
            g = ev["d"]
            if term_key(dict(g, ty=d[1]["ty"])) != term_key(d[1]):
                return sh.violate("term does not hold the tensors, operator and coefficient given", request=d, outcome=ev)
    sh.evaluated(key=[b[0] for b in batch], nontrivial=na > 0 and nr > 0, sample=dict(inputs=[b[0] for b in batch[:4]], verdicts=[b[1] for b in batch[:4]]))


def do_mixed(sh, rng):
    """objects of different kinds or index types refuse to be compared"""
    def some(kind, ty):
        a, b = rlist(rng, 1, False), rlist(rng, 1, False)
        if kind == "index":
            return ["index", a[0]]
        if kind == "indices":
            return ["indices", ty, a]
        if kind == "term":
            return ["term", dict(c=1.0, t=[["H", "H", a, b]], op=[b, a], ty=ty)]
        if kind == "tensor":
            return ["tensor", ty, a, b, "H", None]
        return [kind, ty, a, b]
    pairs = []
    for _ in range(12):
        c = rng.random()
        t1, t2 = rng.sample(["so", "si", "sa"], 2)
        if c < 0.4:                 # same kind, different index type
            k = rng.choice(["indices", "pair", "sq", "tensor"])
            pairs.append([some(k, t1), some(k, t2)])
        elif c < 0.8:
            k1, k2 = rng.sample(["index", "indices", "sq", "tensor", "term"], 2)
            pairs.append([some(k1, t1), some(k2, t1)])
        else:
            pairs.append([some(rng.choice(["index", "indices", "pair", "sq", "tensor", "term"]), t1), rng.choice([1, "g0", None, 2.5])])
    r = sh.need("mixcompare", pairs=pairs)
    if r is None:
        return
    for p, row in zip(pairs, r["res"]):
        sh.count("mixed_kinds")
        if any(x.startswith("val:") for x in row):
            return sh.violate("objects of different kinds or index types are compared instead of refused", request=p, outcomes=row)
    sh.evaluated(key=pairs, nontrivial=False)


def shard(sh):
    rng = sh.rng
    while not sh.over():
        u = rng.random()
        if u < 0.5:
            do_compare(sh, rng)
        elif u < 0.85:
            do_construct(sh, rng)
        else:
            do_mixed(sh, rng)
        if sh.violations:
            return
