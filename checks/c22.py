"""C22: index lists as sequences, and the printed forms of all objects, against the content they were built from."""
import re
from vlib import terms
from checks.c11 import parse, FAC, idx, IDX, mismatch
from checks.c17 import rlist, rname, ikey

RULE = ("random index lists (0-12 labels, four kinds) are built from names, tuples, texts, index objects and mixtures; length, iteration, "
        "positions, slices, membership and spin counts are compared with the plain list; the printed forms of indices, lists, pairs, "
        "operators, tensors and terms are parsed back by an independent reader and compared with the content; pairs of terms print alike "
        "exactly if they have the same content.  Non-trivial: at least two labels")
ASSUMPTIONS = ["label numbers without leading zeros", "coefficients are compared to the 1e-9 resolution of the printed fractions",
               "one index list is iterated by one loop at a time"]
BUDGET = {"quick": 15, "thorough": 150}
MIN_NONTRIVIAL = {"quick": 300, "thorough": 4000}
MIN_OBSERVED = {"lists": 300, "empty_lists": 10, "members": 300, "non_members": 300, "beta_labels": 300, "slices": 1000, "obj_pair": 30, "obj_sq": 30,
                "obj_tensor": 30, "obj_btensor": 30, "amplitude_down": 10, "unequal_ranks": 20, "terms": 500, "twin_terms": 60}


def ltx(n):
    return n[0] + "_{" + n[1:] + "}"


def make_obj(rng):
    k = rng.choice(["pair", "sq", "tensor", "btensor"])
    ty = rng.choice(["so", "si", "sa"])
    nu = rng.choice([0, 1, 1, 2, 2, 3, 4])
    nl = nu if rng.random() < 0.7 or k == "tensor" else rng.randint(0, 4)
    kind = rng.choice("HTTLCK") if k == "tensor" else None
    if kind and kind in "CK":
        nu = nl = 1
    if kind and nu == 0:
        nu = nl = 2
    lab = (None, None)
    if kind == "T":
        lab = rng.choice([("hca", "pva"), ("pva", "hca"), ("a", "a")])
    u, l = rlist(rng, nu, False, lab[0]), rlist(rng, nl, False, lab[1])
    if ty != "so":
        nb = rng.randint(0, min(nu, nl))
        u = [x.upper() if i < nb else x for i, x in enumerate(u)]
        l = [x.upper() if i < nb else x for i, x in enumerate(l)]
        rng.shuffle(u)
        rng.shuffle(l)
    obj = [k, ty, u, l]
    if k == "tensor":
        obj += [kind] + ([rng.choice(["A", "Z", "Xx"])] if rng.random() < 0.5 else [])
    elif k == "btensor":
        obj += [rng.choice(["A", "Zz", "B"]), rng.randint(-2, 4)]
    return obj


def judge_list(sh, kw, r):
    l, n = kw["names"], len(kw["names"])
    ks = {ikey(x) for x in l}
    member = [ikey(x) in ks for x in kw["probe"]]
    sh.count("lists")
    sh.count("empty_lists", not l)
    sh.count("members", sum(member))
    sh.count("non_members", len(member) - sum(member))
    sh.count("beta_labels", sum(x[0].isupper() for x in l))
    sh.count("slices", len(kw["slices"]))
    want = {"iter": l, "again": l, "len": n, "size": n, "at": l, "back": l[::-1], "slices": [l[b:e:s] for b, e, s in kw["slices"]],
            "isin": member, "isin2": member, "nbeta": sum(x[0].isupper() for x in l), "nalpha": sum(x[0].islower() for x in l) if kw["ty"] == "si" else None}
    for f, g in r["forms"].items():
        bad = [k for k, v in want.items() if g[k] != v]
        if bad:
            return sh.violate("an index list does not behave as the sequence it was given", request=dict(kw, form=f), which=bad,
                              got={k: g[k] for k in bad}, expected={k: want[k] for k in bad})
        if [x.strip() for x in g["str"].split(",") if x.strip()] != l or g["ambit"] != ",".join(l) or idx(g["latex"][0]) != l \
                or re.sub(IDX, "", g["latex"][0]).replace(" ", "") != "{}" or g["latex"][1].replace(" ", "") != "$" + g["latex"][0].replace(" ", "") + "$":
            return sh.violate("text of an index list is not the list", request=dict(kw, form=f), got=[g["str"], g["ambit"], g["latex"]])
    if r["beyond"] or not r["round"] or r["mixed"] != l:
        return sh.violate("reading back the text of an index list, or a mixture of names and indices, does not give the list", request=kw,
                          got=[r["beyond"], r["round"], r["mixed"]])
    for x, g in zip(l, r["flip"]):
        if g != [x, x[0], int(x[1:]), x[0].isupper(), x.upper(), x.lower(), x, ltx(x), "$" + ltx(x) + "$", True, False]:
            return sh.violate("name, parts, spin conversion or text of an index is wrong", request=dict(kw, index=x), got=g)
    return True


def judge_obj(sh, obj, r):
    k, ty, u, l = obj[:4]
    sh.count("obj_" + k)
    sh.count("unequal_ranks", len(u) != len(l))
    name = {"pair": "", "sq": "a", "tensor": obj[5] if len(obj) > 5 else obj[-1], "btensor": obj[4] if k == "btensor" else ""}[k]
    s = r["str"]
    m = FAC.fullmatch(s.strip()) if k != "pair" else None
    got = [m.group(1), idx(m.group(2)), idx(m.group(3))] if m else None
    if k == "pair":
        m = FAC.fullmatch("X" + s.strip())
        got = ["", idx(m.group(2)), idx(m.group(3))] if m else None
    empty = k == "sq" and not u and not l and s.strip() == ""
    if got != [name, u, l] and not empty:
        return sh.violate("printed form of an object is not its content", request=obj, text=s)
    if r["dollar"] is not None and r["dollar"].replace(" ", "") != "$" + s.replace(" ", "") + "$" and not empty:
        return sh.violate("math-mode form of an object differs from its plain form", request=obj, text=[s, r["dollar"]])
    if r["n"] != [len(u), len(l)] or (len(u) == len(l) and r["nbody"] != len(u)):
        return sh.violate("rank of an object is wrong", request=obj, got=r)
    up, down = '["%s"]' % ",".join(u + l), '["%s"]' % ",".join(l + u)
    if not (u or l):
        up = down = ""
    elif not u or not l:
        up = down = None            # not a labelled tensor
    if up is not None:
        if k == "tensor" and obj[4] == "T":
            dn = any(x[0].lower() in "pv" for x in u) or any(x[0].lower() in "hc" for x in l)
            sh.count("amplitude_down", dn)
            w = [down] * 3 if dn else [up] * 3
        elif k == "sq":
            w = [down, down, up]
        else:
            w = [up, down, up]
        if k in ("tensor", "btensor"):
            pre = name + (str(len(u)) if len(u) == len(l) else "_%d_%d" % (len(u), len(l)))
            w = [pre + x for x in w]
        if [x.replace(" ", "") for x in r["amb"]] != w:
            return sh.violate("labelled-tensor text of an object is wrong", request=obj, got=r["amb"], expected=w)
    if k == "sq":
        if r["sq"] != [u, l, len(u), len(l), len(u) + len(l), not u and not l, len(u) == len(l)] or r["void"] != [0, True, True]:
            return sh.violate("creators, annihilators or counts of an operator are wrong", request=obj, got=[r["sq"], r["void"]])
    if "act" in r and r["act"] != all(x[0] in "aA" for x in u + l):
        return sh.violate("all-active amplitude misreported", request=obj, got=r["act"])
    return True


def content(t):
    return [sorted(map(str, t["t"])), t["op"], t["ty"]]


def judge_terms(sh, ts, r):
    sh.count("terms", len(ts))
    for t, (s, rp, ex) in zip(ts, r["terms"]):
        p = parse(s)
        why = None
        if s != rp:
            why = "two printed forms of one term differ"
        elif p is None or p["P"] or p["amp"] or p["bs"]:
            why = "printed term cannot be read back"
        elif sorted(map(str, p["t"])) != sorted(str(x[1:]) for x in t["t"]) or p["op"] != t["op"]:
            why = "printed term is not the term"
        elif abs(float(p["c"]) - t["c"]) > 2e-9 * (1 + abs(t["c"])):
            why = "printed coefficient differs"
        if why:
            return sh.violate(why, request=dict(term=t), text=[s, rp])
        c, a = t["op"]
        want = not any(x[0] in "cC" for x in c) and not any(x[0] in "vV" for x in a) and not all(x[0] in "aA" for x in c + a)
        if c and ex != want:
            return sh.violate("possible excitation of a term misreported", request=dict(term=t), got=ex)
    for i, s in enumerate(ts):
        for j, t in enumerate(ts):
            if s["ty"] != t["ty"]:
                continue
            same = content(s) == content(t)
            if r["aeq"][i][j] != same or r["eq"][i][j] != (same and s["c"] == t["c"]) \
                    or (r["terms"][i][0] == r["terms"][j][0]) != (same and s["c"] == t["c"]):
                return sh.violate("terms print or compare alike although they differ (or the reverse)", request=dict(terms=[s, t]),
                                  got=[r["eq"][i][j], r["aeq"][i][j], r["terms"][i][0], r["terms"][j][0]])
            sh.count("twin_terms", same and i < j)
    return True


def twin(rng, t):
    u = rng.random()
    t = dict(t, t=[[x[0], x[1], list(x[2]), list(x[3])] for x in t["t"]], op=[list(t["op"][0]), list(t["op"][1])])
    if u < 0.3:
        rng.shuffle(t["t"])
    elif u < 0.5:
        t["c"] = -t["c"]
    elif u < 0.7:
        g = rng.choice([x[i] for x in t["t"] for i in (2, 3)] + t["op"])
        if len(g) > 1:
            g[0], g[1] = g[1], g[0]
    elif u < 0.85:
        x = rng.choice(t["t"])
        if x[0] == "H":
            x[2], x[3] = x[3], x[2]
    else:
        x = rng.choice(t["t"])
        if x[0] in "HT":
            x[1] = x[1] + "x"
    return t


def shard(sh):
    rng = sh.rng
    while not sh.over():
        ty = rng.choice(["so", "si", "sa", "asymm"])
        l = rlist(rng, rng.choice([0, 1, 2, 3, 4, 6, rng.randint(7, 12)]), ty != "so")
        probe = [rname(rng, True) for _ in range(3)] + rng.sample(l, min(len(l), 3))
        if l:
            x = rng.choice(l)
            probe += [x.swapcase(), x[0] + str(int(x[1:]) + 1), rng.choice("gphvca") + x[1:]]
        kw = dict(ty=ty, names=l, probe=probe,
                  slices=[[rng.choice([None, 0, 1, 2, -1, -2]), rng.choice([None, 1, 3, -1, 20]), rng.choice([None, 1, 2, -1])] for _ in range(3)])
        obj = make_obj(rng)
        ts = []
        t = terms.rand_term(rng, rng.choice(["so", "si", "sa"]), max_open=rng.choice([0, 4, 6]), scalar=rng.random() < 0.2)
        if t is not None and t["t"]:
            t["c"] = round(rng.uniform(-3, 3), 6) if rng.random() < 0.2 else t["c"]
            ts = [t] + [twin(rng, t) for _ in range(2)]
        r = sh.need("sequence", obj=obj, terms=ts, **kw)
        if r is None:
            continue
        sh.evaluated(key=[kw, obj, ts], nontrivial=len(l) > 1, sample=dict(request=dict(kw, obj=obj, terms=ts), text=[r["obj"]["str"], r["terms"]]))
        if judge_list(sh, kw, r) and judge_obj(sh, obj, r["obj"]):
            judge_terms(sh, ts, r)
        if sh.violations:
            return
