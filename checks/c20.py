"""C20: copies, conjugates, negations and the descriptive queries of objects against a reference model."""
from vlib import terms
from checks.c17 import rlist, ikey
from checks.c03 import make_diagonal

RULE = ("random index lists, pairs, operators, tensors and terms are copied (plain, conjugated, negated, both); the copy, its kind and its "
        "descriptive queries are compared with the original, then the copy is changed step by step (coefficient, simplification, "
        "canonicalization, voiding) while the original and a second copy are re-read, and the other way round.  Non-trivial: at least "
        "two labels")
ASSUMPTIONS = ["contraction results as in C03", "tensors are conjugated only through the operator of a term"]
BUDGET = {"quick": 15, "thorough": 200}
MIN_NONTRIVIAL = {"quick": 300, "thorough": 4000}
MIN_OBSERVED = {"copied_indices": 40, "copied_pair": 40, "copied_sq": 40, "copied_tensor": 40, "copied_btensor": 40, "term_copies": 400,
                "conjugated": 200, "negated": 100, "changes": 400, "so": 60, "si": 40, "sa": 40, "open_terms": 100, "diagonal_terms": 30, "walked": 100}


def do_object(sh, rng):
    k = rng.choice(["indices", "pair", "sq", "tensor", "btensor"])
    ty = rng.choice(["so", "si", "sa"])
    if k == "indices":
        ty = rng.choice(["so", "si", "sa", "asymm", "none"][:4])
        obj = [k, ty, rlist(rng, rng.randint(0, 6), ty != "so")]
        kw = {}
    else:
        nu = rng.choice([0, 1, 1, 2, 2, 3, 4])
        nl = nu if rng.random() < 0.7 or k == "tensor" else rng.randint(0, 4)
        kind = rng.choice("HTLCK") if k == "tensor" else None
        if kind and kind in "CK":
            nu = nl = 1
        if kind and nu == 0:
            nu = nl = 2
        lab = ("hca", "pva") if kind == "T" else (None, None)

        def lists():
            u, l = rlist(rng, nu, False, lab[0]), rlist(rng, nl, False, lab[1])
            if ty != "so":
                if k in ("tensor", "btensor") or rng.random() < 0.7:
                    nb = rng.randint(0, min(nu, nl))
                    u = [x.upper() if i < nb else x for i, x in enumerate(u)]
                    l = [x.upper() if i < nb else x for i, x in enumerate(l)]
                    rng.shuffle(u)
                    rng.shuffle(l)
                else:
                    u, l = rlist(rng, nu, True), rlist(rng, nl, True)
            return u, l
        u, l = lists()
        obj = [k, ty, u, l]
        kw = {}
        if k in ("tensor", "btensor"):
            if k == "tensor":
                obj += [kind] + ([rng.choice(["A", "Z", "Xx"])] if rng.random() < 0.5 else [])
            else:
                obj += [rng.choice(["A", "Zz", "B1"]), rng.randint(-2, 4)]
            kw["nu"], kw["nl"] = lists()
    r = sh.need("copies", what="object", obj=obj, ty=ty, **kw)
    if r is None:
        return
    sh.count("copied_" + k)
    want = obj[2] if k == "indices" else [obj[2], obj[3]]
    if r["o"] != want or r["after"] != want:
        return sh.violate("copying an object altered it", request=obj, got=[r["o"], r["after"]])
    if r["c"] != want or not (r["same_type"] and r["eq"] and r["new"] and r["heq"]) or r["xo"] != r["xc"]:
        return sh.violate("a copy differs from its original", request=obj, got=r)
    walk = [[[x, y] for x in y] for y in ([want] if k == "indices" else want)]
    sh.count("walked", any(len(x) > 1 for x in walk))
    if r["walk"] != walk:
        return sh.violate("traversing an index list twice at once does not visit every index each time", request=obj, got=r["walk"])
    if k in ("pair", "sq"):
        sh.count("conjugated")
        if r["h"] != [obj[3], obj[2]] or r["hh"] != want or not r["h_type"] or not r["ity"]:
            return sh.violate("conjugated copy is not the swap of upper and lower indices", request=obj, got=r)
    if k in ("tensor", "btensor"):
        nm = {"tensor": obj[5] if len(obj) > 5 else obj[4], "btensor": obj[4]}[k]
        if r["xo"][0] != nm or r["f"] != [kw["nu"], kw["nl"]] or not r["f_type"] or not r["ity"] or r["xf"] != r["xo"]:
            return sh.violate("tensor of the same kind with new indices is wrong", request=[obj, kw], got=r)
        if not r["g_type"] or r["xg"] != r["xo"] or any(x != [True] + r["xo"] for x in r.get("xs", [])):
            return sh.violate("sorted or spin-labelled tensor lost its kind, name or priority", request=[obj, kw], got=r)
    if k != "indices":
        u, l = obj[2], obj[3]
        q = [len(u) + len(l), len(u), len(l), sorted(set(u) | set(l)), u + l, l + u, not u and not l]
        g = [r["size"], r["nu"], r["nl"], r["set"], r["all"], r["rev"], r["empty"]]
        nbu, nbl = sum(x[0].isupper() for x in u), sum(x[0].isupper() for x in l)
        if g != q or (len(u) == len(l) and r["sc"] != (nbu == nbl)):
            return sh.violate("descriptive query of a pair is wrong", request=obj, expected=q, got=[g, r["sc"]])
    sh.evaluated(key=[obj, kw], nontrivial=len(obj[2]) > 1, sample=dict(request=obj, copy=r["c"]))


def same(a, b, c=1.0):
    return a["t"] == b["t"] and a["op"] == b["op"] and a["ty"] == b["ty"] and a["c"] == c * b["c"]


def q_ok(t, q):
    idx = terms.all_indices(t)
    if q["n"] != len(t["t"]) or sorted(set(q["idx"])) != idx or q["nb"] != len(t["op"][0]) or q["void"] != (abs(t["c"]) < 1e-15):
        return False
    return all(q["next"][x[0]] > int(x[1:]) for x in idx)


def diagonal(t):
    """labels that are both upper and lower on one tensor or operator"""
    return {x for _, _, u, l in t["t"] for x in set(u) & set(l)} | set(t["op"][0]) & set(t["op"][1])


def do_term(sh, rng):
    ty = rng.choice(["so", "so", "si", "sa"])
    t = terms.rand_term(rng, ty, max_open=rng.choice([0, 4, 6]), scalar=rng.random() < 0.2)
    if t is None:
        return
    diag = False
    if rng.random() < 0.3:
        t2 = make_diagonal(rng, t)
        if t2 is not None:
            t, diag = t2, True
    sh.count("diagonal_terms", diag)
    flags = [{}, {"flip_sign": True}, {"hc": True}, {"flip_sign": True, "hc": True}]
    rng.shuffle(flags)
    flags = flags[:rng.randint(2, 4)]
    steps = [rng.choice(["coeff", "simplify", "canonicalize_sympy", "canonicalize_simple", "canonicalize", "void"]) for _ in range(rng.randint(1, 2))]
    if steps.count("void") + len([s for s in steps if s.startswith(("c", "s"))]) > 1 and steps[0] != "coeff":
        steps = steps[:1]
    if diag:
        steps = [s if s not in ("canonicalize", "canonicalize_sympy") else "simplify" for s in steps]
    r = sh.need("copies", what="term", term=t, flags=flags, steps=steps)
    if r is None:
        return
    o = r["t"]
    req = dict(term=t, flags=flags, steps=steps)
    sh.count(ty)
    sh.count("open_terms", bool(t["op"][0]))
    if o["op"] != t["op"] or o["c"] != t["c"] or o["ty"] != ty or sorted(map(repr, o["t"])) != sorted(map(repr, t["t"])) or not q_ok(o, r["q"]) \
            or set(r["q"]["diag"]) != diagonal(t):
        return sh.violate("a term does not describe what it was built from", request=req, got=[o, r["q"]])
    for fl, ev in zip(flags, r["copies"]):
        sh.count("term_copies")
        s = -1.0 if fl.get("flip_sign") else 1.0
        w = dict(o, op=o["op"][::-1]) if fl.get("hc") else o
        sh.count("conjugated", bool(fl.get("hc") and t["op"][0]))
        sh.count("negated", s < 0)
        if not same(ev["c"], w, s) or not q_ok(ev["c"], ev["q"]) or ev["q"]["diag"] != r["q"]["diag"]:
            return sh.violate("copied term is not the requested one", request=dict(req, flags=fl), expected=w, got=ev["c"])
        if ev["t"] != o:
            return sh.violate("copying a term altered it", request=dict(req, flags=fl), before=o, after=ev["t"])
        if ev["eq"] != (s > 0 and (not fl.get("hc") or o["op"][0] == o["op"][1])):
            return sh.violate("equality of a copied term and its original is wrong", request=dict(req, flags=fl), got=ev["eq"])
    blank = dict(c=0.0, t=[], op=[[], []], ty=ty)
    for w in ("void", "empty"):
        if r[w] != [blank, True]:
            return sh.violate("the empty counterpart of a term is not empty", request=req, which=w, got=r[w])
    for st, ev in zip(steps, r["hist"]):
        sh.count("changes")
        if ev["t"] != o or ev["keep"] != o:
            return sh.violate("changing a copy shows in the original or in another copy", request=dict(req, step=st), original=o, now=[ev["t"], ev["keep"]])
        if st == "coeff" and ev["c"]["c"] != 7.5 or st == "void" and not same(ev["c"], blank):
            return sh.violate("a direct change of a term did not take effect", request=dict(req, step=st), got=ev["c"])
        if not q_ok(ev["c"], ev["q"]) or not set(ev["q"]["diag"]) <= set(ev["q"]["idx"]):
            return sh.violate("the descriptive queries of a term are out of step with its content after a change", request=dict(req, step=st), got=[ev["c"], ev["q"]])
    if not (r["list_kept"] and r["list_kept2"]) or r["list_own"][0] != r["list_own"][1] or not same(r["list_own"][0], o):
        return sh.violate("a term reorders or keeps the list of tensors it was built from", request=req, kept=[r["list_kept"], r["list_kept2"]],
                          own=r["list_own"])
    if r["keep2"] != o:
        return sh.violate("changing the original shows in its copy", request=req, original=o, copy=r["keep2"])
    sh.evaluated(key=req, nontrivial=len(terms.all_indices(t)) > 1, sample=dict(request=req, copy=r["copies"][0]["c"]))


def shard(sh):
    rng = sh.rng
    while not sh.over():
        (do_object if rng.random() < 0.5 else do_term)(sh, rng)
        if sh.violations:
            return
