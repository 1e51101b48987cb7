"""C18: index-list and index-pair algebra of the real code against brute-force enumeration."""
from itertools import permutations, product
from math import factorial
from checks.c17 import rlist, ikey

RULE = ("random index lists (0-14 labels, antisymmetric, spin-orbital, spin-integrated, spin-free) with random reorderings and random "
        "partitions, and random pairs, operators and tensors: sorted form and sign, permutation parity, every permutation form with "
        "its sign, stated counts, spin cases, and the closure of the returned generating set (compared element by element with the "
        "allowed signed permutations, including base and strong-generator properties) are judged against direct enumeration.  "
        "Non-trivial: at least two labels in a group")
ASSUMPTIONS = ["partitions cover the whole list", "groups are closed explicitly up to four upper and four lower indices"]
BUDGET = {"quick": 20, "thorough": 240}
MIN_NONTRIVIAL = {"quick": 400, "thorough": 8000}
MIN_OBSERVED = {"lists": 200, "odd_sorts": 60, "forms": 1000, "partitions": 100, "spin_partitions": 20, "spin_cases": 500, "pairs": 100, "pair_forms": 300,
                "groups": 100, "group_elements": 2000, "hermitian_groups": 20, "pair_spin_cases": 200, "overlaps": 40}


def parity(a, b):
    """sign of the permutation taking list a to list b"""
    pos = {x: i for i, x in enumerate(a)}
    p = [pos[x] for x in b]
    s, seen = 1, set()
    for i in range(len(p)):
        if i in seen:
            continue
        k, n = i, 0
        while k not in seen:
            seen.add(k)
            k = p[k]
            n += 1
        if n % 2 == 0:
            s = -s
    return s


def partition(rng, l, cap=3000):
    """random ordered partition of a list into blocks, or None if it has too many arrangements"""
    l = list(l)
    if rng.random() < 0.6:
        rng.shuffle(l)
    nb = rng.choice([1, 2, 2, 3, 4, len(l) or 1])
    blocks = [[] for _ in range(nb)]
    for x in l:
        rng.choice(blocks).append(x)
    blocks = [b for b in blocks if b]
    n = factorial(len(l))
    for b in blocks:
        n //= factorial(len(b))
    return (blocks, n) if n <= cap else (None, 0)


def arrangements(blocks):
    """all interleavings that keep the order inside each block"""
    if not any(blocks):
        yield []
        return
    for i, b in enumerate(blocks):
        if b:
            rest = blocks[:i] + [b[1:]] + blocks[i + 1:]
            for t in arrangements(rest):
                yield [b[0]] + t


def forms(l, blocks, ty):
    """reference: {arrangement text: sign}"""
    if ty == "sa":
        return {",".join(l): 1}
    spin = [x[0].isupper() for x in l]
    return {",".join(t): parity(l, t) for t in arrangements(blocks) if [x[0].isupper() for x in t] == spin}


def do_list(sh, rng):
    ty = rng.choice(["so", "si", "sa", "asymm"])
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, rng.randint(9, 14)])
    l = rlist(rng, n, ty != "so")
    perm = list(l)
    if rng.random() < 0.3 and n > 1:        # a nearly sorted list
        perm.sort(key=ikey)
        i = rng.randrange(n - 1)
        perm[i], perm[i + 1] = perm[i + 1], perm[i]
    else:
        rng.shuffle(perm)
    kw = dict(ty=ty, names=l, perm=perm)
    blocks, cnt = partition(rng, l)
    if blocks is not None:
        kw["part"] = blocks
    if ty == "so" and n <= 8:
        kw["nb"] = rng.choice([None] + list(range(n + 1)))
    sp = rng.sample("gphvcaGPHVCA", rng.randint(1, 6))
    kw["spaces"] = sp
    other = rlist(rng, rng.randint(0, 4), ty != "so")
    if rng.random() < 0.4 and l:
        x = rng.choice(l)
        if x not in other:
            other.insert(rng.randrange(len(other) + 1), x)
    kw["other"] = other
    r = sh.need("idxalg", **kw)
    if r is None:
        return
    sh.count("lists")
    req = kw
    srt = sorted(l, key=ikey) if ty != "sa" else l
    sign = parity(l, srt)
    sh.count("odd_sorts", sign < 0)
    sh.top("list_length", n)
    if r["self"] != l:
        return sh.violate("an index list operation altered the list", request=req, got=r["self"])
    if r["canon"] != srt or r["sign"] != sign:
        return sh.violate("sorted index list or its sign is wrong", request=req, expected=[srt, sign], got=[r["canon"], r["sign"]])
    if not r["isperm"] or (-1) ** r["count"] != parity(l, perm):
        return sh.violate("transposition count between two orderings has the wrong parity", request=req, got=[r["isperm"], r["count"]], expected=parity(l, perm))
    if r["overlap"] != bool(l):
        return sh.violate("overlap of a list with its own reordering is wrong", request=req, got=r["overlap"])
    ov = bool({ikey(x) for x in l} & {ikey(x) for x in other})
    sh.count("overlaps", ov)
    if r["overlap2"] != ov or (r["sum"] is None) != ov or (not ov and r["sum"] != l + other):
        return sh.violate("overlap or concatenation of two lists is wrong", request=req, got=[r["overlap2"], r["sum"]])
    if r["cnt"] != sum(x[0] in sp for x in l):
        return sh.violate("number of labels in given spaces is wrong", request=req, got=r["cnt"])
    if ty == "si":
        al, be = [x for x in l if x[0].islower()], [x for x in l if x[0].isupper()]
        if r["spin"][:3] != [al, be, [len(al), len(be)]] or r["spin"][3] != (not al or not be):
            return sh.violate("alpha/beta split of a list is wrong", request=req, got=r["spin"])
    if blocks is not None:
        sh.count("partitions")
        sh.count("spin_partitions", ty in ("si", "asymm") and 0 < sum(x[0].isupper() for x in l) < n)
        want = forms(l, blocks, ty)
        got = {}
        for s, t in r["forms"]:
            if t in got:
                return sh.violate("permutation form listed twice", request=req, form=t)
            got[t] = s
        sh.count("forms", len(got))
        if got != want:
            return sh.violate("permutation forms or their signs are wrong", request=req, missing=[k for k in want if k not in got][:5],
                              extra=[k for k in got if k not in want][:5], wrong_sign=[k for k in want if k in got and got[k] != want[k]][:5])
        c = cnt if ty != "sa" else 1
        if r["n"] != c or r["latex"][0] != c:
            return sh.violate("stated number of permutations is not the multinomial", request=req, expected=c, got=[r["n"], r["latex"]])
        if r["exist"] != (ty != "sa" and len(blocks) > 1) or bool(r["latex"][1]) != (c > 1):
            return sh.violate("existence of a permutation form is misreported", request=req, got=[r["exist"], r["latex"]])
    if "nb" in kw:
        got = [tuple(x) for x in r["cases"]]
        want = [tuple(x.upper() if s else x for x, s in zip(l, ss)) for ss in product((0, 1), repeat=n) if kw["nb"] is None or sum(ss) == kw["nb"]]
        sh.count("spin_cases", len(got))
        if sorted(got) != sorted(want):
            return sh.violate("spin cases of an index list are wrong", request=req, got=len(got), expected=len(want))
    sh.evaluated(key=kw, nontrivial=n > 1, sample=dict(request=req, sorted=r["canon"], sign=r["sign"]))


def closure(gens, n):
    idn = tuple(range(n))
    seen, todo = {idn}, [idn]
    while todo:
        g = todo.pop()
        for h in gens:
            x = tuple(h[i] for i in g)
            if x not in seen:
                seen.add(x)
                todo.append(x)
    return seen


def allowed(nu, nl, anti, herm, ident):
    n = nu + nl
    out = set()
    if ident:
        return {tuple(range(n + 2))}
    swap = tuple(list(range(nu, n)) + list(range(nu)))
    if anti:
        base = []
        for p in permutations(range(nu)):
            for q in permutations(range(nl)):
                s = parity(list(range(nu)), list(p)) * parity(list(range(nl)), list(q))
                base.append((p + tuple(nu + i for i in q), s))
    else:
        base = [(p + tuple(nu + i for i in p), 1) for p in permutations(range(nu))]
    for g, s in base:
        tail = (n, n + 1) if s > 0 else (n + 1, n)
        out.add(g + tail)
        if herm:
            out.add(tuple(swap[i] for i in g) + tail)
    return out


def do_pair(sh, rng):
    ty = rng.choice(["so", "si", "sa"])
    cls = rng.choice(["pair", "sq", "sq", "H", "L", "T"])
    up = ty != "so"
    nu = rng.choice([1, 1, 2, 2, 3, 3, 4])
    nl = nu
    if cls in ("pair", "sq") and rng.random() < 0.2:
        nl = rng.randint(1, 4)
    lab = {"T": ("hca", "pva")}.get(cls, (None, None))
    u, l = rlist(rng, nu, False, lab[0]), rlist(rng, nl, False, lab[1])
    if up:
        nb = rng.randint(0, min(nu, nl))
        u = [x.upper() if i < nb else x for i, x in enumerate(u)]
        l = [x.upper() if i < nb else x for i, x in enumerate(l)]
        rng.shuffle(u)
        rng.shuffle(l)
    kw = dict(ty=ty, u=u, l=l, cls=cls)
    herm, ident = cls != "sq", False
    b = {}
    if rng.random() < 0.6:
        b["hermitian"] = rng.random() < 0.5
        herm = b["hermitian"] and cls != "sq"
    if nu == nl and rng.random() < 0.15 and cls != "sq":
        b["no_sym"] = ident = True
    if nu != nl and (ty == "sa" or herm):
        if ty != "sa":
            b["hermitian"], herm = False, False
            kw["bsgs"] = b
    else:
        kw["bsgs"] = b
    if cls == "sq" and ty == "sa":
        ident = True
        if nu != nl:
            kw.pop("bsgs", None)
    if ty == "so":
        kw["cons"] = nu == nl and (cls not in ("pair", "sq") or rng.random() < 0.7)
    if cls == "sq":
        pu, cu = partition(rng, u, 60)
        pl, cl = partition(rng, l, 60)
        if pu and pl:
            kw["parts"] = [pu, pl]
            kw["cf"] = rng.random() < 0.5
    r = sh.need("pairalg", **kw)
    if r is None:
        return
    sh.count("pairs")
    anti = ty != "sa"
    su, sl = (sorted(u, key=ikey), sorted(l, key=ikey)) if anti else (u, l)
    s = parity(u, su) * parity(l, sl)
    if r["canon"] != [su, sl] or r["sign"] != s:
        return sh.violate("sorted pair or its sign is wrong", request=kw, expected=[su, sl, s], got=[r["canon"], r["sign"]])
    if r["diag"] != sorted(set(u) & set(l)):
        return sh.violate("diagonal indices of a pair are wrong", request=kw, got=r["diag"])
    if cls == "sq":
        if nu == nl and not r["pc"]:
            return sh.violate("particle conservation misreported", request=kw)
        want = not any(x[0] in "cC" for x in u) and not any(x[0] in "vV" for x in l) and not all(x[0] in "aA" for x in u + l)
        if r["posex"] != want:
            return sh.violate("possible excitation misreported", request=kw, got=r["posex"])
    if "cons" in kw:
        got = sorted((tuple(a), tuple(b_)) for a, b_ in r["cases"])
        want = []
        for x in product((0, 1), repeat=nu):
            for y in product((0, 1), repeat=nl):
                if not kw["cons"] or sum(x) == sum(y):
                    want.append((tuple(i.upper() if k else i for i, k in zip(u, x)), tuple(i.upper() if k else i for i, k in zip(l, y))))
        sh.count("pair_spin_cases", len(got))
        if got != sorted(want):
            return sh.violate("spin cases of a pair are wrong", request=kw, got=len(got), expected=len(want))
    if "parts" in kw:
        fu, fl = forms(u, pu, ty), forms(l, pl, ty)
        want = {}
        for a, x in fu.items():
            for b_, y in fl.items():
                want[(a, b_) if kw["cf"] else (b_, a)] = x * y
        got, agot = {}, {}
        for s_, a, b_ in r["forms"]:
            if (a, b_) in got:
                return sh.violate("permutation form of an operator listed twice", request=kw, form=[a, b_])
            got[(a, b_)] = s_
        for s_, t in r["aforms"]:
            agot[t] = s_
        sh.count("pair_forms", len(got))
        if got != want or agot != {'["%s,%s"]' % k: v for k, v in want.items()} or len(r["aforms"]) != len(want):
            return sh.violate("permutation forms of an operator or their signs are wrong", request=kw, got=len(got), expected=len(want),
                              wrong=[[k, got.get(k), want.get(k)] for k in list(want) + list(got) if got.get(k) != want.get(k)][:5])
        c = cu * cl if anti else 1
        if r["n"] != c or r["latex"][0] != c or r["exist"] != (anti and (len(pu) > 1 or len(pl) > 1)):
            return sh.violate("stated number of permutations of an operator is wrong", request=kw, expected=c, got=[r["n"], r["exist"], r["latex"]])
    if "bsgs" in kw:
        n = nu + nl + 2
        gens = [tuple(g) for g in r["gens"]]
        if any(sorted(g) != list(range(n)) for g in gens):
            return sh.violate("generator is not a permutation of the slots and the two sign points", request=kw, gens=gens)
        G = closure(gens, n)
        W = allowed(nu, nl, anti, herm, ident)
        sh.count("groups")
        sh.count("hermitian_groups", herm and not ident)
        sh.count("group_elements", len(G))
        sh.top("group_order", len(G))
        if G != W:
            return sh.violate("symmetry group of a pair is not the allowed one", request=kw, order=len(G), expected=len(W), missing=[list(x) for x in W - G][:3], extra=[list(x) for x in G - W][:3])
        st = G
        for i in range(len(r["base"]) + 1):
            fixed = r["base"][:i]
            st = {g for g in G if all(g[k] == k for k in fixed)}
            if closure([g for g in gens if all(g[k] == k for k in fixed)], n) != st:
                return sh.violate("generating set is not strong with respect to its base", request=kw, base=r["base"], gens=gens)
        if len(st) != 1:
            return sh.violate("base does not determine the group elements", request=kw, base=r["base"], gens=gens)
    sh.evaluated(key=kw, nontrivial=max(nu, nl) > 1, sample=dict(request=kw, sign=r["sign"], gens=r.get("gens")))


def shard(sh):
    rng = sh.rng
    while not sh.over():
        if rng.random() < 0.5:
            do_list(sh, rng)
        else:
            do_pair(sh, rng)
        if sh.violations:
            return
