"""C11: the LaTeX text is read back by an independent parser and compared with the terms."""
import json, re
from collections import Counter
from fractions import Fraction
from math import factorial
from vlib import terms
from checks.c09 import random_list, diagonal

RULE = ("random lists of terms (spin-orbital, spin-integrated, spin-adapted; canonical and as given) are printed term by term with "
        "all LaTeX options and as a list; the text is parsed back (coefficient, permutation symbols, tensors, operator, index "
        "order).  Non-trivial: the list has a term with at least two tensors")
ASSUMPTIONS = ["coefficients are compared to the 1e-9 resolution of the printed fractions",
               "permutation form is judged for canonical terms without diagonal indices"]
BUDGET = {"quick": 20, "thorough": 400}
MIN_NONTRIVIAL = {"quick": 150, "thorough": 3000}
MIN_OBSERVED = {"so": 80, "si": 30, "sa": 30, "texts": 3000, "permutation_symbols": 400, "align_blocks": 300, "shared_blocks": 60,
                "scalars": 40, "given_order": 30, "repeated_terms": 20}

IDX = r"[gphcavGPHCAV]_\{\d+\}"
FAC = re.compile(r"\s*([A-Za-z]+)\^\{((?:\s*%s)*)\s*\}_\{((?:\s*%s)*)\s*\}" % (IDX, IDX))
PRM = re.compile(r"\s*\{\\cal P\}\s*\(([^()]*)\)")
COF = re.compile(r"\s*(-?\d+)(?:/(\d+))?(?=\s|$)")


def idx(s):
    return [x[0] + x[3:-1] for x in re.findall(IDX, s)]


def parse(s):
    """-> dict or None"""
    m = COF.match(s)
    if not m:
        return None
    r = {"c": Fraction(int(m.group(1)), int(m.group(2) or 1)), "P": [], "t": [], "amp": 0, "bs": False}
    s = s[m.end():]
    m = re.match(r"\s*&", s)
    if m:
        r["amp"] = 1
        s = s[m.end():]
    while True:
        m = PRM.match(s)
        if not m:
            break
        r["P"].append([idx(b) for b in m.group(1).split("/")])
        if any(re.sub(IDX, "", b).strip() for b in m.group(1).split("/")):
            return None
        s = s[m.end():]
    while True:
        m = FAC.match(s)
        if not m:
            break
        r["t"].append([m.group(1), idx(m.group(2)), idx(m.group(3))])
        s = s[m.end():]
    s = s.strip()
    if s == "\\\\":
        r["bs"] = True
        s = ""
    if s:
        return None
    r["op"] = [[], []]
    if r["t"] and r["t"][-1][0] == "a":
        r["op"] = r["t"].pop()[1:]
    return r


def count(P):
    n = 1
    for blocks in P:
        f = factorial(sum(len(b) for b in blocks))
        for b in blocks:
            f //= factorial(len(b))
        n *= f
    return n


def norm(x):
    return x[0] + str(int(x[1:]))


def body(t):
    return [[[nm, [norm(x) for x in u], [norm(x) for x in l]] for k, nm, u, l in t["t"]], [[norm(x) for x in g] for g in t["op"]]]


def mismatch(t, p):
    """None, or a description of how the parsed text differs from the term"""
    if p is None:
        return "text cannot be read back"
    if body(t) != [p["t"], p["op"]]:
        return "tensors, operator or index order differ"
    n = count(p["P"])
    if abs(float(p["c"]) * n - t["c"]) > 2e-9 * n * (1 + abs(t["c"])):
        return "coefficient differs: %s times %d permutations, term has %r" % (p["c"], n, t["c"])
    return None


def bad_perm(t, p):
    """the permutation symbols must make the result antisymmetric in all creators and all annihilators"""
    if t["ty"] == "sa":
        return "permutation symbol for spin-free indices" if p["P"] else None
    groups = [[norm(x) for x in g] for g in t["op"]]
    used = [None, None]
    for blocks in p["P"]:
        s = sorted(x for b in blocks for x in b)
        w = [i for i in (0, 1) if s == sorted(groups[i]) and used[i] is None]
        if not w:
            return "permutation symbol does not cover all creators or all annihilators"
        used[w[0]] = blocks
    sides = [{norm(x) for x in g} for k, nm, u, l in t["t"] for g in (u, l)]
    for i in (0, 1):
        blocks = used[i] or [groups[i]]
        for b in blocks:
            if len(b) > 1 and not any(set(b) <= s for s in sides):
                return "indices %s are not antisymmetric but share a block" % b
    return None


def shard(sh):
    rng = sh.rng
    while not sh.over():
        ty = rng.choice(["so", "so", "si", "sa"])
        ts = random_list(rng, ty, False)
        if not ts:
            continue
        for t in ts:
            if rng.random() < 0.1:
                t["c"] = round(rng.uniform(-3, 3), 6)
        combine = rng.random() < 0.8
        if not combine:                     # the same term twice, with equal or different coefficients
            t = dict(rng.choice(ts))
            if rng.random() < 0.3:
                t["c"] = terms.rand_coeff(rng)
            ts.insert(rng.randrange(len(ts) + 1), t)
        canon = rng.random() < 0.8
        opts = [{"permute_format": p, "delimiter": d, "backslash": b, "dollar": o}
                for p in (True, False) for d in (True, False) for b in (True, False) for o in (True, False)]
        jobs = ["latex"] + ["latex" + json.dumps(o) for o in rng.sample(opts, 3)] + ["pieces"] + (["print_latex"] if canon else [])
        r = sh.need("emit", terms=ts, jobs=jobs, canon=canon, combine=combine)
        if r is None:
            continue
        judge(sh, ts, ty, canon, jobs, r)


def judge(sh, ts, ty, canon, jobs, r):
    out = r["terms"]
    if not out:
        return
    req = dict(terms=ts, printed=out, canon=canon)
    sh.count(ty)
    sh.count("scalars", any(not t["op"][0] for t in out))
    sh.count("given_order", not canon)
    sh.top("terms_in_list", len(out))
    sh.evaluated(key=[out, canon], nontrivial=any(len(t["t"]) > 1 for t in out),
                 sample=dict(request=req, text=r["latex"][:3]))
    for j in jobs:
        if not j.startswith("latex"):
            continue
        o = json.loads(j[5:]) if len(j) > 5 else {}
        for t, text in zip(out, r[j]):
            sh.count("texts")
            s = text
            if o.get("dollar"):
                if not (s.startswith("$") and s.endswith("$") and s.count("$") == 2):
                    return sh.violate("math-mode delimiters are wrong", request=req, options=o, text=text, term=t)
                s = s[1:-1]
            elif "$" in s:
                return sh.violate("unrequested math-mode delimiters", request=req, options=o, text=text, term=t)
            p = parse(s)
            why = mismatch(t, p)
            if why is None and p["P"] and not o.get("permute_format", True):
                why = "permutation symbols although not requested"
            if why is None and (bool(p["amp"]) != bool(o.get("delimiter")) or p["bs"] != bool(o.get("backslash"))):
                why = "alignment marks do not match the options"
            if why is None and canon and o.get("permute_format", True) and not diagonal(t):
                sh.count("permutation_symbols", len(p["P"]))
                why = bad_perm(t, p)
            if why:
                return sh.violate(why, request=req, options=o, text=text, term=t)
    for t, p in zip(out, r["pieces"]):
        for x, s, sd in zip(t["t"], p["tensors"], p["tensors_d"]):
            m = FAC.match(s)
            if not m or m.end() != len(s) or [m.group(1), idx(m.group(2)), idx(m.group(3))] != [x[1], [norm(i) for i in x[2]], [norm(i) for i in x[3]]] \
                    or sd.replace(" ", "") != "$" + s.replace(" ", "") + "$":
                return sh.violate("LaTeX of a tensor is not the tensor", request=req, tensor=x, text=[s, sd])
        for nm, s, sd in p["idx"]:
            if idx(s) != [norm(nm)] or sd != "$" + s + "$":
                return sh.violate("LaTeX of an index is not the index", request=req, index=nm, text=[s, sd])
    if "print_latex" in r:
        listing(sh, req, out, r["print_latex"])


def block_of(cre, ann):
    return "".join(x[0] for x in ann) + "|" + "".join(x[0] for x in cre)


def listing(sh, req, out, text):
    envs, cur = [], None
    for line in text.split("\n"):
        s = line.strip()
        if not s:
            continue
        if s == "\\begin{align}":
            if cur is not None:
                return sh.violate("nested align environment", request=req, text=text)
            cur = []
        elif s == "\\end{align}":
            if cur is None:
                return sh.violate("align environment closed twice", request=req, text=text)
            envs.append(cur)
            cur = None
        elif cur is None:
            return sh.violate("term printed outside align environment", request=req, text=text)
        else:
            cur.append(s)
    if cur is not None:
        return sh.violate("align environment not closed", request=req, text=text)
    sh.count("align_blocks", len(envs))
    left = Counter(json.dumps(body(t)) for t in out)
    by = {}
    for t in out:
        by.setdefault(json.dumps(body(t)), []).append(t)
    sh.count("repeated_terms", any(len(v) > 1 for v in by.values()))
    seen = set()
    for env in envs:
        blocks = set()
        rows = [x for x in "\n".join(env).split("\\\\")]
        if not env or len(rows) != len(env):
            return sh.violate("rows of an align environment are not separated properly", request=req, text="\n".join(env))
        sh.count("shared_blocks", len(rows) > 1)
        for row in rows:
            p = parse(row.replace("\n", " "))
            if p is None or not p["amp"]:
                return sh.violate("row of an align environment cannot be read", request=req, text=row)
            key = json.dumps([p["t"], p["op"]])
            if left.get(key, 0) < 1:
                return sh.violate("listing shows a term that is not in the list or shows it twice", request=req, text=row)
            left[key] -= 1
            whys = [mismatch(t, p) for t in by[key]]
            why = whys[0]
            if None in whys:
                by[key].pop(whys.index(None))
            else:
                return sh.violate("listing: " + why, request=req, text=row)
            blocks.add(block_of(*p["op"]))
        if len(blocks) != 1 or blocks & seen:
            return sh.violate("listing is not grouped by operator block", request=req, text=text)
        seen |= blocks
    if any(left.values()):
        return sh.violate("listing omits terms", request=req, text=text, missing=[k for k, v in left.items() if v])
