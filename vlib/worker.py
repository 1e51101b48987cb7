"""Runs under the repository's interpreter (PyPy), imports the code under test from /repo, executes commands
through its public functions and records what came back.  One JSON request per line on stdin, one JSON event
per line on the saved stdout.  No verdicts are taken here: this is the event recorder."""
import sys, os, io, json, traceback, contextlib, tempfile, shutil, random, time, functools

_out = os.fdopen(os.dup(1), "w")
_devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(_devnull, 1)

import dsrg_generator  # noqa: F401
from dsrg_generator.Index import Index
from dsrg_generator.Indices import Indices
from dsrg_generator.IndicesPair import IndicesPair
from dsrg_generator.Tensor import Tensor
from dsrg_generator.SQOperator import SecondQuantizedOperator
import dsrg_generator.Term
from dsrg_generator.Term import Term
TermMod = sys.modules["dsrg_generator.Term"]
from dsrg_generator import sqop_contraction as sqc
from dsrg_generator import phys_op_contraction as poc

KIND = {}
for _k, _reg in (("L", "cumulant"), ("C", "hole_density"), ("K", "Kronecker"), ("T", "cluster_amplitude"),
                 ("H", "HamiltonianTensor")):
    KIND[_k] = Tensor.make_tensor(_reg, ["a0"], ["a1"], "so").__class__
TYPES = {"so": Indices.make_indices([], "so").__class__, "si": Indices.make_indices([], "si").__class__,
         "sa": Indices.make_indices([], "sa").__class__, "as": Indices.make_indices([], "asymm").__class__}


def kind_of(t):
    for k, c in KIND.items():
        if isinstance(t, c):
            return k
    return "X"


def type_of(p):
    for k, c in TYPES.items():
        if p.indices_type is c:
            return k
    return "?"


def d_tensor(t):
    return [kind_of(t), t.name, [i.name for i in t.upper_indices], [i.name for i in t.lower_indices]]


def d_op(o):
    return [[i.name for i in o.cre_ops], [i.name for i in o.ann_ops]]


def d_term(t):
    return {"c": t.coeff, "t": [d_tensor(x) for x in t.list_of_tensors], "op": d_op(t.sq_op), "ty": type_of(t.sq_op)}


def b_tensor(d, ty):
    k, name, u, l = d
    if name is None:
        return Tensor.make_tensor(k, list(u), list(l), ty)
    return Tensor.make_tensor(k, list(u), list(l), ty, name)


def b_op(d, ty="so"):
    return SecondQuantizedOperator(list(d[0]), list(d[1]), ty)


def b_term(d):
    ty = d.get("ty", "so")
    return Term([b_tensor(x, ty) for x in d["t"]], b_op(d["op"], ty), d["c"])


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


@contextlib.contextmanager
def captured():
    old = sys.stdout
    s = io.StringIO()
    sys.stdout = s
    try:
        yield s
    finally:
        sys.stdout = old


@op
def ping(a):
    return {"file": dsrg_generator.__file__}


@op
def contractions(a):
    ops = [b_op(o) for o in a["ops"]]
    kw = a.get("kw", {})
    out = []
    nb = 0
    for batch in sqc.compute_operator_contractions(ops, **kw):
        nb += 1
        for sign, dens, o in batch:
            out.append([sign, [d_tensor(x) for x in dens], d_op(o)])
    after = [d_op(o) for o in ops]
    return {"con": out, "batches": nb, "ops_after": after}


@op
def canon(a):
    """apply a chain of canonicalization calls, each on a fresh build of the term"""
    res = []
    for job in a["jobs"]:
        d, how, kw = job[:3]
        try:
            t = b_term(d)
        except Exception as e:
            res.append({"builderr": type(e).__name__ + ": " + str(e)[:200]})
            continue
        try:
            if how == "simplify":
                t.simplify(**kw)
                ev = {"r": d_term(t), "void": t.is_void()}
                if len(job) > 3:      # a further call on the same object
                    t2 = t
                    if job[3] == "simplify":
                        t.simplify(**kw)
                    else:
                        t2 = getattr(t, job[3])(**kw)
                    ev["again"] = d_term(t2)
                res.append(ev)
            else:
                r = getattr(t, how)(**kw)
                ev = {"r": d_term(r), "void": r.is_void(), "self": d_term(t)}
                if a.get("twice"):
                    r2 = getattr(r.void() if r.is_void() else b_term(d_term(r)), how)(**kw)
                    ev["r2"] = d_term(r2)
                    ev["eq2"] = bool(r2 == r)
                res.append(ev)
        except Exception as e:
            res.append({"err": type(e).__name__ + ": " + str(e)[:300]})
    return {"res": res}


@op
def combine(a):
    terms = [b_term(d) for d in a["terms"]]
    out = poc.combine_terms(terms)
    cmp_ok = all(out[i] <= out[i + 1] for i in range(len(out) - 1))
    return {"out": [d_term(t) for t in out], "sorted": cmp_ok,
            "pair_eq": [[i, j] for i in range(min(len(out), 40)) for j in range(i) if out[i].almost_equal(out[j])]}


@op
def product(a):
    terms = [b_term(d) for d in a["terms"]]
    out = poc.contract_terms(terms, **a.get("kw", {}))
    if a.get("repeat"):
        first = [d_term(t) for t in out]
        out = poc.contract_terms(terms, **a.get("kw", {}))
        return {"out": [d_term(t) for t in out], "first": first, "after": [d_term(t) for t in terms]}
    return {"out": [d_term(t) for t in out], "after": [d_term(t) for t in terms]}


@op
def commutator(a):
    l, r = b_term(a["left"]), b_term(a["right"])
    out = poc.single_commutator(l, r, **a.get("kw", {}))
    if a.get("repeat"):
        first = [d_term(t) for t in out]
        out = poc.single_commutator(l, r, **a.get("kw", {}))
        return {"out": [d_term(t) for t in out], "first": first, "after": [d_term(l), d_term(r)]}
    return {"out": [d_term(t) for t in out], "after": [d_term(l), d_term(r)]}


@op
def lincomm(a):
    left = [b_term(d) for d in a["left"]]
    if a.get("amp"):
        out = poc.linear_commutator_amp(left, **a["kw"])
        right = []
    else:
        right = [b_term(d) for d in a["right"]]
        out = poc.linear_commutator(left, right, **a["kw"])
    return {"out": [d_term(t) for t in out], "after": [[d_term(t) for t in left], [d_term(t) for t in right]]}


@op
def nested(a):
    return {"out": [d_term(t) for t in poc.nested_commutator_cc(**a["kw"])]}


@op
def bch(a):
    kw = dict(a["kw"])
    if isinstance(kw["n_opens"], dict):
        kw["n_opens"] = tuple(kw["n_opens"]["all"])
    else:
        kw["n_opens"] = [tuple(x) for x in kw["n_opens"]]
    r = poc.bch_cc_rsc(**kw)
    return {"out": {str(k): [d_term(t) for t in v] for k, v in r.items()}}


@op
def rsc(a):
    kw = dict(a["kw"])
    if isinstance(kw["n_opens"], dict):
        kw["n_opens"] = tuple(kw["n_opens"]["all"])
    else:
        kw["n_opens"] = [tuple(x) for x in kw["n_opens"]]
    terms = [b_term(d) for d in a["terms"]]
    r = poc.recursive_single_commutator(terms, **kw)
    return {"out": {str(k): [d_term(t) for t in v] for k, v in r.items()}, "after": [d_term(t) for t in terms]}


@op
def emit(a):
    """canonicalize the given terms, then emit text through the requested functions"""
    terms = [b_term(d) for d in a["terms"]]
    if a.get("canon", True):
        terms = [t.canonicalize() for t in terms]
        terms = [t for t in terms if not t.is_void()]
        if a.get("combine", True):
            terms = poc.combine_terms(terms)
    res = {"terms": [d_term(t) for t in terms]}
    for j in a["jobs"]:
        if j == "print_ambit":
            with captured() as s:
                poc.print_terms_ambit(terms)
            res[j] = s.getvalue()
        elif j == "print_latex":
            with captured() as s:
                poc.print_terms_latex(terms)
            res[j] = s.getvalue()
        elif j.startswith("ambit"):
            kw = json.loads(j[5:]) if len(j) > 5 else {}
            res[j] = [t.ambit(**kw) for t in terms]
        elif j.startswith("latex"):
            kw = json.loads(j[5:]) if len(j) > 5 else {}
            res[j] = [t.latex(**kw) for t in terms]
        elif j == "pieces":
            res[j] = [{"tensors": [x.latex() for x in t.list_of_tensors],
                       "tensors_d": [x.latex(dollar=True) for x in t.list_of_tensors],
                       "op": t.sq_op.latex(), "repr": repr(t), "idx": [[i.name, i.latex(), i.latex(True)] for i in sorted(t.indices_set)]}
                      for t in terms]
        elif j == "categorize":
            r = poc.categorize_contractions(terms)
            res[j] = {b: {p: [d_term(t) for t in ts] for p, ts in pp.items()} for b, pp in r.items()}
        else:
            raise ValueError(j)
    res["after"] = [d_term(t) for t in terms]
    return res


@op
def files(a):
    from dsrg_generator import write_forte_functions as wf
    terms = [b_term(d) for d in a["terms"]]
    terms = [t.canonicalize() for t in terms]
    terms = [t for t in terms if not t.is_void()]
    if a.get("combine", True):
        terms = poc.combine_terms(terms)
    res = {"terms": [d_term(t) for t in terms]}
    if not terms:
        return res
    d = tempfile.mkdtemp(prefix="vf_files_")
    try:
        if a["what"] == "functions":
            wf.save_terms_ambit_functions(terms, a["func"], a["ns"], d, **a.get("kw", {}))
        else:
            cat = poc.categorize_contractions(terms)
            blocks = list(cat.keys())
            wf.save_direct_t3(cat[blocks[0]], a["func"], a["ns"], d)
            res["blocks"] = blocks
        res["files"] = {}
        for f in sorted(os.listdir(d)):
            with open(os.path.join(d, f)) as fh:
                res["files"][f] = fh.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


@op
def spin(a):
    t = b_term(a["term"])
    out = [d_term(x) for x in t.generate_spin_cases_naive()]
    return {"out": out, "after": d_term(t)}


@op
def singlet(a):
    t = b_term(a["term"])
    out = [d_term(x) for x in t.generate_singlet_adaptation(**a.get("kw", {}))]
    return {"out": out, "after": d_term(t)}


@op
def blocks(a):
    t = b_term(a["term"])
    how = a["how"]
    args = a.get("args", [])
    r = getattr(t, how)(*args)
    if how == "make_excitation":
        r = [r]
    return {"out": [d_term(x) for x in r], "after": d_term(t)}


@op
def builder(a):
    f = getattr(TermMod, a["f"], None) or getattr(poc, a["f"])
    r = f(*a.get("args", []), **a.get("kw", {}))
    if not isinstance(r, list):
        r = [r]
    return {"out": [d_term(x) for x in r]}


@op
def gradient(a):
    t = b_term(a["term"])
    try:
        out = [d_term(x) for x in t.gradient_t()]
    except NotImplementedError as e:
        return {"refused": str(e), "after": d_term(t)}
    return {"out": out, "after": d_term(t)}


def d_path(p):
    if p is None:
        return None
    if isinstance(p, Tensor):
        return d_tensor(p)
    return {"pair": [d_path(x) for x in p]}


def d_cost(c):
    return {"raw": dict(c.raw_counter), "parsed": list(c.parsed_counter), "tot": c.overall_scaling, "s": str(c)}


@op
def cost(a):
    t = b_term(a["term"])
    res = {"term": d_term(t)}
    if a.get("paths"):
        res["paths"] = [[d_cost(x), d_cost(y), d_path(p)] for x, y, p in t.contraction_paths()]
    (c, pc), (s, ps) = t.optimal_contraction_cost()
    res["opt"] = [[d_cost(c), d_path(pc)], [d_cost(s), d_path(ps)]]
    return res


# ---- object-level requests (ordering, validation, index algebra, helpers) ------------------------------

def b_obj(d):
    k = d[0]
    if k == "index":
        return Index(d[1])
    if k == "indices":
        return Indices.make_indices(d[2], d[1])
    if k == "pair":
        return IndicesPair(d[2], d[3], d[1])
    if k == "sq":
        return SecondQuantizedOperator(d[2], d[3], d[1])
    if k == "tensor":
        return Tensor.make_tensor(d[4], d[2], d[3], d[1], *([d[5]] if len(d) > 5 and d[5] else []))
    if k == "btensor":
        return Tensor(d[2], d[3], d[1], *d[4:])
    if k == "term":
        return b_term(d[1])
    if k == "mterm":        # every factor with its own index type: [coeff, op type, op, [[tensor, type], ...]]
        return Term([b_tensor(x, y) for x, y in d[4]], b_op(d[3], d[2]), d[1])
    if k == "mpair":        # upper and lower lists with their own index types
        u, l = Indices.make_indices(d[2], d[1]), Indices.make_indices(d[4], d[3])
        return {"pair": IndicesPair, "sq": SecondQuantizedOperator, "tensor": Tensor}[d[5]](u, l)
    if k == "opterm":       # the operator slot holds something else
        return Term([b_tensor(x, d[1]) for x in d[2]], b_obj(d[3]) if isinstance(d[3], list) else d[3])
    if k == "tsterm":       # the tensor list holds something else
        return Term([b_obj(x) if isinstance(x, list) else x for x in d[2]], b_op(d[3], d[1]))
    raise KeyError(k)


@op
def compare(a):
    objs = [b_obj(d) for d in a["objs"]]
    n = len(objs)
    m = []
    for x in objs:
        row = []
        for y in objs:
            row.append("".join("1" if v else "0" for v in (x < y, x <= y, x == y, x != y, x > y, x >= y)))
        m.append(row)
    h = [str(hash(x)) for x in objs]
    srt = sorted(range(n), key=lambda i: objs[i])
    mn = min(range(n), key=lambda i: objs[i])
    return {"m": m, "h": h, "sorted": srt, "min": mn, "setsize": len(set(objs))}


@op
def construct(a):
    res = []
    for d in a["objs"]:
        try:
            o = b_obj(d)
            ev = {"ok": True, "repr": repr(o)}
            if d[0] == "index":
                ev["d"] = [o.name, o.space, o.number, o.is_beta()]
            elif d[0] == "indices":
                ev["d"] = [[i.name for i in o], o.size, len(o), sorted(i.name for i in o.indices_set)]
            elif d[0] in ("pair", "tensor", "btensor"):
                ev["d"] = [[i.name for i in o.upper_indices], [i.name for i in o.lower_indices], o.size]
            elif d[0] == "sq":
                ev["d"] = [[i.name for i in o.cre_ops], [i.name for i in o.ann_ops], o.n_ops]
            elif d[0] == "term":
                ev["d"] = d_term(o)
            res.append(ev)
        except Exception as e:
            res.append({"ok": False, "err": type(e).__name__, "msg": str(e)[:120]})
    return {"res": res}


@op
def mixcompare(a):
    """comparison between objects of different kinds: must raise"""
    res = []
    for x, y in a["pairs"]:
        x, y = b_obj(x), (b_obj(y) if isinstance(y, list) else y)
        r = []
        for f in ("__lt__", "__le__", "__eq__", "__ne__", "__gt__", "__ge__"):
            try:
                v = getattr(x, f)(y)
                r.append("val:" + repr(v)[:20])
            except Exception as e:
                r.append(type(e).__name__)
        res.append(r)
    return {"res": res}


@op
def idxalg(a):
    ty, names = a["ty"], a["names"]
    x = Indices.make_indices(names, ty)
    c, s = x.canonicalize()
    res = {"canon": [i.name for i in c], "sign": s, "self": [i.name for i in x]}
    if "perm" in a:
        y = Indices.make_indices(a["perm"], ty)
        res["count"] = int(x.count_permutations(y))
        res["isperm"] = bool(x.is_permutation(y))
        res["overlap"] = bool(x.any_overlap(y))
    if "part" in a:
        part = [[Index(n) for n in b] for b in a["part"]]
        res["n"] = int(x.n_multiset_permutation(part))
        res["exist"] = bool(x.exist_permute_format(part))
        res["forms"] = [[int(s_), t_] for s_, t_ in x.ambit_permute_format(part)]
        n_, t_ = x.latex_permute_format(part)
        res["latex"] = [int(n_), t_]
    if "nb" in a:
        res["cases"] = [[i.name for i in z] for z in (x.generate_spin_cases() if a["nb"] is None else x.generate_spin_cases(a["nb"]))]
    if "spaces" in a:
        res["cnt"] = x.count_index_space(a["spaces"])
    if "other" in a:
        y = Indices.make_indices(a["other"], ty)
        try:
            z = x + y
            res["sum"] = [i.name for i in z]
        except ValueError:
            res["sum"] = None
        res["overlap2"] = bool(x.any_overlap(y))
    if ty == "si":
        res["spin"] = [[i.name for i in x.alpha_indices], [i.name for i in x.beta_indices], list(x.spin_count), bool(x.spin_pure)]
    return res


@op
def pairalg(a):
    ty = a["ty"]
    cls = a.get("cls", "pair")
    if cls == "pair":
        p = IndicesPair(a["u"], a["l"], ty)
    elif cls == "sq":
        p = SecondQuantizedOperator(a["u"], a["l"], ty)
    else:
        p = Tensor.make_tensor(cls, a["u"], a["l"], ty)
    q, s = p.canonicalize()
    res = {"canon": [[i.name for i in q.upper_indices], [i.name for i in q.lower_indices]], "sign": s}
    if cls == "sq":
        if p.n_cre == p.n_ann:
            res["pc"] = bool(p.is_particle_conserving())
        res["posex"] = bool(p.is_possible_excitation())
    res["diag"] = sorted(i.name for i in p.diagonal_indices())
    if "cons" in a:
        res["cases"] = [[[i.name for i in z.upper_indices], [i.name for i in z.lower_indices]]
                        for z in p.generate_spin_cases(a["cons"])]
    if "bsgs" in a:
        base, gens = p.base_strong_generating_set(**a["bsgs"])
        res["base"] = [int(b) for b in base]
        res["gens"] = [[int(v) for v in g.array_form] for g in gens]
    if "parts" in a:
        pu = [[Index(n) for n in b] for b in a["parts"][0]]
        pl = [[Index(n) for n in b] for b in a["parts"][1]]
        res["n"] = int(p.n_multiset_permutation(pu, pl))
        res["exist"] = bool(p.exist_permute_format(pu, pl))
        res["forms"] = [[int(s_), x_, y_] for s_, x_, y_ in p.permute_indices(pu, pl, cre_first=a["cf"])]
        res["aforms"] = [[int(s_), x_] for s_, x_ in p.ambit_permute_format(pu, pl, cre_first=a["cf"])]
        n_, t_, o_ = p.latex_permute_format(pu, pl)
        res["latex"] = [int(n_), t_, o_]
    if "sing" in a:
        rep = {Index(k): Index(v) for k, v in a["sing"].items()}
        res["singlet"] = [[int(s_), [i.name for i in u_], [i.name for i in l_]]
                          for s_, u_, l_ in p.generate_singlet_adaptation(rep, a["am"])]
    return res


@op
def helpers(a):
    from dsrg_generator.helper.integer_partition import integer_partition, integer_separation
    from dsrg_generator.mo_space import MOSpaceCounter, find_space_label
    w = a["what"]
    if w == "partition":
        return {"r": [list(x) for x in integer_partition(a["n"])]}
    if w == "separation":
        return {"r": [list(x) for x in integer_separation(a["n"], a["z"])]}
    if w == "downgrade":
        return {"r": [b_tensor(x, ty).downgrade_indices() for x, ty in a["tensors"]]}
    if w == "label":
        return {"r": find_space_label(set(a["s"]))}
    if w == "counter":
        res = []
        for x, y in a["pairs"]:
            X, Y = MOSpaceCounter(dict(x)), MOSpaceCounter(dict(y))
            res.append([d_cost(X), d_cost(Y), [bool(v) for v in (X < Y, X <= Y, X == Y, X != Y, X > Y, X >= Y)]])
        return {"r": res}
    if w == "counter_bad":
        try:
            MOSpaceCounter(dict(a["d"]))
            return {"r": "ok"}
        except ValueError:
            return {"r": "ValueError"}
    if w == "space":
        import SpaceCounter as SC
        res = []
        objs = []
        for x, y in a["pairs"]:
            s = SC.SpaceCounter(b_obj(x), b_obj(y))
            objs.append(s)
            t = s.transpose()
            res.append({"u": s.upper, "l": s.lower, "nu": s.n_upper, "nl": s.n_lower, "size": s.size, "s": str(s),
                        "tu": t.upper, "tl": t.lower, "tnu": t.n_upper, "tnl": t.n_lower})
        m = []
        for x in objs:
            row = []
            for y in objs:
                try:
                    row.append("".join("1" if v else "0" for v in (x < y, x <= y, x == y, x != y, x > y, x >= y)))
                except ValueError:
                    row.append("ValueError")
            m.append(row)
        return {"r": res, "m": m}
    raise KeyError(w)


def queries(t):
    return {"n": t.n_tensors, "nb": t.n_body, "idx": sorted(i.name for i in t.indices_set), "void": bool(t.is_void()),
            "diag": sorted(i.name for i in t.diagonal_indices), "next": dict(t.next_index_number)}


@op
def copies(a):
    """copies of an object, with and without conjugation / sign flip, and what shows in the one when the other is changed"""
    if a["what"] == "object":
        o = b_obj(a["obj"])
        dump = (lambda x: [i.name for i in x]) if a["obj"][0] == "indices" else \
            (lambda x: [[i.name for i in x.upper_indices], [i.name for i in x.lower_indices]])
        extra = (lambda x: [x.name, x.priority]) if a["obj"][0] in ("tensor", "btensor") else (lambda x: [])
        c = o.clone()
        res = {"o": dump(o), "c": dump(c), "same_type": type(c) is type(o), "eq": bool(c == o), "new": c is not o, "xo": extra(o), "xc": extra(c),
               "heq": hash(c) == hash(o)}
        if a["obj"][0] in ("pair", "sq"):
            h = o.clone(hc=True)
            res.update(h=dump(h), h_type=type(h) is type(o), hh=dump(h.clone(hc=True)), ity=type_of(h) == type_of(o))
        if a["obj"][0] in ("tensor", "btensor"):
            f = o.from_indices(Indices.make_indices(a["nu"], a["ty"]), Indices.make_indices(a["nl"], a["ty"]))
            res.update(f=dump(f), f_type=type(f) is type(o), xf=extra(f), ity=type_of(f) == type_of(o))
            g, sg = o.canonicalize()
            res.update(g_type=type(g) is type(o), xg=extra(g))
            if a["ty"] == "so":
                res["xs"] = [[type(z) is type(o)] + extra(z) for z in o.generate_spin_cases(o.n_upper == o.n_lower)][:20]
        if a["obj"][0] != "indices":
            res.update(size=o.size, nu=o.n_upper, nl=o.n_lower, set=sorted(i.name for i in o.indices_set), all=[i.name for i in o.indices()],
                       rev=[i.name for i in o.indices(False)], empty=bool(o.is_empty()), sc=bool(o.is_spin_conserving()) if o.n_upper == o.n_lower else None)
        res["walk"] = []                         # one object traversed from two places at once
        for x in ([o] if a["obj"][0] == "indices" else [o.upper_indices, o.lower_indices]):
            w = []
            for n, i in enumerate(x):
                w.append([i.name, [j.name for j in x] if n < 8 else None])
                if n > 20:
                    break
            res["walk"].append(w)
        res["after"] = dump(o)
        return res
    t = b_term(a["term"])
    res = {"t": d_term(t), "q": queries(t), "copies": []}
    for fl in a["flags"]:
        c = Term.from_term(t, **fl)
        res["copies"].append({"c": d_term(c), "q": queries(c), "t": d_term(t), "eq": bool(c == t)})
    v, e = t.void(), Term.make_empty(a["term"]["ty"])
    res["void"], res["empty"] = [d_term(v), bool(v.is_void())], [d_term(e), bool(e.is_void())]
    c, keep = Term.from_term(t), Term.from_term(t)
    hist = []
    for step in a["steps"]:
        if step == "coeff":
            c.coeff = 7.5
        elif step == "void":
            c.void_self()
        elif not c.is_void():
            getattr(c, step)()
        hist.append({"t": d_term(t), "keep": d_term(keep), "c": d_term(c), "q": queries(c)})
    res["hist"] = hist
    t.coeff = -3.25
    res["keep2"] = d_term(keep)
    # the list a term is built from stays the caller's
    lst = [b_tensor(x, a["term"].get("ty", "so")) for x in a["term"]["t"]]
    ids = [id(x) for x in lst]
    u = Term(lst, b_op(a["term"]["op"], a["term"].get("ty", "so")), a["term"]["c"])
    res["list_kept"] = ids == [id(x) for x in lst]
    if not u.is_void():
        u.canonicalize_simple()
    res["list_kept2"] = ids == [id(x) for x in lst]
    u = Term(lst, b_op(a["term"]["op"], a["term"].get("ty", "so")), a["term"]["c"])
    w = d_term(u)
    lst.reverse()
    del lst[1:]
    res["list_own"] = [w, d_term(u)]
    return res


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + "/"] = None
        for x in fs:
            with open(os.path.join(d, x)) as f:
                out[os.path.relpath(os.path.join(d, x), root)] = f.read()
    return out


@op
def fileio(a):
    """write source files / enter directories inside a private tree, with by-standing and stale files, and record the whole tree"""
    import builtins
    from dsrg_generator import write_forte_functions as wf
    from dsrg_generator.helper.file_utils import ChangeDir, multi_gsub
    if a["what"] == "gsub":
        return {"text": multi_gsub(dict(a["subs"]), a["text"])}
    root = os.path.realpath(tempfile.mkdtemp(prefix="vf_io_"))
    old = os.getcwd()
    real_open = builtins.open
    opened = []

    def watched(file, mode="r", *x, **k):
        if isinstance(file, str) and any(c in mode for c in "wax+"):
            opened.append(os.path.realpath(file))
        return real_open(file, mode, *x, **k)
    res = {}
    try:
        for d in a["dirs"]:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for f, text in a["stale"].items():
            with real_open(os.path.join(root, f), "w") as h:
                h.write(text)
        os.chdir(os.path.join(root, a["cwd"]))
        cwd = os.getcwd()
        res["before"] = snapshot(root)
        builtins.open = watched
        err = None
        if a["what"] == "save":
            terms = poc.combine_terms([t for t in (b_term(d).canonicalize() for d in a["terms"]) if not t.is_void()])
            res["terms"] = [d_term(t) for t in terms]
            path = os.path.join(root, a["target"]) if a["absolute"] else os.path.relpath(os.path.join(root, a["target"]), cwd)
            try:
                if a["t3"]:
                    cat = poc.categorize_contractions(terms)
                    if cat:
                        wf.save_direct_t3(cat[list(cat)[0]], a["func"], a["ns"], path)
                else:
                    wf.save_terms_ambit_functions(terms, a["func"], a["ns"], path, **a["kw"])
            except Exception as e:
                err = type(e).__name__ + ": " + str(e)[:200]
        else:
            log = []
            try:
                cms = []

                def enter(names):
                    if not names:
                        if a["fail"]:
                            raise RuntimeError("planned")
                        return
                    with ChangeDir(names[0]) as cd:
                        log.append([os.path.relpath(os.getcwd(), root), os.path.relpath(cd.get_cwd(), root)])
                        enter(names[1:])
                    log.append([os.path.relpath(os.getcwd(), root)])
                enter(a["names"])
            except Exception as e:
                err = type(e).__name__ + ": " + str(e)[:200]
            res["log"] = log
        builtins.open = real_open
        res.update(err=err, cwd=os.path.relpath(os.getcwd(), root), cwd0=os.path.relpath(cwd, root), after=snapshot(root),
                   opened=[os.path.relpath(x, root) for x in opened])
    finally:
        builtins.open = real_open
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)
    return res


def fp(x):
    return json.dumps(x, sort_keys=True)


@op
def history(a):
    """run a list of sub-requests in this process, in order, and return every event"""
    out = []
    for r in a["reqs"]:
        out.append(run(r["op"], r))
    return {"events": out}


@op
def pure(a):
    """call transformations that return new terms/text and report the inputs before and after"""
    res = []
    for name, d, args, kw in a["calls"]:
        t = b_term(d)
        before = d_term(t)
        r = getattr(t, name)(*args, **kw)
        if hasattr(r, "__next__"):
            r = list(r)
        res.append([name, before, d_term(t)])
    return {"res": res}


@op
def pure_list(a):
    """printing, classification and file emission of a list of terms: the list and its terms before and after"""
    from dsrg_generator import write_forte_functions as wf
    terms = [b_term(d) for d in a["terms"]]
    if a["canon"]:
        terms = [t.canonicalize() for t in terms]
        terms = [t for t in terms if not t.is_void()]
    res = []
    for f in a["jobs"]:
        before, ids = [d_term(t) for t in terms], [id(t) for t in terms]
        d = tempfile.mkdtemp(prefix="vf_pure_")
        try:
            with captured():
                if f == "save":
                    wf.save_terms_ambit_functions(terms, "f", "Ns", d, **a.get("kw", {}))
                elif f == "save_t3":
                    cat = poc.categorize_contractions(terms)
                    for b in cat:
                        if b == "cccvvv":
                            wf.save_direct_t3(cat[b], "f", "Ns", d)
                else:
                    getattr(poc, f)(terms)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        res.append([f, before, [d_term(t) for t in terms], ids == [id(t) for t in terms]])
    return {"res": res}


def slowed(f):
    @functools.wraps(f)
    def g(*x, **kw):
        time.sleep(random.random() * 0.003)
        return f(*x, **kw)
    return g


def inject_delays(seed):
    """schedule perturbation: random sleeps around per-item work, before any pool is forked"""
    for mod, name in ((poc, "multiprocessing_canonicalize_contractions"), (sqc, "process_composite_categorized"), (sqc, "process_composite_contractions")):
        f = getattr(mod, name, None)
        if callable(f):
            setattr(mod, name, slowed(f))


@op
def delays(a):
    inject_delays(a["seed"])
    return {}


def run(name, req):
    try:
        with captured():
            return {"ok": OPS[name](req)}
    except Exception as e:
        tb = traceback.format_exc().strip().split("\n")
        return {"exc": type(e).__name__, "msg": str(e)[:400], "tb": "\n".join(tb[-6:])[:900]}


@op
def sequence(a):
    """an index list as a sequence; the text forms of index, list, pair, operator, tensor, term"""
    res = {}
    ty, names = a["ty"], a["names"]
    forms = {"names": names, "tuple": tuple(names), "objects": [Index(n) for n in names], "text": ", ".join(names), "tight": ",".join(names)}
    res["forms"] = {}
    for k, f in forms.items():
        x = Indices.make_indices(f, ty)
        res["forms"][k] = {"iter": [i.name for i in x], "again": [i.name for i in x], "len": len(x), "size": x.size,
                           "at": [x[i].name for i in range(len(names))], "back": [x[-1 - i].name for i in range(len(names))],
                           "slices": [[i.name for i in x[b:e:s]] for b, e, s in a["slices"]],
                           "isin": [Index(n) in x for n in a["probe"]], "isin2": [n in x.indices_set for n in map(Index, a["probe"])],
                           "str": str(x), "ambit": x.ambit(), "latex": [x.latex(), x.latex(dollar=True)],
                           "nbeta": x.n_beta(), "nalpha": x.n_alpha() if ty == "si" else None}
    x = Indices.make_indices(names, ty)
    try:
        x[len(names)]
        res["beyond"] = True
    except IndexError:
        res["beyond"] = False
    res["round"] = bool(Indices.make_indices(str(x), ty) == x)
    res["mixed"] = [i.name for i in Indices.make_indices([Index(n) if k % 2 else n for k, n in enumerate(names)], ty)]
    res["flip"] = [[i.name, i.space, i.number, bool(i.is_beta()), i.to_beta().name, i.to_alpha().name, str(i), i.latex(), i.latex(dollar=True),
                    bool(i.to_beta().is_beta()), bool(i.to_alpha().is_beta())] for i in x]
    p = b_obj(a["obj"])
    res["obj"] = {"str": str(p), "n": [p.n_upper, p.n_lower], "amb": [p.ambit(), p.ambit(False), p.ambit(True)],
                  "dollar": p.latex(dollar=True) if a["obj"][0] != "pair" else None,
                  "nbody": p.n_body if p.n_upper == p.n_lower else None}
    if a["obj"][0] == "sq":
        res["obj"]["sq"] = [[i.name for i in p.cre_ops], [i.name for i in p.ann_ops], p.n_cre, p.n_ann, p.n_ops, bool(p.is_empty()), bool(p.is_particle_conserving())]
        e = p.void()
        res["obj"]["void"] = [e.n_ops, bool(e.is_empty()), type_of(e) == type_of(p)]
    if a["obj"][0] == "tensor" and a["obj"][4] == "T":
        res["obj"]["act"] = bool(p.is_all_active())
    ts = [b_term(t) for t in a["terms"]]
    res["terms"] = [[str(t), repr(t), bool(t.is_possible_excitation())] for t in ts]
    res["eq"] = [[bool(s == t) for t in ts] for s in ts]
    res["aeq"] = [[bool(s.almost_equal(t)) for t in ts] for s in ts]
    return res


def main():
    for line in sys.stdin:
        req = json.loads(line)
        if req["op"] == "quit":
            break
        ev = run(req["op"], req)
        _out.write(json.dumps(ev) + "\n")
        _out.flush()


if __name__ == "__main__":
    main()
