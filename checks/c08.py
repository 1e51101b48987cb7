"""C08: the same request under different process counts, batch sizes, schedules (injected delays), hash seeds and call
histories must give the same answer; inputs must come back unaltered."""
import json
from math import factorial
from vlib import gen, terms, numev, wick
from vlib.runner import Worker, WorkerTimeout
from checks.c06 import op_term, expansion
from checks.c07 import by_rank

RULE = ("random contraction, product, commutator, sum-commutator, recursive-commutator and BCH requests, each executed serially in a "
        "process with a fixed hash seed and again under 2-4 variants (2-16 worker processes, batch sizes 0-1000, another hash seed, "
        "random sleeps injected before every work item, after a long history of unrelated requests, twice on the same objects); "
        "answers are compared exactly (coefficients to rounding) and all argument objects are recorded before and after.  One request "
        "per run exceeds the internal batch of 10000 contractions.  Non-trivial: the serial answer has at least two entries")
ASSUMPTIONS = ["canonicalize, simplify and combine_terms work in place by design and are not claimed to preserve their input",
               "order of yielded contraction batches is not part of the answer"]
BUDGET = {"quick": 70, "thorough": 700}
MIN_NONTRIVIAL = {"quick": 24, "thorough": 300}
MIN_OBSERVED = {"variant_nproc": 6, "variant_batch": 2, "variant_hash": 18, "variant_delay": 2, "variant_history": 18, "variant_repeat": 4,
                "pure_calls": 36, "pure_lists": 24, "over_internal_batch": 1}


def cmap(con):
    out = {}
    for s, d, o in con:
        k = json.dumps([s, sorted(json.dumps(x) for x in d), o])
        out[k] = out.get(k, 0) + 1
    return out


def tlist(r):
    if isinstance(r, dict):
        return [[k, tlist(v)] for k, v in sorted(r.items())]
    return [[json.dumps([t["t"], t["op"], t["ty"]]), t["c"]] for t in r]


def same_terms(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(same_terms(a[k], b[k]) for k in a)
    if len(a) != len(b):
        return False
    x, y = tlist(a), tlist(b)
    if [k for k, _ in x] != [k for k, _ in y]:
        # order may only differ between entries that tie up to rounding of the coefficient: none tie after combining
        return False
    return all(abs(c - d) <= 1e-12 * (1 + abs(c)) for (_, c), (_, d) in zip(x, y))


def requests(sh):
    """-> (op, request without parallel options, takes batch_size)"""
    rng = sh.rng
    u = rng.random()
    lim = 500
    if u < 0.3:
        comm = rng.random() < 0.5
        n = rng.choice([2, 2, 3])
        ops = gen.rand_ops(rng, n, [1, 2, 2, 3] if n == 2 else [1, 1, 2], maxtot=10)
        if not ops:
            return None
        kw = dict(max_cu=rng.choice([1, 2, 3]), min_n_open=rng.choice([0, 0, 2]), max_n_open=rng.choice([4, 6, 99]),
                  for_commutator=comm, expand_hole=rng.random() < 0.5)
        wick.count(ops, kw["max_cu"], 0, 99, 4 * lim)
        return "contractions", dict(ops=ops, kw=kw)
    kw = dict(max_cu=rng.choice([1, 2, 3]), min_n_open=0, max_n_open=rng.choice([0, 2, 4, 6, 8]))
    if rng.random() < 0.25:
        kw["hermitian_tensor"] = False
    a, b = op_term(rng, rng.choice("HTD"), rng.choice([1, 2, 2]), 0), op_term(rng, rng.choice("HTD"), rng.choice([1, 2]), 10)
    wick.count([a["op"], b["op"]], kw["max_cu"], 0, 99, lim)
    if u < 0.5:
        kw["scale_factor"] = rng.choice([1.0, -0.5])
        return "product", dict(terms=[a, b], kw=kw)
    if u < 0.7:
        return "commutator", dict(left=a, right=b, kw=kw)
    if u < 0.82:
        kw["scale_factor"] = rng.choice([1.0, -0.5])
        c = op_term(rng, rng.choice("HTD"), 1, 20)
        return "lincomm", dict(left=[a], right=[b, c], kw=kw)
    if u < 0.92:
        c = op_term(rng, rng.choice("HTD"), 1, 60)
        wick.count([a["op"], b["op"], c["op"]], kw["max_cu"], 0, 99, 3 * lim)
        b = terms.map_term(b, lambda x: x[0] + str(int(x[1:]) + 30))
        hi = kw.pop("max_n_open")
        kw.pop("min_n_open")
        kw.pop("max_cu")
        return "rsc", dict(terms=[a, b, c], kw=dict(kw, max_cu_levels=2, n_opens={"all": [0, max(hi, 2)]}))
    if u < 0.97:
        kw = dict(nested_level=rng.choice([1, 2]), cluster_levels=[1], single_reference=True, unitary=rng.random() < 0.5,
                  max_cu_levels=1, n_opens={"all": [0, 6]})
        return "bch", dict(kw=kw)
    return "nested", dict(kw=dict(nested_level=rng.choice([1, 2]), cluster_levels=[1], single_reference=rng.random() < 0.5,
                                  unitary=False, max_cu=2, max_n_open=4))


def inputs_of(op, req):
    if op == "contractions":
        return [list(map(list, o)) for o in req["ops"]]
    if op == "product" or op == "rsc":
        return req["terms"]
    if op == "commutator":
        return [req["left"], req["right"]]
    if op == "lincomm":
        return [req["left"], req["right"]]
    return None


def norm(t):
    if isinstance(t, dict):
        return [sorted(map(json.dumps, t["t"])), t["op"], t["c"]]
    if t and isinstance(t, list) and isinstance(t[0], dict):
        return [norm(x) for x in t]
    return [list(x) for x in t]


def answer(op, r):
    return r["con"] if op == "contractions" else r["out"]


def equal(op, a, b):
    return cmap(a) == cmap(b) if op == "contractions" else same_terms(a, b)


class Pool:
    """extra workers of this shard"""

    def __init__(self, sh):
        self.sh = sh
        self.serial = Worker(hashseed=0, scratch=sh.scratch)
        self.fresh = None
        self.delay = None
        self.hist = Worker(hashseed=4242, scratch=sh.scratch)
        self.hashed = None

    def delayed(self):
        if self.delay is None or self.delay.p is None:
            self.delay = Worker(hashseed=self.sh.rng.randint(1, 10 ** 6), scratch=self.sh.scratch)
            self.delay.call("delays", seed=self.sh.rng.randint(0, 10 ** 6))
        return self.delay

    def other_hash(self):
        if self.hashed is None or self.sh.rng.random() < 0.08:
            if self.hashed is not None:
                self.sh.worker.calls += self.hashed.calls
                self.hashed.stop()
            self.hashed = Worker(hashseed=self.sh.rng.randint(1, 4 * 10 ** 9), scratch=self.sh.scratch)
            self.sh.count("hash_seeds")
        return self.hashed

    def stop(self):
        for w in (self.serial, self.delay, self.hist, self.hashed):
            if w is not None:
                self.sh.worker.calls += w.calls
                w.stop()


def ask(sh, w, op, req):
    try:
        ev = w.call(op, **req)
    except WorkerTimeout:
        sh.timeouts += 1
        return None
    if "exc" in ev:
        sh.violate("valid request failed with an exception", request=dict(req, op=op), event=ev)
        return None
    return ev["ok"]


def shard(sh):
    pool = Pool(sh)
    try:
        if sh.idx == 0:
            try:
                big(sh, pool)
            except (numev.TooBig, OverflowError) as e:
                sh.notes.append("big skipped " + repr(e))
        while not sh.over():
            if sh.rng.random() < 0.15:
                purity(sh)
                continue
            if sh.rng.random() < 0.2:
                texts(sh, pool)
                continue
            try:
                q = requests(sh)
            except OverflowError:
                q = None
            if q is not None:
                one(sh, pool, *q)
    finally:
        pool.stop()


def one(sh, pool, op, req):
    rng = sh.rng
    r0 = ask(sh, pool.serial, op, req)
    if r0 is None:
        return
    ref = answer(op, r0)
    size = len(ref) if isinstance(ref, list) else sum(len(v) for v in ref.values())
    inp = inputs_of(op, req)
    if inp is not None:
        aft = r0["ops_after"] if op == "contractions" else r0["after"]
        if norm(inp) != norm(aft):
            sh.violate("arguments were altered", request=dict(req, op=op), after=aft)
            return
    variants = ["nproc", "hash", "history"]
    if rng.random() < 0.4:
        variants.append("delay")
    if op == "contractions":
        variants.append("batch")
    if op in ("product", "commutator"):
        variants.append("repeat")
    rng.shuffle(variants)
    if rng.random() < 0.6:      # cheap variants only
        variants = [v for v in variants if v in ("hash", "history", "repeat")]
    for v in variants[:3]:
        kw = dict(req["kw"])
        w = pool.serial
        rq = dict(req, kw=kw)
        if v in ("nproc", "delay", "batch"):
            kw["n_process"] = rng.choice([2, 2, 3, 3, 4, 5, 8, 16])
            if op == "contractions" and (v == "batch" or rng.random() < 0.5):
                kw["batch_size"] = rng.choice([0, 1, 2, 3, 7, 50, 1000])
        elif v == "history" and rng.random() < 0.2:
            kw["n_process"] = 2
        if v == "delay":
            w = pool.delayed()
        elif v == "hash":
            w = pool.other_hash()
        elif v == "history":
            w = pool.hist
        elif v == "repeat":
            rq["repeat"] = True
            w = pool.hist
        r = ask(sh, w, op, rq)
        if r is None:
            if sh.violations:
                return
            continue
        sh.count("variant_" + v)
        got = answer(op, r)
        if not equal(op, ref, got):
            d = {}
            if op == "contractions":
                A, B = cmap(ref), cmap(got)
                d = dict(only_serial=[k for k in A if A[k] != B.get(k)][:3], only_variant=[k for k in B if B[k] != A.get(k)][:3])
            elif isinstance(ref, list):
                A, B = dict(tlist(ref)), dict(tlist(got))
                d = dict(differ=[[k, A.get(k), B.get(k)] for k in set(A) | set(B) if abs(A.get(k, 0) - B.get(k, 0)) > 1e-12][:4])
            sh.violate("the answer depends on " + v, request=dict(req, op=op), variant=kw, hashseed=w.hashseed,
                       n_serial=len(ref), n_variant=len(got), **d)
            return
        if v == "repeat" and not equal(op, r["first"], got):
            sh.violate("the second call on the same objects gave another answer", request=dict(req, op=op), first=r["first"][:5], second=got[:5])
            return
        if op == "contractions" and "n_process" in kw and [x for x in got] != [x for x in ref]:
            sh.count("reordered_streams")
        if "n_process" in kw:
            sh.count("parallel_runs_with_%d" % kw["n_process"])
        if inp is not None:
            aft = r["ops_after"] if op == "contractions" else r["after"]
            if norm(inp) != norm(aft):
                sh.violate("arguments were altered", request=dict(req, op=op), variant=kw, after=aft)
                return
    sh.count("requests_" + op)
    sh.evaluated(key=[op, req], nontrivial=size > 1, sample=dict(op=op, request=req, n=size, variants=variants[:3]))


def big(sh, pool):
    """more contractions than one internal batch"""
    def h(c, a, s, name):
        c, a = ["%s%d" % (c, s + i) for i in range(2)], ["%s%d" % (a, s + 5 + i) for i in range(2)]
        return {"c": 0.25, "t": [["H", name, a, c]], "op": [c, a], "ty": "so"}
    lst = [h("a", "a", 0, "H"), h("h", "p", 10, "V"), h("p", "h", 20, "W")]
    kw = dict(max_cu=1, max_n_open=4, n_process=3)
    exp = expansion(lst, 1, 0, 4, False, True, 1.0, 60000)
    r = ask(sh, pool.serial, "product", dict(terms=lst, kw=kw))
    if r is None:
        return
    sh.count("over_internal_batch")
    sh.top("contractions_in_one_product", len(exp))
    if by_rank(sh, dict(terms=lst, kw=kw), exp, r["out"], True, "a product larger than one internal batch is wrong", d=(1, 2, 1)):
        sh.evaluated(key=["big"], nontrivial=True)


METHODS = [("latex", [], {}), ("latex", [], {"permute_format": False}), ("latex", [], {"dollar": True, "delimiter": True, "backslash": True}),
           ("ambit", [], {}), ("ambit", [], {"ignore_permutations": True}), ("ambit", [], {"init_temp": False, "declared_temp": False}),
           ("hash_term", [], {}), ("perm_partition_open", [], {}), ("is_void", [], {}), ("is_possible_excitation", [], {}),
           ("expand_composite_indices", [False], {}), ("expand_composite_indices", [True], {}), ("make_ddca", [1, 1, False], {}),
           ("make_excitation", [False], {}), ("make_excitation", [True], {}), ("contraction_paths", [], {}),
           ("optimal_contraction_cost", [], {}), ("void", [], {})]


def texts(sh, pool):
    """emitted text in processes with other hash seeds and other histories"""
    rng = sh.rng
    for _ in range(4):
        ty = rng.choice(["so", "so", "si", "sa"])
        lst = [x for x in (terms.rand_term(rng, ty, max_rank=3, n_fac=rng.choice([1, 2, 3]), max_open=rng.choice([0, 4, 6]))
                           for _ in range(rng.randint(1, 6))) if x]
        jobs = ["latex", "latex" + json.dumps(dict(permute_format=False, dollar=True)), "print_latex", "categorize"]
        if ty != "sa":
            jobs += ["print_ambit", "ambit", "ambit" + json.dumps(dict(ignore_permutations=True, init_temp=False))]
        req = dict(terms=lst, jobs=jobs, canon=rng.random() < 0.8)
        r0 = ask(sh, pool.serial, "emit", req)
        if r0 is None:
            return
        for v, w in (("hash", pool.other_hash()), ("history", pool.hist)):
            r = ask(sh, w, "emit", req)
            if r is None:
                return
            sh.count("texts_" + v, sum(len(x) for k, x in r.items() if k in jobs))
            for j in jobs:
                if r[j] != r0[j]:
                    sh.violate("emitted text depends on " + v, request=req, job=j, hashseed=w.hashseed, one=r0[j], other=r[j])
                    return
        sh.count("pure_lists")
        if [norm(t) for t in r0["terms"]] != [norm(t) for t in r0["after"]]:
            sh.violate("emitting text altered the terms", request=req, before=r0["terms"], after=r0["after"])
            return
        sh.evaluated(key=["texts", req], nontrivial=len(r0["terms"]) > 1)


def purity_list(sh):
    rng = sh.rng
    lst = [x for x in (terms.rand_term(rng, "so", max_rank=2, n_fac=rng.choice([1, 2]), max_open=rng.choice([0, 2, 4]))
                       for _ in range(rng.randint(2, 8))) if x]
    canon = rng.random() < 0.6
    jobs = ["print_terms_ambit", "print_terms_latex", "categorize_contractions"]
    kw = {}
    if canon:
        lst = [dict(t, t=[[k, {"H": "H", "T": "T", "L": "L"}.get(k, nm), u, l] for k, nm, u, l in t["t"]]) for t in lst]
        jobs.append("save")
        kw = dict(add_t_dagger=rng.random() < 0.5, destroy_h=rng.random() < 0.3)
    rng.shuffle(jobs)
    req = dict(terms=lst, canon=canon, jobs=jobs, kw=kw)
    r = sh.need("pure_list", **req)
    if r is None:
        return
    for f, before, after, same in r["res"]:
        sh.count("pure_lists")
        if before != after or not same:
            sh.violate("printing or emitting a list of terms altered the list", function=f, before=before, after=after, request=req)
            return
    sh.evaluated(key=["pure_list", lst, jobs], nontrivial=len(lst) > 1)


def purity(sh):
    rng = sh.rng
    for _ in range(3):
        purity_list(sh)
    calls = []
    for _ in range(12):
        ty = rng.choice(["so", "so", "si", "sa"])
        t = terms.rand_term(rng, ty, max_rank=2, n_fac=rng.choice([1, 2, 3]), max_open=4)
        if t is None:
            continue
        name, args, kw = rng.choice(METHODS)
        if name == "make_excitation" and ty != "so":
            continue
        if ty == "so" and rng.random() < 0.2:
            name, args, kw = "generate_spin_cases_naive", [], {}
        if ty == "si" and rng.random() < 0.4:
            name, args, kw = "generate_singlet_adaptation", [rng.random() < 0.5], {}
        if ty == "so" and not t["op"][0] and rng.random() < 0.5:
            name, args, kw = "gradient_t", [], {}
        if ty == "so" and len(t["op"][0]) == 1 and rng.random() < 0.5:
            name, args, kw = "make_one_body_diagonal", [rng.random() < 0.5], {}
        if name in ("contraction_paths", "optimal_contraction_cost") and len(t["t"]) > 6:
            continue
        if name == "generate_spin_cases_naive" and sum(len(x[2]) for x in t["t"]) > 8:
            continue
        calls.append([name, t, args, kw])
    r = sh.need("pure", calls=calls)
    if r is None:
        return
    for name, before, after in r["res"]:
        sh.count("pure_calls")
        if before != after:
            sh.violate("a function that returns new objects altered its argument", method=name, before=before, after=after)
            return
    sh.evaluated(key=["pure", calls], nontrivial=True)
