"""C09: the emitted contraction statements are executed on dense arrays and the filled targets compared with the terms."""
import json
from math import factorial
import numpy as np
from vlib import terms, numev, ambit
from checks.c06 import op_term

RULE = ("random lists of terms that share operator blocks and permutations, and real commutator results, spin-orbital and "
        "spin-integrated; every list is canonicalized and combined by the real code and emitted by the list printer and by the "
        "single-term emitter in all its modes; the text is executed by an interpreter for labelled tensor statements and the "
        "filled target arrays are compared element by element with the antisymmetrized sum of the terms.  Non-trivial: at least "
        "one permuted term and a non-zero target")
ASSUMPTIONS = ["Hermitian tensors (amplitudes are stored as hole-particle blocks)", "no diagonal indices (the emitter flags those)",
               "spin-orbital or spin-integrated canonical terms with at least one tensor"]
BUDGET = {"quick": 45, "thorough": 600}
MIN_NONTRIVIAL = {"quick": 36, "thorough": 600}
MIN_OBSERVED = {"so": 24, "si": 10, "statements": 3600, "printed_lists": 36, "single_modes": 540, "permuted_terms": 84,
                "shared_temp": 6, "scalars": 4, "commutators": 4, "rank3": 15}
MODES = [{}, {"name": "D"}, {"init_temp": False}, {"init_temp": False, "declared_temp": False}, {"ignore_permutations": True},
         {"ignore_permutations": True, "init_temp": False}, {"ignore_permutations": True, "init_temp": False, "declared_temp": False},
         {"name": "Hbar", "declared_temp": False}]


def random_list(rng, ty, thorough, p4=0.1):
    pool = rng.choice(["cav", "hp", "cv", "ca", "av", "a", "gh", None, "g"])
    n = rng.randint(2, 9)
    mo = rng.choice([4, 6, 6]) if ty == "si" or rng.random() < 0.85 else 8
    nf, kinds = rng.choice([1, 2, 2, 3]), rng.choice([None, "HT", "TT", "HTD"])
    out = []
    four = rng.random() < p4       # four-body tensors
    for _ in range(n):
        t = terms.rand_term(rng, ty, n_fac=nf if rng.random() < 0.8 else None, max_rank=4 if four else rng.choice([2, 2, 3]), p_open=rng.choice([0.2, 0.5, 0.7]),
                            max_open=mo, pool=pool, kinds=kinds, max_cu=4 if four else 2)
        if t is not None:
            out.append(t)
    return out


def dims(rng, ts, ty):
    d = (1, 1, 1)
    for _ in range(3):
        for t in ts:
            d = terms.dims_for(t, d)
    base = [max(x, y) for x, y in zip(d, rng.choice([(1, 2, 1), (2, 1, 2), (1, 1, 2), (2, 2, 1), (2, 2, 2)]))]
    return tuple(base)


def diagonal(t):
    """an index standing in both index groups of one factor, or in more than two places, is diagonal"""
    cnt = {}
    for k, nm, u, l in t["t"]:
        for x in u + l:
            cnt[x] = cnt.get(x, 0) + 1
    for g in t["op"]:
        for x in g:
            cnt[x] = cnt.get(x, 0) + 1
    return any(v != 2 for v in cnt.values()) or any(set(u) & set(l) for k, nm, u, l in t["t"])


def compare(sh, m, want, got, req, text, what):
    for n in sorted(set(want) | set(got)):
        x = want.get(n)
        y = got.get(n)
        if x is None:
            x = np.zeros_like(y)
        if y is None:
            y = np.zeros_like(x)
        tol = 1e-9 * (1.0 + np.abs(x).max())
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=tol):
            i = np.unravel_index(np.argmax(np.abs(x - y)), x.shape) if x.shape == y.shape else None
            sh.violate(what + ": rank-%d target differs from the terms" % n, request=req, text=text,
                       element=[int(v) for v in i] if i is not None else None,
                       expected=float(x[i]) if i is not None else str(x.shape), got=float(y[i]) if i is not None else str(y.shape))
            return False
    return True


def targets(env):
    out = {}
    for nm, a in env.arr.items():
        out[int(nm[len(env.name):])] = a
    return out


def shard(sh):
    rng = sh.rng
    thorough = sh.tier == "thorough"
    k = 0
    while not sh.over():
        k += 1
        ty = rng.choice(["so", "so", "si"])
        if k % 6 == 0:
            ty = "so"
            pool = rng.choice([None, "cav", "hp", "cv"])
            l = op_term(rng, "H", rng.choice([1, 2, 2]), 0, pool)
            r = op_term(rng, rng.choice("TTD"), rng.choice([1, 2, 2]) if not thorough else rng.choice([2, 2, 3]), 50, pool)
            ev = sh.call("commutator", left=l, right=r, kw=dict(max_cu=2, max_n_open=6, min_n_open=0, n_process=1))
            if ev is None or "ok" not in ev:
                continue
            ts = ev["ok"]["out"]
            rng.shuffle(ts)
            if not ts:
                continue
            sh.count("commutators")
        else:
            ts = random_list(rng, ty, thorough)
            if not ts:
                continue
        combine = rng.random() < 0.85
        if not combine and ts:              # a list in which a term occurs more than once
            t = dict(rng.choice(ts))
            if rng.random() < 0.5:
                t["c"] = terms.rand_coeff(rng)
            ts = list(ts)
            ts.insert(rng.randrange(len(ts) + 1), t)
            sh.count("repeated_terms")
        jobs = ["print_ambit"] + ["ambit" + json.dumps(x) for x in [MODES[0]] + rng.sample(MODES[1:], 3 if not thorough else 7)]
        r = sh.need("emit", terms=ts, jobs=jobs, combine=combine)
        if r is None:
            continue
        try:
            judge(sh, rng, ts, ty, jobs, r)
        except numev.TooBig:
            sh.count("skipped_large")


def judge(sh, rng, ts, ty, jobs, r):
    out = r["terms"]
    req = dict(terms=ts, canonical=out)
    if not out:
        sh.count("empty")
        return
    if any(not t["t"] or diagonal(t) for t in out):
        sh.count("skipped_diagonal")
        return
    d = dims(rng, out, ty)
    m = numev.Model(sh.seed * 1000 + sh.idx, d, spin=ty == "si")
    nmax = max(len(t["op"][0]) for t in out)
    nten = max(len(x[2]) for t in out for x in t["t"])
    sh.count("four_body_lists", nten > 3)
    while m.M ** (2 * max(nmax, nten)) > 1_500_000 and max(d) > 1:
        d = list(d)
        d[max(range(3), key=lambda i: d[i])] -= 1
        d = tuple(d)
        m = numev.Model(sh.seed * 1000 + sh.idx, d, spin=ty == "si")
    each = [ambit.expected(m, [t]) for t in out]
    want = {}
    for e in each:
        for n, a in e.items():
            want[n] = want[n] + a if n in want else a
    nz = any(np.abs(a).max() > 1e-8 for a in want.values())
    npm = [ambit.n_perm(t) for t in out]
    shared = {}
    for t, p in zip(out, npm):
        if p > 1:
            b = "".join(x[0] for x in t["op"][0] + t["op"][1])
            shared[b, p] = shared.get((b, p), 0) + 1
    sh.count(ty)
    sh.count("permuted_terms", sum(p > 1 for p in npm))
    sh.count("shared_temp", any(v > 1 for v in shared.values()))
    sh.count("scalars", 0 in want)
    sh.count("rank3", nmax >= 3)
    sh.top("terms_in_list", len(out))
    sh.top("rank", nmax)
    sh.evaluated(key=[out, d], nontrivial=nz and any(p > 1 for p in npm), sample=dict(request=req, text=r["print_ambit"][:1500]))
    # the printed list as one program
    env = ambit.Env(m)
    text = r["print_ambit"]
    try:
        env.run(text)
    except ambit.Bad as e:
        sh.violate("printed program is ill-formed: %s" % e, request=req, text=text)
        return
    sh.count("printed_lists")
    sh.count("statements", env.statements)
    if not compare(sh, m, want, targets(env), req, text, "printed list"):
        return
    for j in jobs[1:]:
        kw = json.loads(j[5:])
        if not single(sh, m, out, each, npm, kw, r[j], req):
            return


def single(sh, m, out, each, npm, kw, texts, req):
    name = kw.get("name", "C")
    ign, init, decl = kw.get("ignore_permutations", False), kw.get("init_temp", True), kw.get("declared_temp", True)
    decl = decl or init
    for t, e, p, text in zip(out, each, npm, texts):
        n = len(t["op"][0])
        sh.count("single_modes")
        env = ambit.Env(m, name)
        if not init and decl:       # the caller's temporary, built and zero
            env.temp = (env.full(2 * n), "".join(x[0] for x in t["op"][1] + t["op"][0])) if n else None
        try:
            env.run(text)
        except ambit.Bad as ex:
            sh.violate("emitted statements are ill-formed: %s" % ex, request=dict(req, mode=kw, term=t), text=text)
            return False
        sh.count("statements", env.statements)
        got = targets(env)
        unperm = p > 1 and (ign or not decl)
        if unperm:
            if ign and decl:        # accumulated in the temporary only
                if any(np.abs(a).max() > 0 for a in got.values()):
                    sh.violate("target written although permutations are left to the caller", request=dict(req, mode=kw, term=t), text=text)
                    return False
                got = {n: env.temp[0]}
            if n not in got:
                sh.violate("nothing accumulated", request=dict(req, mode=kw, term=t), text=text)
                return False
            ga = ambit.spin_groups(t["op"][1])
            gc = ambit.spin_groups(t["op"][0])
            got = {n: ambit.antisym(got[n], n, n, ga, gc) * p / factorial(n) ** 2}
            sh.count("unpermuted")
        if not compare(sh, m, e, got, dict(req, mode=kw, term=t), text, "single term (mode %s)" % json.dumps(kw)):
            return False
    return True
