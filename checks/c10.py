"""C10: generated C++ files are compiled (address and undefined-behaviour sanitizers) against a small stand-in for the tensor
library, executed on random data, and the target tensors compared with the terms."""
import os, re, shutil, subprocess
import numpy as np
from vlib import numev, ambit, terms
from checks.c06 import op_term
from checks.c09 import random_list, diagonal, dims

RULE = ("random lists of spin-orbital terms and real commutator results over H, T and cumulant tensors are canonicalized and written "
        "as C++ by the real code (all settings of the Hermitian-conjugate and H-reuse options; also the triples-amplitude file); "
        "every file is compiled with -fsanitize=address,undefined inside a class declared by the generated header, each declared "
        "function is referenced, and the main function is run with targets full of garbage; targets are compared element by "
        "element.  Non-trivial: a non-zero target and more than one generated function")
ASSUMPTIONS = ["a stand-in implements the tensor library: dense storage, labelled products, block access checks",
               "tensor names are those the writer documents: H, T, L", "Hermitian tensors"]
BUDGET = {"quick": 50, "thorough": 700}
MIN_NONTRIVIAL = {"quick": 30, "thorough": 400}
MIN_OBSERVED = {"compiled_binaries": 10, "functions_linked": 150, "t_dagger": 20, "no_t_dagger": 8, "destroy_h": 5, "direct_t3": 15,
                "permuted_terms": 60, "mixed_permutations": 8}
FLAGS = ["-std=c++17", "-O0", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
HERE = os.path.dirname(os.path.abspath(__file__))
MOCK = os.path.join(HERE, "..", "vlib", "mock")

MAIN = r'''
#include "ambit_mock.h"
#include <cstdio>
#include <cstdlib>
%(heads)s
%(files)s
static BlockedTensor load(const std::string& file, const std::string& name, const std::vector<std::string>& blocks) {
    BlockedTensor t = BlockedTensor::build(ambit::CoreTensor, name, blocks);
    FILE* f = fopen(file.c_str(), "rb");
    if (!f || fread(t.d->v.data(), 8, t.d->v.size(), f) != t.d->v.size()) { fprintf(stderr, "harness: bad data file %%s\n", file.c_str()); exit(3); }
    fclose(f);
    return t;
}
static void dump(const std::string& file, const BlockedTensor& t) {
    FILE* f = fopen(file.c_str(), "wb");
    fwrite(t.data().v.data(), 8, t.data().v.size(), f);
    fclose(f);
}
static volatile long links = 0;
template <class F> void link_to(F f) { if (f) links = links + 1; }
static void garbage(BlockedTensor& t) { double x = 0.37; for (auto& v : t.d->v) { v = x; x = x * -1.3 + 0.01; if (x > 50 || x < -50) x = 0.11; } }
%(cases)s
int main() {
%(calls)s
    printf("LINKS %%ld OPS %%ld\n", (long)links, ambit::n_ops);
    return 0;
}
'''


def rename(t):
    return dict(t, t=[[k, {"H": "H", "T": "T", "L": "L"}.get(k, nm), u, l] for k, nm, u, l in t["t"]])


def t3_list(sh, rng):
    out = []
    nf = rng.choice([2, 2, 3])
    kinds = rng.choice(["HT", "HTT", "HT"])
    for _ in range(400):
        t = terms.rand_term(rng, "so", n_fac=nf, max_rank=3, p_open=0.6, max_open=6, pool="cv", kinds=kinds, max_cu=1)
        if t is None or len(t["op"][0]) != 3:
            continue
        if any(x[0] != "v" for x in t["op"][0]) or any(x[0] != "c" for x in t["op"][1]):
            continue
        out.append(rename(t))
        if len(out) > rng.randint(1, 6):
            break
    return out


class Case:
    pass


def make_case(sh, rng, k, root):
    c = Case()
    c.k, c.t3 = k, rng.random() < 0.25
    c.ns = rng.choice(["MRDSRG_SO", "DSRG", "Sadsrg"]) + str(k)
    c.func = rng.choice(["comm_H_T", "comm2_q3", "ccsd", "h1_t2_C"])
    c.factor = round(rng.uniform(-2, 2), 3)
    c.kw = {}
    if c.t3:
        ts = t3_list(sh, rng)
    elif rng.random() < 0.3:
        pool = rng.choice([None, "cav", "hp", "cv"])
        l = rename(op_term(rng, "H", rng.choice([1, 2, 2]), 0, pool))
        r = rename(op_term(rng, rng.choice("TTD"), rng.choice([1, 2, 2]), 50, pool))
        ev = sh.call("commutator", left=l, right=r, kw=dict(max_cu=2, max_n_open=4, min_n_open=0, n_process=1))
        if ev is None or "ok" not in ev:
            return None
        ts = ev["ok"]["out"]
        sh.count("commutators")
    else:
        ts = [rename(t) for t in random_list(rng, "so", False, 0.3)]
    if not c.t3:
        u = rng.random()
        if u < 0.3:
            c.kw["add_t_dagger"] = False
        elif u < 0.5:
            c.kw["add_t_dagger"] = True
        if rng.random() < 0.4:
            c.kw["destroy_h"] = True
    ts = [t for t in ts if t["t"] and not diagonal(t) and len(t["op"][0]) <= 3]
    if not ts:
        return None
    combine = rng.random() < 0.85
    if not combine:
        ts.insert(rng.randrange(len(ts) + 1), dict(rng.choice(ts)))
        sh.count("repeated_terms")
    r = sh.need("files", what="t3" if c.t3 else "functions", func=c.func, ns=c.ns, kw=c.kw, terms=ts, combine=combine)
    if r is None or not r["terms"]:
        return None
    c.terms = r["terms"]
    if any(not t["t"] or diagonal(t) or any(x[0] not in "HTL" for x in t["t"]) for t in c.terms):
        sh.count("skipped_names")
        return None
    c.req = dict(terms=ts, canonical=c.terms, func=c.func, ns=c.ns, kw=c.kw, t3=c.t3, factor=c.factor)
    c.files = r["files"]
    if c.t3 and len(r.get("blocks", [])) != 1:
        return None
    return prepare(sh, rng, c, root)


def prepare(sh, rng, c, root):
    d = (3, 0, 3) if c.t3 else tuple(min(3, x) for x in dims(rng, c.terms, "so"))
    nmax = max([len(t["op"][0]) for t in c.terms] + [len(x[2]) for t in c.terms for x in t["t"]])
    while not c.t3 and sum(d) ** (2 * nmax) > 120_000 and d != (1, 1, 1):
        d = list(d)
        d[max(range(3), key=lambda i: d[i])] -= 1
        d = tuple(d)
    c.m = numev.Model(sh.seed * 1000 + sh.idx, d)
    c.d = d
    try:
        c.want = ambit.expected(c.m, c.terms)
    except numev.TooBig:
        sh.count("skipped_large")
        return None
    cd = os.path.join(root, "case_%d" % c.k)
    os.makedirs(cd)
    ccs, header = [], None
    for f, text in sorted(c.files.items()):
        with open(os.path.join(cd, f), "w") as h:
            h.write(text)
        if f.endswith(".cc"):
            ccs.append(f)
        elif f.endswith(".h"):
            header = f
    if c.t3:
        mt = re.search(r"void\s+%s::(\w+)\s*\(([^)]*)\)" % c.ns, c.files[ccs[0]]) if ccs else None
        if not mt or len(ccs) != 1:
            sh.violate("no triples function defined", request=c.req, files=c.files)
            return None
        c.main, params = mt.group(1), mt.group(2)
        decl = "void %s(%s);" % (c.main, params)
        declared = [c.main]
    else:
        if header is None:
            sh.violate("no header written", request=c.req, files=sorted(c.files))
            return None
        decl = '#include "case_%d/%s"' % (c.k, header)
        declared = re.findall(r"void\s+(\w+)\s*\(", c.files[header])
        mt = re.search(r"void\s+%s\s*\(([^)]*)\)" % c.func, c.files[header])
        if not mt:
            sh.violate("main function not declared in the header", request=c.req, header=c.files[header])
            return None
        c.main, params = c.func, mt.group(1)
    c.params = [p.split()[-1].lstrip("&") for p in params.split(",")]
    os.makedirs(os.path.join(root, "mrdsrg-so"), exist_ok=True)
    with open(os.path.join(root, "mrdsrg-so", c.ns.lower() + ".h"), "w") as h:
        h.write('#pragma once\n#include "ambit_mock.h"\nnamespace forte {\nclass %s {\n  public:\n%s\n    BlockedTensor T3;\n    std::vector<double> Fd;\n'
                '    double s_ = 0.0, rms_t3 = 0.0, T3max = 0.0, T3norm = 0.0;\n    double renormalized_denominator(double x) { return '
                '(1.0 - std::exp(-s_ * x * x)) / x; }\n};\n}\n' % (c.ns, decl))
    c.ccs, c.declared = ccs, declared
    sh.count("four_body_lists", any(len(x[2]) > 3 for t in c.terms for x in t["t"]))
    c.names = sorted({"%s%d" % (x[1], len(x[2])) for t in c.terms for x in t["t"]})
    targets = {"C%d" % n for n in c.want}
    if not c.t3:
        got = {p for p in c.params if re.match(r"^C\d$", p)}
        if got != targets or "factor" not in c.params:
            sh.violate("parameters do not list exactly the targets", request=c.req, params=c.params, expected=sorted(targets))
            return None
    # data
    g = np.random.default_rng([sh.seed, sh.idx, c.k])
    c.fd = np.concatenate([g.uniform(-2, -1, d[0]), g.uniform(-0.3, 0.3, d[1]), g.uniform(1, 2, d[2])])
    code = ["static void run_%d() {" % c.k, "    ambit::n_core = %d; ambit::n_act = %d; ambit::n_virt = %d;" % d,
            "    forte::%s o; o.s_ = 0.35; o.Fd = {%s};" % (c.ns, ", ".join(repr(float(x)) for x in c.fd))]
    names = set(c.names) | ({"T3"} if c.t3 else set())
    for nm in sorted(names | {p for p in c.params if re.match(r"^[HTL]\d$", p)}):
        n = int(nm[1:])
        kind = nm[0]
        lab = ["g%d" % i for i in range(2 * n)]
        a = c.m.tensor(kind, kind, lab[:n], lab[n:], "so")
        blocks = "g" * (2 * n)
        if c.t3 and nm == "T3":
            full = np.zeros_like(a)
            ix = np.ix_(*([c.m.index_set("c")] * 3 + [c.m.index_set("v")] * 3))
            full[ix] = a[ix]
            a, blocks = full, "cccvvv"
            c.t3_old = a
        np.ascontiguousarray(a).tofile(os.path.join(cd, nm + ".bin"))
        code.append('    BlockedTensor %s = load("case_%d/%s.bin", "%s", {"%s"});' % (nm, c.k, nm, nm, blocks))
    for p in c.params:
        if re.match(r"^C[1-9]$", p):
            code.append('    BlockedTensor %s = BlockedTensor::build(ambit::CoreTensor, "%s", {"%s"}); garbage(%s);' % (p, p, "g" * (2 * int(p[1:])), p))
        elif p == "C0":
            code.append("    double C0 = 123.456;")
    if c.t3:
        code.append("    o.T3 = T3;")
    if "factor" in c.params:
        code.append("    double factor = %r;" % c.factor)
    for f in c.declared:
        code.append("    link_to(&forte::%s::%s);" % (c.ns, f))
    code.append("    o.%s(%s);" % (c.main, ", ".join(c.params)))
    for p in c.params:
        if re.match(r"^C[1-9]$", p):
            code.append('    dump("case_%d/out_%s.bin", %s);' % (c.k, p, p))
        elif p == "C0":
            code.append('    printf("SCALAR %d %%.17g\\n", C0);' % c.k)
    if c.t3:
        code.append('    dump("case_%d/out_T3.bin", o.T3); printf("T3 %d %%.17g %%.17g %%.17g\\n", o.rms_t3, o.T3max, o.T3norm);' % (c.k, c.k))
    code.append("}")
    c.code = "\n".join(code)
    c.nfun = len(ccs)
    return c


def compile_mock(sh):
    o = os.path.join(sh.scratch, "mock_%d.o" % sh.idx)
    r = subprocess.run(["g++"] + [f for f in FLAGS if f != "-O0"] + ["-O1", "-c", os.path.join(MOCK, "ambit_mock.cpp"), "-o", o],
                       capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("harness: cannot compile the stand-in\n" + r.stderr[:2000])
    return o


def shard(sh):
    rng = sh.rng
    obj = compile_mock(sh)
    it = 0
    while not sh.over() or it == 0:
        it += 1
        root = os.path.join(sh.scratch, "b%d_%d" % (sh.idx, it))
        os.makedirs(root)
        cases, tries = [], 0
        want = 6 if sh.tier == "quick" else 10
        while len(cases) < want and tries < 3 * want and not (sh.over() and cases):
            tries += 1
            c = make_case(sh, rng, tries, root)
            if sh.violations:
                return
            if c:
                cases.append(c)
        if cases:
            batch(sh, rng, cases, root, obj)
        shutil.rmtree(root, ignore_errors=True)
        if sh.violations:
            return


def batch(sh, rng, cases, root, obj):
    heads = "\n".join('#include "mrdsrg-so/%s.h"' % c.ns.lower() for c in cases)
    files = "\n".join('#include "case_%d/%s"' % (c.k, f) for c in cases for f in c.ccs)
    calls = "\n".join('    try { run_%d(); printf("DONE %d\\n"); } catch (const std::exception& e) { printf("EXC %d %%s\\n", e.what()); }'
                      % (c.k, c.k, c.k) for c in cases)
    src = os.path.join(root, "main.cc")
    with open(src, "w") as f:
        f.write(MAIN % dict(heads=heads, files=files, cases="\n".join(c.code for c in cases), calls=calls))
    exe = os.path.join(root, "main")
    r = subprocess.run(["g++"] + FLAGS + ["-I", root, "-I", MOCK, src, obj, "-o", exe], capture_output=True, text=True)
    if r.returncode:
        err = r.stderr
        bad = [c for c in cases if "case_%d/" % c.k in err or c.ns in err] or cases
        if "harness" in err or r.returncode < 0:
            raise RuntimeError(err[:2000])
        c = bad[0]
        sh.violate("generated files do not compile or link", request=c.req, compiler=err[:3000], files=c.files)
        return
    sh.count("compiled_binaries")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="print_stacktrace=0")
    r = subprocess.run([exe], cwd=root, capture_output=True, text=True, env=env, timeout=600)
    lines = r.stdout.split("\n")
    done = {int(x.split()[1]) for x in lines if x.startswith("DONE")}
    exc = {int(x.split()[1]): x for x in lines if x.startswith("EXC")}
    sc = {int(x.split()[1]): float(x.split()[2]) for x in lines if x.startswith("SCALAR")}
    t3s = {int(x.split()[1]): [float(v) for v in x.split()[2:]] for x in lines if x.startswith("T3 ")}
    for x in lines:
        if x.startswith("LINKS"):
            sh.count("functions_linked", int(x.split()[1]))
            sh.count("tensor_contractions", int(x.split()[3]))
    for c in cases:
        if c.k in exc:
            sh.violate("generated program fails at run time: " + exc[c.k], request=c.req, files=c.files)
            return
        if c.k not in done:
            sh.violate("generated program was stopped by a sanitizer or crashed", request=c.req, stderr=r.stderr[:3000], files=c.files)
            return
        if not judge(sh, c, root, sc, t3s):
            return


def arr(path, shape):
    return np.fromfile(path).reshape(shape)


def judge(sh, c, root, sc, t3s):
    npm = [ambit.n_perm(t) for t in c.terms]
    nz = any(np.abs(a).max() > 1e-8 for a in c.want.values())
    sh.count("permuted_terms", sum(p > 1 for p in npm))
    kinds = {}
    for t, p in zip(c.terms, npm):
        kinds.setdefault("".join(x[0] for x in t["op"][0] + t["op"][1]), set()).add(p)
    sh.count("mixed_permutations", any(len(v) > 1 for v in kinds.values()))
    sh.count("direct_t3", c.t3)
    sh.evaluated(key=[c.terms, c.kw, c.t3], nontrivial=nz and (c.nfun > 1 or c.t3), sample=dict(request=c.req, files=c.files))
    cd = os.path.join(root, "case_%d" % c.k)
    M = c.m.M
    if c.t3:
        ix = np.ix_(*([c.m.index_set("c")] * 3 + [c.m.index_set("v")] * 3))
        C3 = np.zeros((M,) * 6)
        C3[ix] = c.want[3][ix]
        f = c.fd
        D = np.zeros((M,) * 6)
        for ax in range(6):
            shp = [1] * 6
            shp[ax] = M
            D = D + (1 if ax < 3 else -1) * f.reshape(shp)
        D[D == 0] = 1.0
        s = 0.35
        res = np.where(True, C3 * (1 - np.exp(-s * D * D)) / D - c.t3_old * np.exp(-s * D * D), 0)
        new = res + c.t3_old
        got = arr(os.path.join(cd, "out_T3.bin"), new.shape)
        if not np.allclose(got[ix], new[ix], rtol=1e-8, atol=1e-8):
            sh.violate("triples amplitudes are not updated from the given terms", request=c.req, files=c.files,
                       worst=float(np.abs(got[ix] - new[ix]).max()))
            return False
        w = [float(np.sqrt((res[ix] ** 2).sum())), float(np.abs(new[ix]).max()), float(np.sqrt((new[ix] ** 2).sum()))]
        if not np.allclose(w, t3s[c.k], rtol=1e-7, atol=1e-9):
            sh.violate("triples norms are wrong", request=c.req, expected=w, got=t3s[c.k], files=c.files)
            return False
        return True
    dag = c.kw.get("add_t_dagger", True)
    sh.count("t_dagger" if dag else "no_t_dagger")
    sh.count("destroy_h", c.kw.get("destroy_h", False))
    for n, a in c.want.items():
        x = c.factor * a
        if dag:
            x = x + (np.transpose(x, list(range(n, 2 * n)) + list(range(n))) if n else x)
        if n == 0:
            y = np.array(sc[c.k])
        else:
            y = arr(os.path.join(cd, "out_C%d.bin" % n), x.shape)
        if not np.allclose(x, y, rtol=1e-8, atol=1e-8 * (1 + np.abs(x).max())):
            sh.violate("target C%d is not factor times the terms%s" % (n, " plus Hermitian conjugate" if dag else ""), request=c.req,
                       files=c.files, worst=float(np.abs(x - y).max()))
            return False
    return True
