"""C21: the effects of the file writers and of the directory helper on a private directory tree with by-standing and stale files."""
import re
import os
from vlib import terms
from checks.c09 import random_list
from checks.c10 import rename, diagonal, t3_list

RULE = ("random lists of terms are written as source files to relative and absolute directories that already hold unrelated files and "
        "longer stale versions of the files to be written, from several working directories; the whole tree, the working directory "
        "and every file opened for writing are recorded before and after, and the files are compared with those of a second, clean "
        "write; the directory helper is entered nested, on new and existing directories, with and without an exception inside.  "
        "Non-trivial: at least two files written, or an exception, or two nested directories")
ASSUMPTIONS = ["the target directory of the writers exists", "tensor names are those the writer documents: H, T, L"]
BUDGET = {"quick": 15, "thorough": 150}
MIN_NONTRIVIAL = {"quick": 100, "thorough": 1200}
MIN_OBSERVED = {"saves": 80, "files_written": 250, "stale_replaced": 80, "bystanders": 150, "relative": 30, "absolute": 30, "t3": 8,
                "entered": 80, "planned_failures": 30, "paths": 10, "nested": 30, "refused": 10, "substitutions": 15}

DIRS = ["out", "out/deep", "other", "run"]


def block_of(t):
    return "".join(x[0] for x in t["op"][1]) + "".join(x[0] for x in t["op"][0])


def do_save(sh, rng):
    t3 = rng.random() < 0.2
    ts = t3_list(sh, rng) if t3 else [rename(t) for t in random_list(rng, "so", False)]
    ts = [t for t in ts if t["t"] and not diagonal(t) and len(t["op"][0]) <= 3]
    if not ts:
        return
    func, ns = rng.choice(["comm_H_T", "ccsd", "h1"]), rng.choice(["DSRG", "Sadsrg"])
    target, cwd = rng.choice(DIRS), rng.choice(DIRS)
    absolute = rng.random() < 0.5
    clean = dict(what="save", terms=ts, func=func, ns=ns, t3=t3, kw={}, dirs=DIRS, stale={}, target=target, cwd=cwd, absolute=absolute)
    a = sh.need("fileio", **clean)
    if a is None:
        return
    if not a["terms"] or any(not t["t"] or diagonal(t) or any(x[0] not in "HTL" for x in t["t"]) for t in a["terms"]):
        return
    if t3 and len({block_of(t) for t in a["terms"]}) != 1:
        return
    pre = target + "/"
    if t3:
        names = {pre + func + "_direct_t3.cc"}
    else:
        names = {pre + func + ".cc", pre + func + "_functions.h"} | {pre + func + "_%s.cc" % (block_of(t) or "0") for t in a["terms"]}
    stale = {n: "stale line\n" * rng.randint(1, 900) for n in names if rng.random() < 0.6}
    by = {rng.choice(DIRS) + "/" + rng.choice(["keep.txt", func + "_old.cc", func + ".h", "X" + func + ".cc", "forte.cc"]): "by-stander %d\n" % rng.random() ** 9
          for _ in range(rng.randint(1, 4))}
    by = {k: v for k, v in by.items() if k not in names}
    for d in DIRS:      # the same names in other directories must stay as they are
        if d != target and rng.random() < 0.5:
            by[d + "/" + func + ".cc"] = "another directory\n"
    # the same request on a cluttered tree, possibly from another working directory
    cwd2, abs2 = rng.choice(DIRS), rng.random() < 0.5
    b = sh.need("fileio", **dict(clean, stale={**stale, **by}, cwd=cwd2, absolute=abs2))
    if b is None:
        return
    req = dict(clean, stale=sorted(stale), by=sorted(by), cwd=[cwd, cwd2], absolute=[absolute, abs2])
    for r, extra in ((a, {}), (b, by)):
        sh.count("saves")
        if r["err"]:
            return sh.violate("writing the files failed", request=req, error=r["err"])
        if r["cwd"] != r["cwd0"]:
            return sh.violate("working directory changed by writing files", request=req, cwd=[r["cwd0"], r["cwd"]])
        got = {k for k in r["after"] if r["after"][k] is not None} - set(extra)
        if got != names:
            return sh.violate("files written are not the expected ones", request=req, expected=sorted(names), got=sorted(got))
        for k, v in extra.items():
            sh.count("bystanders")
            if r["after"].get(k) != v:
                return sh.violate("an unrelated file was altered or removed", request=req, file=k)
        if {k for k in r["after"] if k.endswith("/")} != {k for k in r["before"] if k.endswith("/")}:
            return sh.violate("directories were created or removed", request=req)
        if not set(r["opened"]) <= names:
            return sh.violate("a file outside the expected ones was opened for writing", request=req, opened=r["opened"])
    for n in names:
        sh.count("files_written", 2)
        sh.count("stale_replaced", n in stale)
        if a["after"][n] != b["after"][n]:
            return sh.violate("content of a written file depends on what was there before or on the working directory", request=req, file=n,
                              clean=a["after"][n][:600], cluttered=b["after"][n][:600])
    sh.count("relative", 2 - absolute - abs2)
    sh.count("absolute", absolute + abs2)
    sh.count("t3", t3)
    sh.evaluated(key=req, nontrivial=len(names) > 1, sample=dict(request=req, files=sorted(names)))


def do_enter(sh, rng):
    names = [rng.choice(["new", "a1", "out", "deep", "other", "x_y"]) for _ in range(rng.randint(1, 3))]
    cwd = rng.choice(DIRS)
    if rng.random() < 0.35:     # a path of several components whose parent exists
        below = [d for d in DIRS if "/" in d]
        if below:
            d = rng.choice(below)
            cwd, rest = d.split("/", 1)
            names[0] = rest + "/" + rng.choice(["new", "a1"])
            sh.count("paths")
    elif rng.random() < 0.15:   # the directory itself
        names[rng.randrange(len(names))] = "."
    bad = None
    if rng.random() < 0.2:      # a component that cannot be a directory: a file is in the way, or the parent is missing
        bad = rng.choice(["file", "parent"])
        names[-1] = "plain" if bad == "file" else "none/such"
        names = names[-1:]
    fail = rng.random() < 0.5
    stale = {cwd + "/" + (("plain" if bad == "file" else "keep.txt")): "text\n"}
    r = sh.need("fileio", what="cd", dirs=DIRS, stale=stale, cwd=cwd, names=names, fail=fail)
    if r is None:
        return
    req = dict(names=names, cwd=cwd, fail=fail, bad=bad)
    sh.count("entered", len(r["log"]) > 0)
    sh.count("planned_failures", fail and not bad)
    sh.count("refused", bad is not None)
    sh.count("nested", len(names) > 1)
    if r["cwd"] != cwd:
        return sh.violate("working directory not restored after leaving the directory helper", request=req, got=r)
    files = {k: v for k, v in r["after"].items() if v is not None}
    if files != stale:
        return sh.violate("the directory helper altered files", request=req, got=sorted(files))
    if bad:
        if r["err"] is None:
            return sh.violate("entering an impossible directory was not refused", request=req, got=r)
    else:
        want, p = [], cwd
        dirs = {d + "/" for d in DIRS}
        seen = [cwd]
        for n in names:
            p = os.path.normpath(p + "/" + n)
            dirs.add(p + "/")
            want.append([p, p])
            seen.append(p)
        if not fail:
            want += [[x] for x in seen[-2::-1]]
        if r["log"] != want or (r["err"] is not None) != fail or (fail and "planned" not in r["err"]):
            return sh.violate("the directory helper did not enter and leave the named directories", request=req, expected=want, got=[r["log"], r["err"]])
        if {k for k in r["after"] if k.endswith("/")} != dirs:
            return sh.violate("the directory helper created or removed other directories", request=req, got=sorted(r["after"]))
    sh.evaluated(key=req, nontrivial=fail or bad is not None or len(names) > 1, sample=dict(request=req, log=r["log"]))


def do_gsub(sh, rng):
    keys = rng.sample(["HEADERS", "CPP_FUNCTIONS", "NAMESPACE", "FUNC_NAME", "FUNC_VARIABLES", "CPP_EXPRESSIONS"], rng.randint(1, 4))
    subs = [[k, rng.choice(["x", "", "#include <a.h>", "void f() { return; }", 'H2["g0,g1"] += T["v0,c0"];', "a.b(c)*d"])] for k in keys]
    parts = [rng.choice(keys + ["text ", "\n", "(.*)", "[a]", " "]) for _ in range(rng.randint(0, 12))]
    parts = [p if p not in keys else p + " " for p in parts]
    text = "".join(parts)
    r = sh.need("fileio", what="gsub", subs=subs, text=text)
    if r is None:
        return
    d = dict(subs)
    want = re.sub("|".join(sorted(map(re.escape, keys), key=len, reverse=True)), lambda m: d[m.group(0)], text)
    sh.count("substitutions", want != text)
    if r["text"] != want:
        return sh.violate("template substitution is wrong", request=dict(subs=subs, text=text), expected=want, got=r["text"])
    sh.evaluated(key=[subs, text], nontrivial=len(keys) > 1)


def shard(sh):
    rng = sh.rng
    while not sh.over():
        u = rng.random()
        (do_save if u < 0.5 else do_enter if u < 0.9 else do_gsub)(sh, rng)
        if sh.violations:
            return
