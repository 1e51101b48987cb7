"""Interpreter for the emitted tensor-contraction statements (the subset of ambit the generator uses) on dense arrays
over all orbitals, plus the expected result tensors of a list of terms."""
import re
import numpy as np
from itertools import permutations, product
from math import factorial
from .numev import perm_sign, einsum, LET, TooBig

MAXSIZE = 6_000_000


class Bad(Exception):
    """the program is wrong in itself (undeclared or uninitialised temporary, access outside a block, syntax)"""


REF = re.compile(r'^([A-Za-z_]\w*)\s*\[\s*"([^"]*)"\s*\]$')
NUM = re.compile(r'^-?\d+(\.\d*)?$')
FRAC = re.compile(r'^\(\s*(-?\d+(?:\.\d*)?)\s*/\s*(\d+(?:\.\d*)?)\s*\)$')
BUILD = re.compile(r'^(?:BlockedTensor\s+|auto\s+)?(\w+)\s*=\s*ambit::BlockedTensor::build\(\s*ambit::CoreTensor\s*,\s*"[^"]*"\s*,\s*\{\s*"(\w+)"\s*\}\s*\)$')
ASSIGN = re.compile(r'^([A-Za-z_]\w*)\s*(\[\s*"[^"]*"\s*\])?\s*(\+=|-=|=)\s*(.+)$', re.S)


class Env:
    def __init__(self, model, name="C"):
        self.m, self.name = model, name
        self.arr = {}
        self.temp = None            # (array, block labels)
        self.statements = 0

    def check_block(self, labels):
        spaces = [x[0] for x in labels]
        blk = self.temp[1]
        sub = {"g": "gphcav", "p": "pav", "h": "hca", "c": "c", "a": "a", "v": "v"}
        ok = len(spaces) == len(blk) and all(s.lower() in sub[b.lower()] and s.isupper() == b.isupper() for s, b in zip(spaces, blk))
        if not ok:
            raise Bad("temp with block %s accessed with labels %s" % (blk, labels))

    def full(self, n):
        if self.m.M ** n > MAXSIZE:
            raise TooBig("result tensor")
        return np.zeros((self.m.M,) * n)

    def ref(self, text):
        mt = REF.match(text.strip())
        if not mt:
            raise Bad("cannot parse " + text)
        labels = [x.strip() for x in mt.group(2).split(",")]
        for x in labels:
            if not re.match(r"^[gphcavGPHCAV]\d+$", x):
                raise Bad("bad label in " + text)
        return mt.group(1), labels

    def operand(self, text):
        """-> (array over the labels' index sets, labels)"""
        nm, labels = self.ref(text)
        ix = np.ix_(*[self.m.index_set(x[0]) for x in labels])
        if nm == "temp":
            if self.temp is None:
                raise Bad("temp used before it is built")
            self.check_block(labels)
            return self.temp[0][ix], labels
        if nm in self.arr:
            return self.arr[nm][ix], labels
        mt = re.match(r"^([A-Za-z]+)(\d+)$", nm)
        if not mt or 2 * int(mt.group(2)) != len(labels):
            raise Bad("unknown tensor or wrong number of labels: " + text)
        k = mt.group(1)
        kind = {"L": "L", "C": "C", "K": "K", "T": "T", "S": "T", "H": "H", "V": "H"}.get(k)
        if kind is None:
            raise Bad("unknown tensor " + nm)
        n = len(labels) // 2
        u, l = labels[:n], labels[n:]
        if kind == "T":
            # stored as [hole, particle]: labels that cannot be stored so must not appear
            bad = any(x[0].lower() in "v" for x in u) or any(x[0].lower() in "c" for x in l) or \
                any(x[0].lower() == "p" for x in u) or any(x[0].lower() == "h" for x in l)
            if bad:
                raise Bad("amplitude block not of hole,particle order: " + text)
        return self.m.tensor(kind, k, u, l, "si" if self.m.spin else "so"), labels

    def expr(self, text, out):
        letters, args, subs, c = {}, [], [], 1.0
        text = text.strip()
        sg = 1.0
        for f in text.split(" * "):
            f = f.strip()
            if NUM.match(f):
                c *= float(f)
                continue
            mt = FRAC.match(f)
            if mt:
                c *= float(mt.group(1)) / float(mt.group(2))
                continue
            a, labels = self.operand(f)
            s = ""
            for x in labels:
                x = x[0] + str(int(x[1:]))
                if x not in letters:
                    letters[x] = LET[len(letters)]
                s += letters[x]
            args.append(a)
            subs.append(s)
        o = ""
        for x in out:
            x = x[0] + str(int(x[1:]))
            if x not in letters:
                raise Bad("open label %s missing on the right-hand side: %s" % (x, text))
            o += letters[x]
        if not args:
            raise Bad("no tensor on the right-hand side")
        if any(a.size == 0 for a in args):
            return np.zeros([len(self.m.index_set(x[0])) for x in out])
        if any(a.size > MAXSIZE for a in args):
            raise TooBig("operand")
        return c * sg * einsum(subs, o, args)

    def run(self, text):
        text = "\n".join(l.split("//")[0] for l in text.split("\n"))
        for st in text.split(";"):
            st = st.strip()
            if st:
                self.statement(st)

    def statement(self, st):
        self.statements += 1
        mt = BUILD.match(st)
        if mt:
            if mt.group(1) != "temp":
                raise Bad("unexpected build of " + mt.group(1))
            self.temp = (self.full(len(mt.group(2))), mt.group(2))
            return
        mt = ASSIGN.match(st)
        if not mt:
            raise Bad("cannot parse statement: " + st)
        nm, lab, how, rhs = mt.groups()
        if lab is None:
            if nm != self.name + "0":
                raise Bad("labels missing on target of: " + st)
            v = float(self.expr(rhs, []))
            old = self.arr.get(nm, np.array(0.0))
            self.arr[nm] = np.array(v) if how == "=" else old + (v if how == "+=" else -v)
            return
        nm, labels = self.ref(nm + lab)
        v = self.expr(rhs, labels)
        ix = np.ix_(*[self.m.index_set(x[0]) for x in labels])
        if nm == "temp":
            if self.temp is None:
                raise Bad("temp used before it is built")
            self.check_block(labels)
            tgt = self.temp[0]
        else:
            if nm != self.name + str(len(labels) // 2):
                raise Bad("unexpected target " + nm)
            if nm not in self.arr:
                self.arr[nm] = self.full(len(labels))
            tgt = self.arr[nm]
        if how == "=":
            tgt[ix] = v
        elif how == "+=":
            tgt[ix] += v
        else:
            tgt[ix] -= v


def scatter(model, term):
    """X[ann..., cre...] over all orbitals: the term's coefficient array, not antisymmetrized"""
    cre, ann = term["op"]
    ty = term.get("ty", "so")
    letters, args, subs = {}, [], []

    def sub(names):
        s = ""
        for n in names:
            n = n[0] + str(int(n[1:]))
            if n not in letters:
                letters[n] = LET[len(letters)]
            s += letters[n]
        return s
    for kind, name, u, l in term["t"]:
        args.append(model.tensor(kind, name, u, l, ty))
        subs.append(sub(u) + sub(l))
    open_ = list(ann) + list(cre)
    if model.M ** len(open_) > MAXSIZE or any(a.size > MAXSIZE for a in args):
        raise TooBig("scatter")
    X = np.zeros((model.M,) * len(open_))
    if any(a.size == 0 for a in args):
        return X
    v = einsum(subs, sub(open_), args) * term["c"] if args else np.array(term["c"])
    if not open_:
        return np.array(float(v))
    X[np.ix_(*[model.index_set(x[0]) for x in open_])] = v
    return X


def antisym(X, na, nc, groups_a=None, groups_c=None):
    """signed sum over the permutations within each group of axes (default: all annihilators, all creators)"""
    groups_a = groups_a or [list(range(na))]
    groups_c = groups_c or [list(range(nc))]

    def perms(groups):
        for ps in product(*[list(permutations(g)) for g in groups]):
            flat = [None] * sum(len(g) for g in groups)
            s = 1
            for g, p in zip(groups, ps):
                s *= perm_sign(p)
                for a, b in zip(g, p):
                    flat[a] = b
            yield s, flat
    out = np.zeros_like(X)
    for s1, p1 in perms(groups_a):
        for s2, p2 in perms(groups_c):
            out += s1 * s2 * np.transpose(X, p1 + [na + q for q in p2])
    return out


def spin_groups(names):
    a = [i for i, x in enumerate(names) if not x[0].isupper()]
    b = [i for i, x in enumerate(names) if x[0].isupper()]
    return [g for g in (a, b) if g]


def expected(model, terms):
    """{rank: full C array}: (n!)^2 times the antisymmetrized coefficient, per spin pattern for spin-integrated terms"""
    out = {}
    acc = {}
    for t in terms:
        cre, ann = t["op"]
        k = (len(ann), tuple(x[0].isupper() for x in ann), tuple(x[0].isupper() for x in cre))
        X = scatter(model, t)
        acc[k] = acc[k] + X if k in acc else X
    for (n, sa, sc), X in acc.items():
        if n == 0:
            v = X
        else:
            v = antisym(X, n, n, spin_groups(["G" if b else "g" for b in sa]), spin_groups(["G" if b else "g" for b in sc]))
        out[n] = out[n] + v if n in out else v
    return out


def n_perm(term):
    """number of distinct placements of the open indices over the factors they belong to (per space)"""
    r = 1
    for ops in term["op"]:
        if len(ops) < 2:
            continue
        blocks = {}
        for x in ops:
            for i, (k, nm, u, l) in enumerate(term["t"]):
                if x in u or x in l:
                    blocks[(i, x[0])] = blocks.get((i, x[0]), 0) + 1
        f = factorial(len(ops))
        for b in blocks.values():
            f //= factorial(b)
        r *= f
    return r
