"""Numerical meaning of terms: every tensor name/rank gets random values with the assumed symmetries, the
second-quantized operator gets a random antisymmetric (or unsymmetric, spin-adapted) tensor, and a term becomes
one number.  Two sums of terms describe the same operator iff the numbers agree (generic random values)."""
import numpy as np
from itertools import combinations, permutations
from math import comb, factorial
import zlib

SPN = {'c': 'c', 'a': 'a', 'v': 'v', 'h': 'ca', 'p': 'av', 'g': 'cav'}
LET = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def perm_sign(p):
    s = 1
    p = list(p)
    for i in range(len(p)):
        for j in range(i + 1, len(p)):
            if p[i] > p[j]:
                s = -s
    return s


class Model:
    """mode: 'so' (labels lower case, one set of orbitals); 'si' (lower = alpha, upper = beta orbitals; lower-case
    labels mean alpha only); 'soX' (lower-case labels run over alpha and beta: spin-orbital view of the 'si' model);
    singlet=True builds the antisymmetric tensors of the si/soX views from spin-free ones (used with 'sa')."""

    def __init__(self, seed, dims=(2, 3, 2), hermitian=True, spin=False, singlet=False, gamma=None, zero_active_t=True, sparse_ops=None):
        self.rs = seed
        nc, na, nv = dims
        self.nc, self.na, self.nv = nc, na, nv
        self.G = nc + na + nv
        self.spin, self.singlet = spin, singlet
        self.hermitian = hermitian
        self.zero_active_t = zero_active_t
        base = {'c': list(range(nc)), 'a': list(range(nc, nc + na)), 'v': list(range(nc + na, self.G))}
        self.base = base
        self.sets = {}
        for lab, parts in SPN.items():
            al = [x for s in parts for x in base[s]]
            self.sets[lab] = np.array(al, dtype=int)
            self.sets[lab.upper()] = np.array([x + self.G for x in al], dtype=int)
        self.M = 2 * self.G if spin else self.G
        self.soX = False
        self.cache = {}
        self.over = {}      # overrides: (kind,name,n) -> R matrix / full array
        self.rank_cache = {}

    # -- raw random data ------------------------------------------------------------------------------
    def rng(self, *key):
        return np.random.default_rng([self.rs & 0xffffffff, zlib.crc32(repr(key).encode())])

    def ranks(self, n):
        """rank and sign arrays over M^n index tuples"""
        if n not in self.rank_cache:
            M = self.M
            rk = np.zeros((M,) * n, dtype=int)
            sg = np.zeros((M,) * n)
            combos = list(combinations(range(M), n))
            perms = [(p, perm_sign(p)) for p in permutations(range(n))]
            for r, c in enumerate(combos):
                for p, s in perms:
                    t = tuple(c[i] for i in p)
                    rk[t] = r
                    sg[t] = s
            self.rank_cache[n] = (rk, sg, combos)
        return self.rank_cache[n]

    def is_act(self, x):
        x = x % self.G
        return self.nc <= x < self.nc + self.na

    def nbeta(self, c):
        return sum(1 for x in c if x >= self.G)

    def sf_tensor(self, kind, name, n):
        """spin-free tensor x[u...,l...] with pair-permutation (and Hermitian) symmetry, over G"""
        key = ('sf', kind, name, n)
        if key in self.cache:
            return self.cache[key]
        G = self.G
        r = self.rng('sf', kind, name, n)
        if kind == 'K':
            x = np.eye(G)
        elif kind in 'LC' and n == 1:
            x = np.zeros((G, G))
            for i in range(self.nc):
                x[i, i] = 1.0
            s = slice(self.nc, self.nc + self.na)
            y = r.uniform(-1, 1, (self.na, self.na))
            x[s, s] = (y + y.T) / 2 if self.hermitian else y
            if kind == 'C':
                x = np.eye(G) - self.sf_tensor('L', 'L', 1)
        else:
            x = r.uniform(-1, 1, (G,) * (2 * n))
            y = 0
            for p in permutations(range(n)):
                y = y + np.transpose(x, list(p) + [n + i for i in p])
            x = y / factorial(n)
            if self.hermitian:
                x = (x + np.transpose(x, list(range(n, 2 * n)) + list(range(n)))) / 2
            act = np.zeros(G, bool)
            act[self.nc:self.nc + self.na] = True
            allact = np.ones((1,) * (2 * n), bool)
            for ax in range(2 * n):
                sh = [1] * (2 * n)
                sh[ax] = G
                allact = allact & act.reshape(sh)
            if kind == 'L':
                x = np.where(allact, x, 0.0)
            elif kind == 'T' and self.zero_active_t:
                x = np.where(allact, 0.0, x)
        self.cache[key] = x
        return x

    def R(self, kind, name, n):
        """matrix over (sorted upper combination, sorted lower combination)"""
        key = ('R', kind, name, n)
        if key in self.over:
            return self.over[key]
        if key in self.cache:
            return self.cache[key]
        M = self.M
        combos = list(combinations(range(M), n))
        m = len(combos)
        if self.singlet:
            x = self.sf_tensor(kind, name, n)
            R = np.zeros((m, m))
            perms = [(p, perm_sign(p)) for p in permutations(range(n))]
            for i, u in enumerate(combos):
                for j, l in enumerate(combos):
                    if self.nbeta(u) != self.nbeta(l):
                        continue
                    v = 0.0
                    for p, s in perms:
                        lp = [l[k] for k in p]
                        if all((a >= self.G) == (b >= self.G) for a, b in zip(u, lp)):
                            v += s * x[tuple(a % self.G for a in u) + tuple(b % self.G for b in lp)]
                    R[i, j] = v
            self.cache[key] = R
            return R
        r = self.rng('R', kind, name, n)
        if kind == 'K':
            R = np.eye(m)
        elif kind in 'LC' and n == 1:
            R = np.zeros((M, M))
            blocks = [0, self.G] if self.spin else [0]
            for off in blocks:
                for i in range(self.nc):
                    R[off + i, off + i] = 1.0
                s = slice(off + self.nc, off + self.nc + self.na)
                y = self.rng('R', 'L', 'L', 1, off).uniform(-1, 1, (self.na, self.na))
                R[s, s] = (y + y.T) / 2 if self.hermitian else y
            if kind == 'C':
                R = np.eye(M) - R
        else:
            R = r.uniform(-1, 1, (m, m))
            if self.hermitian:
                R = (R + R.T) / 2
            allact = np.array([all(self.is_act(x) for x in c) for c in combos])
            aa = np.outer(allact, allact)
            if kind == 'L':
                R = np.where(aa, R, 0.0)
            elif kind == 'T' and self.zero_active_t:
                R = np.where(aa, 0.0, R)
            if self.spin:
                nb = np.array([self.nbeta(c) for c in combos])
                R = np.where(nb[:, None] == nb[None, :], R, 0.0)
        self.cache[key] = R
        return R

    def Rop(self, nu, nl):
        """random values for the operator: antisymmetric in creators and in annihilators, no Hermiticity"""
        key = ('A', nu, nl)
        if key in self.over:
            return self.over[key]
        if key not in self.cache:
            R = self.rng('A', nu, nl).uniform(-1, 1, (comb(self.M, nu), comb(self.M, nl)))
            if self.spin and nu == nl:
                cb = [self.nbeta(c) for c in combinations(range(self.M), nu)]
                nb = np.array(cb)
                R = np.where(nb[:, None] == nb[None, :], R, 0.0)
            self.cache[key] = R
        return self.cache[key]

    # -- blocks ------------------------------------------------------------------------------------------
    def index_set(self, label):
        if self.soX and label.islower():
            return np.concatenate([self.sets[label], self.sets[label.upper()]])
        return self.sets[label]

    def block(self, R, ulabels, llabels):
        nu, nl = len(ulabels), len(llabels)
        us = [self.index_set(x) for x in ulabels]
        ls = [self.index_set(x) for x in llabels]
        if nu:
            rk, sg, _ = self.ranks(nu)
            ix = np.ix_(*us)
            ru, su = rk[ix].ravel(), sg[ix].ravel()
        else:
            ru, su = np.zeros(1, int), np.ones(1)
        if nl:
            rk, sg, _ = self.ranks(nl)
            ix = np.ix_(*ls)
            rl, sl = rk[ix].ravel(), sg[ix].ravel()
        else:
            rl, sl = np.zeros(1, int), np.ones(1)
        if not R.size:              # more indices than orbitals
            return np.zeros([len(u) for u in us] + [len(l) for l in ls])
        out = R[np.ix_(ru, rl)] * su[:, None] * sl[None, :]
        return out.reshape([len(u) for u in us] + [len(l) for l in ls])

    def tensor(self, kind, name, upper, lower, ty):
        ul, ll = [x[0] for x in upper], [x[0] for x in lower]
        key = (kind, name, tuple(ul), tuple(ll), ty, self.soX)
        if key in self.cache:
            return self.cache[key]
        n = len(ul)
        if ty == 'sa':
            x = self.sf_tensor(kind, name, n)
            out = x[np.ix_(*[self.sets[q.lower()] for q in ul + ll])]
        else:
            if len(ul) != len(ll):
                R = self.rng('X', kind, name, len(ul), len(ll)).uniform(-1, 1, (comb(self.M, len(ul)), comb(self.M, len(ll))))
            else:
                R = self.R(kind, name, n)
            out = self.block(R, ul, ll)
        if out.size < 2_000_000:
            self.cache[key] = out
        return out

    def opblock(self, cre, ann, ty):
        ul, ll = [x[0] for x in cre], [x[0] for x in ann]
        key = ('A', tuple(ul), tuple(ll), ty, self.soX)
        if key in self.cache:
            return self.cache[key]
        if ty == 'sa':
            k2 = ('Asa', len(ul), len(ll))
            if k2 not in self.cache:
                self.cache[k2] = self.over.get(k2) if k2 in self.over else \
                    self.rng('Asa', len(ul), len(ll)).uniform(-1, 1, (self.G,) * (len(ul) + len(ll)))
            out = self.cache[k2][np.ix_(*[self.sets[q.lower()] for q in ul + ll])]
        else:
            out = self.block(self.Rop(len(ul), len(ll)), ul, ll)
        self.cache[key] = out
        return out

    def value(self, term):
        """scalar value of a serialized term"""
        c = term["c"]
        cre, ann = term["op"]
        ty = term.get("ty", "so")
        args, subs = [], []
        letters = {}

        def sub(names):
            out = []
            for n in names:
                n = n[0] + str(int(n[1:]))
                if n not in letters:
                    letters[n] = LET[len(letters)]
                out.append(letters[n])
            return "".join(out)
        if cre or ann:
            args.append(self.opblock(cre, ann, ty))
            subs.append(sub(cre) + sub(ann))
        for kind, name, u, l in term["t"]:
            args.append(self.tensor(kind, name, u, l, ty))
            subs.append(sub(u) + sub(l))
        if not args:
            return c
        if any(a.size == 0 for a in args):
            return 0.0
        return c * float(einsum(subs, "", args))

    def values(self, terms):
        vs = [self.value(t) for t in terms]
        return sum(vs), sum(abs(v) for v in vs)


class TooBig(Exception):
    """the numerical evaluation would be too expensive; the case is skipped (and counted)"""


_paths = {}
MAX_COST = 3e8


def path_cost(subs, out, args, path):
    size = {}
    for s, a in zip(subs, args):
        for ch, n in zip(s, a.shape):
            size[ch] = n
    left = [set(s) for s in subs]
    cost = 0
    for step in path[1:]:
        step = sorted(step, reverse=True)
        taken = [left.pop(i) for i in step]
        u = set().union(*taken)
        keep = set(out).union(*left) if left else set(out)
        c = 1
        for ch in u:
            c *= size[ch]
        cost += c
        left.append(u & keep)
    return cost


def einsum(subs, out, args):
    eq = ",".join(subs) + "->" + out
    if len(args) <= 2:
        return np.einsum(eq, *args, optimize=len(args) == 2)
    key = (eq, tuple(a.shape for a in args))
    p = _paths.get(key)
    if p is None:
        p = np.einsum_path(eq, *args, optimize='greedy')[0]
        if path_cost(subs, out, args, p) > MAX_COST / 10:
            if len(args) <= 7:
                p2 = np.einsum_path(eq, *args, optimize='optimal')[0]
                if path_cost(subs, out, args, p2) < path_cost(subs, out, args, p):
                    p = p2
        if path_cost(subs, out, args, p) > MAX_COST:
            p = "big"
        if len(_paths) < 200000:
            _paths[key] = p
    if p == "big":
        raise TooBig(eq)
    return np.einsum(eq, *args, optimize=p)


def close(x, y, scale=0.0):
    return abs(x - y) <= 1e-9 * (1.0 + abs(x) + abs(y) + scale)
