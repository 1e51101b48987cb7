"""Explicit fermionic Fock space: the ground truth.  Annihilators are 2^M x 2^M matrices; a random correlated
reference (core filled, active space in a random multi-determinant state, virtual empty) gives true reduced density
matrices and cumulants; generalized-normal-ordered operators are built from their definition."""
import numpy as np
from itertools import combinations, permutations
from math import comb, factorial
from . import numev
from .numev import perm_sign, einsum, LET


def annihilators(M):
    I, Z, A = np.eye(2), np.diag([1.0, -1.0]), np.array([[0.0, 1.0], [0.0, 0.0]])
    out = []
    for i in range(M):
        m = np.array([[1.0]])
        for j in range(M):
            m = np.kron(m, Z if j < i else (A if j == i else I))
        out.append(m)
    return out


def partitions_lambda(cre, ann, full=False):
    """all ways to contract subsets of a single operator string with cumulants.
    cre, ann: tuples of position labels 0..n-1 of a^{cre}_{ann}.
    yields list of (creblock, annblock) with remaining (cre, ann)"""
    def rec(c, a):
        if not c:
            yield [], (), a
            return
        x, rest = c[0], c[1:]
        # leave x open
        for bl, oc, oa in rec(rest, a):
            yield bl, (x,) + oc, oa
        for n in range(1, len(c) + 1):
            if n > len(a):
                break
            for s in combinations(rest, n - 1):
                r2 = tuple(y for y in rest if y not in s)
                for o in combinations(a, n):
                    a2 = tuple(y for y in a if y not in o)
                    for bl, oc, oa in rec(r2, a2):
                        yield [((x,) + s, o)] + bl, oc, oa
    yield from rec(tuple(cre), tuple(ann))


class Fock:
    def __init__(self, seed, dims, nact_elec=None, hermitian_model=None):
        nc, na, nv = dims
        self.dims = dims
        self.M = M = nc + na + nv
        rng = np.random.default_rng([seed, 77])
        self.a = annihilators(M)
        self.D = 2 ** M
        self.one = np.eye(self.D)
        # reference state
        vac = np.zeros(self.D)
        vac[0] = 1.0
        ne = nact_elec if nact_elec is not None else na // 2
        psi = np.zeros(self.D)
        for occ in combinations(range(nc, nc + na), ne):
            v = vac
            for i in reversed(list(range(nc)) + list(occ)):
                v = self.a[i].T @ v
            psi += rng.normal() * v
        if na == 0:
            pass
        psi /= np.linalg.norm(psi)
        self.psi = psi
        self.active = list(range(nc, nc + na))
        self._raw = {}
        self._gno = {}
        self._cum = {}

    # a^{P}_{Q} = p1+ ... pn+ qn ... q1
    def raw(self, P, Q):
        k = (P, Q)
        if k not in self._raw:
            m = self.one
            for p in P:
                m = m @ self.a[p].T
            for q in reversed(Q):
                m = m @ self.a[q]
            self._raw[k] = m
        return self._raw[k]

    def rdm(self, P, Q):
        v = self.psi
        for q in Q:
            v = self.a[q] @ v
        w = self.psi
        for p in P:
            w = self.a[p] @ w
        # <psi| P+ ... Qn..Q1 |psi>; P+ = p1+..pn+ -> bra: (pn..p1 psi)
        return float(w @ v)

    def cumulant(self, P, Q):
        """lambda^{P}_{Q} for arbitrary index tuples"""
        sP, sQ = tuple(sorted(P)), tuple(sorted(Q))
        if len(set(P)) < len(P) or len(set(Q)) < len(Q):
            return 0.0
        s = perm_sign(P) * perm_sign(Q)
        return s * self._cumulant(sP, sQ)

    def _cumulant(self, P, Q):
        k = (P, Q)
        if k in self._cum:
            return self._cum[k]
        n = len(P)
        v = self.rdm(P, Q)
        if n > 1:
            for bl, oc, oa in partitions_lambda(range(n), range(n)):
                if oc or oa or len(bl) == 1:
                    continue
                v -= self._part_sign(bl, (), ()) * np.prod([self.cumulant(tuple(P[i] for i in c), tuple(Q[j] for j in a)) for c, a in bl])
        self._cum[k] = v
        return v

    @staticmethod
    def _part_sign(bl, oc, oa, n=None, m=None):
        # parity of the string reordering  0+ 1+ .. (m-1) .. 1 0  ->  block strings followed by the remaining string
        m = len(oa) + sum(len(a) for _, a in bl)
        n = len(oc) + sum(len(c) for c, _ in bl)
        seq = []
        for c, a in list(bl) + [(oc, oa)]:
            seq += list(c) + [n + m - 1 - x for x in reversed(a)]
        return perm_sign(seq)

    def gno(self, P, Q):
        """{a^P_Q} for sorted tuples of possibly different... (equal) lengths"""
        k = (P, Q)
        if k in self._gno:
            return self._gno[k]
        if len(P) == 0 and len(Q) == 0:
            return self.one
        m = self.raw(P, Q).copy()
        for bl, oc, oa in partitions_lambda(range(len(P)), range(len(Q))):
            if not bl:
                continue
            c = self._part_sign(bl, oc, oa)
            for cc, aa in bl:
                c = c * self.cumulant(tuple(P[i] for i in cc), tuple(Q[j] for j in aa))
                if c == 0.0:
                    break
            if abs(c) < 1e-14:
                continue
            m -= c * self.gno(tuple(P[i] for i in oc), tuple(Q[j] for j in oa))
        self._gno[k] = m
        return m

    # -- numeric model consistent with this reference ------------------------------------------------------
    def model(self, seed, hermitian=True):
        m = numev.Model(seed, self.dims, hermitian=hermitian)
        M = self.M
        R1 = np.zeros((M, M))
        for p in range(M):
            for q in range(M):
                R1[p, q] = self.cumulant((p,), (q,))
        m.over[('R', 'L', 'L', 1)] = R1
        m.over[('R', 'C', 'C', 1)] = np.eye(M) - R1.T
        for n in range(2, len(self.active) + 1):
            cb = list(combinations(range(M), n))
            R = np.zeros((len(cb), len(cb)))
            for i, P in enumerate(cb):
                if not set(P) <= set(self.active):
                    continue
                for j, Q in enumerate(cb):
                    if set(Q) <= set(self.active):
                        R[i, j] = self.cumulant(P, Q)
            m.over[('R', 'L', 'L', n)] = R
        self.max_rank_known = len(self.active)
        return m

    def coefficient(self, model, term):
        """array over M^(ncre+nann) of the term's operator coefficients (not antisymmetrized)"""
        cre, ann = term["op"]
        letters, args, subs = {}, [], []

        def sub(names):
            s = ""
            for n in names:
                n = n[0] + str(int(n[1:]))
                if n not in letters:
                    letters[n] = LET[len(letters)]
                s += letters[n]
            return s
        for kind, name, u, l in term["t"]:
            args.append(model.tensor(kind, name, u, l, "so"))
            subs.append(sub(u) + sub(l))
        out = sub(cre) + sub(ann)
        nlet = "".join(subs)
        # open indices not on any tensor (pure operator): attach ones
        for ch, nm in zip(out, list(cre) + list(ann)):
            if ch not in nlet:
                args.append(np.ones(len(model.index_set(nm[0]))))
                subs.append(ch)
        full = np.zeros((self.M,) * len(out))
        sets = [model.index_set(n[0]) for n in list(cre) + list(ann)]
        if any(len(s) == 0 for s in sets) or any(a.size == 0 for a in args):
            return full
        if args:
            val = einsum(subs, out, args) * term["c"]
        else:
            val = np.array(term["c"])
        if len(out) == 0:
            return np.array(float(val))
        full[np.ix_(*sets)] = val
        return full

    def coeffs(self, model, terms):
        acc = {}
        for t in terms:
            k = (len(t["op"][0]), len(t["op"][1]))
            c = self.coefficient(model, t)
            acc[k] = acc[k] + c if k in acc else c
        return acc

    def to_matrix(self, acc):
        m = np.zeros((self.D, self.D))
        for (nc, na), arr in acc.items():
            if nc == 0 and na == 0:
                m += float(arr) * self.one
                continue
            cp = np.array(list(combinations(range(self.M), nc)), dtype=int).reshape(comb(self.M, nc), nc)
            cq = np.array(list(combinations(range(self.M), na)), dtype=int).reshape(comb(self.M, na), na)
            if not len(cp) or not len(cq):
                continue
            anti = np.zeros((len(cp), len(cq)))
            for p in permutations(range(nc)):
                s = perm_sign(p)
                ip = [cp[:, x][:, None] for x in p]
                for q in permutations(range(na)):
                    anti += s * perm_sign(q) * arr[tuple(ip + [cq[:, x][None, :] for x in q])]
            for a, b in zip(*np.nonzero(np.abs(anti) > 1e-13)):
                m += anti[a, b] * self.gno(tuple(cp[a]), tuple(cq[b]))
        return m

    def matrix(self, model, terms):
        return self.to_matrix(self.coeffs(model, terms))
