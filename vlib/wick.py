"""Independent brute-force generalized Wick theorem (Mukherjee-Kutzelnigg) over operator positions.

An operator is (creators, annihilators); a^{pq}_{rs} stands for p+ q+ s r.  Nothing here is derived from the
code under test; it is validated against explicit Fock-space matrices in vlib/fock.py (self-test and C06)."""
from itertools import combinations

REL = {'c': frozenset('c'), 'a': frozenset('a'), 'v': frozenset('v'), 'p': frozenset('av'), 'h': frozenset('ca'),
       'g': frozenset('cav')}


def spaces(name):
    return REL[name[0].lower()]


def key_index(name):
    return ("gphvca".index(name[0].lower()) + (10 if name[0].isupper() else 0), int(name[1:]))


def parity(seq):
    n = 0
    seq = list(seq)
    for i in range(len(seq)):
        for j in range(i + 1, len(seq)):
            if seq[i] > seq[j]:
                n += 1
    return -1 if n & 1 else 1


def sort_sign(names):
    k = [key_index(n) for n in names]
    order = sorted(range(len(k)), key=lambda i: k[i])
    return tuple(names[i] for i in order), parity(order)


def norm_index(n):
    return n[0] + str(int(n[1:]))


class Pos:
    __slots__ = ("cre", "name", "macro", "sp", "pos")

    def __init__(self, cre, name, macro, pos):
        self.cre, self.name, self.macro, self.pos = cre, name, macro, pos
        self.sp = spaces(name)


def positions(ops):
    out = []
    for m, (cre, ann) in enumerate(ops):
        for c in cre:
            out.append(Pos(True, c, m, len(out)))
        for a in reversed(ann):
            out.append(Pos(False, a, m, len(out)))
    return out


def contractions(ops, max_cu, min_open=0, max_open=10 ** 9, limit=None):
    """yield (blocks, open positions); a block is (kind, cre positions, ann positions)"""
    P = positions(ops)
    N = len(P)
    act = [('a' in p.sp) for p in P]
    count = [0]

    def rec(i, free, n_con, n_op, blocks, opens):
        # free: tuple of unassigned positions >= i (sorted)
        if not free:
            if min_open <= n_op <= max_open:
                count[0] += 1
                if limit and count[0] > limit:
                    raise OverflowError
                yield list(blocks), list(opens)
            return
        x = free[0]
        rest = free[1:]
        p = P[x]
        if n_op < max_open:
            opens.append(x)
            yield from rec(i, rest, n_con, n_op + 1, blocks, opens)
            opens.pop()
        # pairwise
        for k, y in enumerate(rest):
            q = P[y]
            if q.cre == p.cre or q.macro == p.macro:
                continue
            if p.cre:
                if not (p.sp & q.sp & REL['h']):
                    continue
                b = ('L', (x,), (y,))
            else:
                if not (p.sp & q.sp & REL['p']):
                    continue
                b = ('C', (y,), (x,))
            blocks.append(b)
            yield from rec(i, rest[:k] + rest[k + 1:], n_con + 2, n_op, blocks, opens)
            blocks.pop()
        if max_cu >= 2 and act[x]:
            same = [y for y in rest if act[y] and P[y].cre == p.cre]
            opp = [y for y in rest if act[y] and P[y].cre != p.cre]
            for n in range(2, max_cu + 1):
                if len(same) < n - 1 or len(opp) < n:
                    break
                for s in combinations(same, n - 1):
                    for o in combinations(opp, n):
                        macros = {P[y].macro for y in s} | {P[y].macro for y in o} | {p.macro}
                        if len(macros) == 1:
                            continue
                        used = set(s) | set(o)
                        mine = (x,) + s
                        b = ('L', mine, o) if p.cre else ('L', o, mine)
                        blocks.append(b)
                        yield from rec(i, tuple(y for y in rest if y not in used), n_con + 2 * n, n_op, blocks, opens)
                        blocks.pop()

    yield from ((P, b, o) for b, o in rec(0, tuple(range(N)), 0, 0, [], []))


def sign_of(P, blocks, opens):
    order = []
    for kind, cre, ann in blocks:
        if kind == 'C':
            order += [ann[0], cre[0]]
        else:
            # names: upper = cre in position order, lower listed in position order reversed later
            order += list(cre)
            order += [y for y in ann]
    up = [x for x in opens if P[x].cre]
    lo = [x for x in opens if not P[x].cre]
    return parity(order + up + lo)


def materialize(P, blocks, opens):
    """-> sign, [(kind, upper, lower)], (cre, ann) with lower lists in 'reversed position' convention"""
    s = sign_of(P, blocks, opens)
    dens = []
    for kind, cre, ann in blocks:
        # string order is u1..un ln..l1, so the lower list is the reverse of the annihilator string
        dens.append((kind, [P[x].name for x in cre], [P[y].name for y in reversed(ann)]))
    cre = [P[x].name for x in opens if P[x].cre]
    ann = [P[x].name for x in reversed(opens) if not P[x].cre]
    return s, dens, (cre, ann)


def is_connected(P, blocks, n_ops):
    par = list(range(n_ops))

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    for _, cre, ann in blocks:
        ms = [P[x].macro for x in cre + ann]
        for m in ms[1:]:
            a, b = find(ms[0]), find(m)
            if a != b:
                par[a] = b
    return len({find(i) for i in range(n_ops)}) == 1


def prefix_connected(P, blocks):
    """the enumeration order of the known finding: categories ascending by (size, tuple), pairwise first"""
    cats = sorted((tuple([P[x].macro for x in cre] + [P[y].macro for y in sorted(ann, reverse=False)])
                   for _, cre, ann in blocks), key=lambda c: (len(c), c))
    seen = set()
    for c in cats:
        if seen and not (seen & set(c)):
            return False
        seen |= set(c)
    return True


def canon_key(dens, op):
    """canonical key and sign for a list of density tensors and an operator"""
    s = 1
    out = []
    for kind, u, l in dens:
        u, su = sort_sign([norm_index(x) for x in u])
        l, sl = sort_sign([norm_index(x) for x in l])
        s *= su * sl
        out.append((kind, u, l))
    cre, s1 = sort_sign([norm_index(x) for x in op[0]])
    ann, s2 = sort_sign([norm_index(x) for x in op[1]])
    return (tuple(sorted(out)), cre, ann), s * s1 * s2


def vanishes(kind, u, l):
    if kind == 'L':
        if len(u) == 1:
            return not (spaces(u[0]) & spaces(l[0]) & REL['h'])
        return any('a' not in spaces(x) for x in list(u) + list(l))
    if kind == 'C':
        return not (spaces(u[0]) & spaces(l[0]) & REL['p'])
    if kind == 'K':
        return not (spaces(u[0]) & spaces(l[0]))
    return False


def expand_holes(dens):
    outs = [(1, [])]
    for kind, u, l in dens:
        if kind == 'C':
            outs = [(s, d + [('K', u, l)]) for s, d in outs] + [(-s, d + [('L', u, l)]) for s, d in outs]
        else:
            outs = [(s, d + [(kind, u, l)]) for s, d in outs]
    return [(s, d) for s, d in outs if not any(vanishes(*x) for x in d)]


def add(m, dens, op, c):
    if any(vanishes(*x) for x in dens):
        return
    k, s = canon_key(dens, op)
    v = m.get(k, 0) + c * s
    if v:
        m[k] = v
    else:
        m.pop(k, None)


def coefficient_map(ops, max_cu, min_open, max_open, connected=False, expand=True, limit=None):
    """-> map key -> coefficient, and (connected mode) the map of the part lost by the known finding"""
    m, lost = {}, {}
    n = 0
    for P, blocks, opens in contractions(ops, max_cu, min_open, max_open, limit):
        tgt = m
        if connected:
            if not any(len(b[1]) == 1 for b in blocks) or not is_connected(P, blocks, len(ops)):
                continue
            if not prefix_connected(P, blocks):
                tgt = lost
        n += 1
        s, dens, op = materialize(P, blocks, opens)
        if expand:
            for s2, d in expand_holes(dens):
                add(tgt, d, op, s * s2)
        else:
            add(tgt, dens, op, s)
    return m, lost, n


def event_map(con):
    m = {}
    dup = 0
    for sign, dens, op in con:
        add(m, [(k, u, l) for k, name, u, l in dens], op, sign)
    return m


def count(ops, max_cu, min_open, max_open, limit):
    """number of contractions; OverflowError above limit"""
    n = 0
    for _ in contractions(ops, max_cu, min_open, max_open, limit):
        n += 1
    return n
