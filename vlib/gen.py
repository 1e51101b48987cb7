"""Workload generators shared by the checks."""

LABELS = "ghpcav"


def rand_numbers(rng, n, wide=False):
    """n distinct index numbers, sometimes sparse / multi-digit / shuffled"""
    style = rng.random()
    if style < 0.5:
        s = rng.randint(0, 3)
        out = list(range(s, s + n))
    elif style < 0.8:
        out = rng.sample(range(0, 4 * n + 8), n)
    else:
        out = rng.sample(range(0, 130 if wide or rng.random() < 0.7 else 2000), n)
    if rng.random() < 0.5:
        rng.shuffle(out)
    return out


def rand_labels(rng, n, pool=None):
    pool = pool or rng.choice([LABELS, LABELS, "ghp", "gac", "ga", "hp", "cv", "cav", "ca", "av", "g", "a"])
    return [rng.choice(pool) for _ in range(n)]


def rand_ops(rng, n_ops, ranks, unbalanced=0.2, diag=0.1, pool=None, maxtot=None):
    """a list of operators [cre, ann] with distinct labels (possibly diagonal)"""
    spec = []
    for _ in range(n_ops):
        r = rng.choice(ranks)
        c = a = r
        if rng.random() < unbalanced:
            c, a = rng.randint(0, r), rng.randint(0, r)
            if c + a == 0:
                c = 1
        spec.append((c, a))
    tot = sum(c + a for c, a in spec)
    if maxtot:
        while tot > maxtot:
            k = max(range(len(spec)), key=lambda i: sum(spec[i]))
            c, a = spec[k]
            spec[k] = (c - 1, a) if c > a else ((c, a - 1) if a > c else (c - 1, a - 1))
            tot = sum(c + a for c, a in spec)
    tot = sum(c + a for c, a in spec)
    nums = rand_numbers(rng, tot)
    labs = rand_labels(rng, tot, pool)
    if rng.random() < 0.35:     # numbers may repeat across different space labels
        cnt = {}
        for i, l in enumerate(labs):
            nums[i] = cnt.get(l, 0)
            cnt[l] = nums[i] + 1
    names = [l + str(k) for l, k in zip(labs, nums)]
    ops, p = [], 0
    for c, a in spec:
        cre, ann = names[p:p + c], names[p + c:p + c + a]
        p += c + a
        if c and a and rng.random() < diag:
            i, j = rng.randrange(c), rng.randrange(a)
            if cre[i] not in ann:
                ann[j] = cre[i]
        ops.append([cre, ann])
    return [o for o in ops if o[0] or o[1]]
