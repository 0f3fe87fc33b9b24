"""Independent generation of driver inputs (never an oracle): partitions and strict partitions."""


def parts(n, mx=None):
    mx = n if mx is None else mx
    if n == 0:
        yield ()
        return
    for i in range(min(n, mx), 0, -1):
        for p in parts(n - i, i):
            yield (i,) + p


def upto(n):
    for k in range(n + 1):
        yield from parts(k)


def strict(n):
    return [p for p in parts(n) if len(set(p)) == len(p)]


def strict_upto(n):
    for k in range(n + 1):
        yield from strict(k)


def sub(mu):
    """partitions contained in mu"""
    def rec(i, prev):
        if i == len(mu):
            yield ()
            return
        for a in range(min(prev, mu[i]) + 1):
            for r in rec(i + 1, a):
                yield (a,) + r
    for p in rec(0, mu[0] if mu else 0):
        p = list(p)
        while p and p[-1] == 0:
            p.pop()
        yield tuple(p)


def sub_strict(mu):
    for p in sub(mu):
        if len(set(p)) == len(p):
            yield p


def random_partition(rng, n, strict_=False, top=9):
    out, left = [], n
    while left > 0:
        a = rng.randrange(1, min(left, top) + 1)
        out.append(a)
        left -= a
    if strict_:
        out = set(out)
    return tuple(sorted(out, reverse=True))


def random_sub(rng, mu, strict_=False):
    out, prev = [], mu[0] if mu else 0
    for a in mu:
        hi = min(prev if not strict_ else (prev - 1 if out else prev), a)
        if hi <= 0:
            break
        b = rng.randrange(0, hi + 1)
        if b == 0:
            break
        out.append(b)
        prev = b
    return tuple(out)
