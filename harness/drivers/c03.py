"""Signed permutation arithmetic: random sessions over shared registers, walks, and exhaustive small pairs."""
import itertools
from permutations import Permutation
import enc
import tabs
from tableaux import Tableau
from machine import Machine

TRACE_SPEC = 'C03Trace'
MODELS = [('PermsModel', 'PermsModel.cfg', ('quick', 'thorough')), ('PermsModel', 'PermsModelA.cfg', ('quick', 'thorough')),
          ('PermsModel', 'PermsModelB.cfg', ('thorough',))]
P = Permutation
NR = 4


def elt(w):
    if not isinstance(w, Permutation):
        raise enc.BadValue('expected a permutation')
    if w.rank != len(w.oneline):
        raise enc.BadValue('rank does not match the one-line word')
    return [enc.need_int(i) for i in w.oneline]


def signed(n, neg):
    for p in itertools.permutations(range(1, n + 1)):
        for s in (itertools.product([1, -1], repeat=n) if neg else [(1,) * n]):
            yield [a * b for a, b in zip(p, s)]


def rand(rng, n, neg):
    w = list(range(1, n + 1))
    rng.shuffle(w)
    return [a * rng.choice([1, -1]) if neg else a for a in w]


def rand_inv(rng, n, neg, fpf=False):
    w = list(range(1, n + 1))
    pts = list(w)
    rng.shuffle(pts)
    while len(pts) > 1:
        a, b = pts.pop(), pts.pop()
        if fpf or rng.random() < .7:
            s = rng.choice([1, -1]) if neg else 1
            w[a - 1], w[b - 1] = s * b, s * a
        elif neg:
            w[a - 1] *= rng.choice([1, -1])
            w[b - 1] *= rng.choice([1, -1])
    return w


def sessions(tier, rng):
    big = tier != 'quick'
    out = [('random', i) for i in range(12000 if big else 3000)]
    out += [('walk', i) for i in range(4000 if big else 900)]
    ids = list(range(48))
    out += [('pairsB', i) for i in ids]
    out += [('pairsA', i) for i in range(24 if not big else 120)]
    out += [('each', i) for i in range(24)]
    return out


def queries(m, a, rng=None):
    w = m.regs[a - 1]
    I = lambda x: x
    ints = lambda x: [enc.need_int(t) for t in x]
    m.op('hash', lambda: [hash(w) % 1000003, str(w)], a=a, encode=I)
    m.op('show', lambda: [repr(w), w.oneline_repr(), w.tex()], a=a, encode=lambda x: [t if isinstance(t, str) else 1 / 0 for t in x])
    m.op('lens', lambda: [len(w), w.length, w.rank], a=a, encode=ints)
    m.op('desc', lambda: [sorted(w.right_descent_set), sorted(w.left_descent_set)], a=a, encode=I)
    m.op('lastdesc', lambda: w.last_descent() or 0, a=a, encode=enc.need_int)
    pts = list(range(-len(w.oneline) - 2, len(w.oneline) + 3))
    m.op('act', lambda: [w(i) for i in pts], a=a, pts=pts, encode=ints)
    m.op('flags', lambda: [w.is_identity(), w.is_unsigned(), w.is_involution(), w.is_fpf_involution(), w.is_even_signed()], a=a,
         encode=lambda x: [enc.need_bool(t) for t in x])
    inv = all(w(w(i)) == i for i in w.oneline)
    if inv:
        m.op('invlen', lambda: w.involution_length, a=a, encode=enc.need_int)
        if all(w(i) != i for i in range(1, w.rank + 1)) and all(i > 0 for i in w.oneline):
            m.op('fpflen', lambda: w.fpf_involution_length, a=a, encode=enc.need_int)
        m.op('parts', lambda: [w.pair(), w.neg(), w.fix(), w.cyc()], a=a, encode=lambda r: [[list(t) for t in x] for x in r])
    if all(i > 0 for i in w.oneline):
        m.op('cycles', lambda: w.cycles, a=a, encode=I)
    m.op('redword', lambda: w.get_reduced_word() if a % 2 else w.reduced_word, a=a, encode=lambda t: list(t))


def run_session(sess, rec):
    rng = rec.rng
    m = Machine(rec, NR, lambda: Permutation(), elt)
    R = m.regs

    def make(d, w):
        how = rng.randrange(3)
        m.op('make', (lambda: P(*w)) if how == 0 or len(w) == 0 else (lambda: P(tuple(w))) if how == 1 else (lambda: P(list(w))), dst=d, val=w)

    if sess[0] in ('pairsB', 'pairsA'):
        allw = list(signed(3, True)) if sess[0] == 'pairsB' else list(signed(4, False)) if sess[1] < 24 else list(signed(5, False))
        x = allw[sess[1]] if sess[1] < len(allw) else rng.choice(allw)
        make(1, x)
        ys = allw if len(allw) <= 48 else rng.sample(allw, 40)
        for y in ys:
            make(2, y)
            m.op('mul', lambda: R[0] * R[1], dst=3, a=1, b=2)
            m.op('dem', lambda: R[0] % R[1], dst=4, a=1, b=2)
            m.op('eq', lambda: [R[2] == R[3], R[2] != R[3]], a=3, b=4, encode=lambda v: v)
            m.op('lt', lambda: [R[2] < R[1], R[1] < R[2]], a=3, b=2, encode=lambda v: v)
            m.op('lens', lambda: [len(R[3]), R[3].length, R[3].rank], a=4, encode=lambda v: v)
        return
    if sess[0] == 'each':
        todo = [w for n in range(4) for w in signed(n, True)] + list(signed(4, False))
        todo += [rand(rng, 5, False) for _ in range(24)] + [rand(rng, 4, True) for _ in range(24)]
        for k, w in enumerate(todo):
            if k % 24 != sess[1]:
                continue
            make(1, w)
            make(2, w + [len(w) + 1, len(w) + 2])
            queries(m, 1)
            queries(m, 2)
            m.op('eq', lambda: [R[0] == R[1], R[0] != R[1]], a=1, b=2, encode=lambda v: v)
            for k in range(-3, 5):
                m.op('pow', lambda: R[0] ** k, dst=3, a=1, k=k)
            m.op('inv', lambda: R[0].inverse(), dst=3, a=1)
        return
    if sess[0] == 'walk':
        neg = sess[1] % 2
        n = rng.choice([3, 4, 5, 6])
        letters = []
        for _ in range(rng.randrange(6, 22)):
            i = rng.randrange(0 if neg else 1, n)
            letters.append(i)
            s = P.s_i(i)
            m.op('gstep', lambda: R[0] * s, dst=1, a=1, i=i)
            m.op('hstep', lambda: R[1] % s, dst=2, a=2, i=i)
            if rng.random() < .3:
                m.op('lens', lambda: [len(R[1]), R[1].length, R[1].rank], a=2, encode=lambda v: v)
                m.op('desc', lambda: [sorted(R[1].right_descent_set), sorted(R[1].left_descent_set)], a=2, encode=lambda v: v)
        m.op('word', lambda: P.from_word(letters if neg else tuple(letters)), dst=3, word=letters)
        m.op('eq', lambda: [R[0] == R[2], R[0] != R[2]], a=1, b=3, encode=lambda v: v)
        k = rng.randrange(len(letters))
        m.op('word', lambda: P.from_word(letters[:k]), dst=3, word=letters[:k])
        for i in letters[k:]:
            s = P.s_i(i)
            m.op('hstep', lambda: R[3] % s, dst=4, a=4, i=i)
        m.op('dem', lambda: R[2] % R[3], dst=1, a=3, b=4)
        queries(m, 1)
        queries(m, 2)
        return
    neg = sess[1] % 3 != 0
    size = rng.choice([2, 3, 4, 5, 6, 7])
    if sess[1] % 10 == 1:
        size = rng.choice([9, 10, 11, 14, 17])
    for d in range(1, NR + 1):
        n = max(0, size - rng.choice([0, 0, 1, 2]))
        make(d, rng.choice([lambda: rand(rng, n, neg), lambda: rand_inv(rng, n, neg), lambda: rand_inv(rng, n - n % 2, False, True)])())
    for _ in range(18):
        a, b, d = (rng.randrange(NR) + 1 for _ in range(3))
        x, y = R[a - 1], R[b - 1]
        kind = rng.choice(['mul', 'mul', 'mul', 'dem', 'dem', 'inv', 'pow', 'pow', 'star', 'eq', 'lt', 'queries', 'queries', 'ctor', 'make',
                           'square', 'conj', 'tab'])
        if kind == 'mul':
            m.op('mul', lambda: x * y, dst=d, a=a, b=b)
        elif kind == 'dem' and (size <= 7 or len(y) <= 16):
            m.op('dem', lambda: x % y, dst=d, a=a, b=b)
        elif kind == 'square' and size <= 7:
            m.op('inv', lambda: x.inverse(), dst=d, a=a)
            z = R[d - 1]
            m.op('dem', lambda: z % R[a - 1], dst=d, a=d, b=a)
            queries(m, d)
        elif kind == 'conj':
            m.op('inv', lambda: x.inverse(), dst=d, a=a)
            if a != d and b != d:
                m.op('mul', lambda: y * R[d - 1], dst=d, a=b, b=d)
                m.op('mul', lambda: R[a - 1] * R[d - 1], dst=d, a=a, b=d)
        elif kind == 'tab':
            mu = tabs.shapes.random_partition(rng, rng.randrange(0, 7))
            t = Tableau({(i, j): tuple(rng.choice([1, 1, 1, -1]) * rng.randrange(1, size + 3) for _ in range(rng.choice([1, 1, 2, 3])))
                         for i, c in enumerate(mu, 1) for j in range(1, c + 1)})
            before = tabs.tab(t)
            m.op('tab', lambda: [x * t, t], a=a, t=before, encode=lambda v: [tabs.tab(u) for u in v])
        elif kind == 'inv':
            m.op('inv', lambda: x.inverse(), dst=d, a=a)
        elif kind == 'pow':
            k = rng.choice([-7, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 11])
            m.op('pow', lambda: x ** k, dst=d, a=a, k=k)
        elif kind == 'star' and all(i > 0 for i in x.oneline):
            m.op('star', lambda: x.star(), dst=d, a=a)
        elif kind == 'eq':
            m.op('eq', lambda: [x == y, x != y], a=a, b=b, encode=lambda v: v)
        elif kind == 'lt':
            m.op('lt', lambda: [x < y, y < x], a=a, b=b, encode=lambda v: v)
        elif kind == 'queries':
            queries(m, a)
        elif kind == 'make':
            make(d, rand_inv(rng, size, neg))
        elif kind == 'ctor':
            c = rng.randrange(9)
            i, j = sorted([rng.randrange(1, size + 1), rng.randrange(1, size + 1)])
            if c == 0:
                m.op('ident', rng.choice([lambda: P.identity(), lambda: P()]), dst=d)
            elif c == 1:
                i = rng.randrange(0, size)
                m.op('gen', lambda: P.s_i(i), dst=d, i=i)
            elif c == 2 and i != j:
                m.op('transp', rng.choice([lambda: P.transposition(i, j), lambda: P.transposition(j, i), lambda: P.reflection_t(i, j)]), dst=d, i=i, j=j)
            elif c == 3:
                m.op('negtransp', (lambda: P.reflection_s(i)) if i == j else (lambda: P.reflection_s(i, j)), dst=d, i=i, j=j)
            elif c == 4:
                m.op('w0', lambda: P.longest_element(size, signed=bool(neg)), dst=d, n=size, signed=bool(neg))
            elif c == 5:
                m.op('minfpf', lambda: P.minfpf(size - size % 2), dst=d, n=size - size % 2)
            elif c == 6:
                w = rng.sample(range(1, size + 1), rng.randrange(0, size + 1))
                m.op('cycle', lambda: P.cycle(*w), dst=d, word=w)
            else:
                w = [rng.randrange(0 if neg else 1, size) for _ in range(rng.randrange(0, 12))] if size > 1 else []
                m.op('word', lambda: P.from_word(w), dst=d, word=w)
    for a in range(1, NR + 1):
        queries(m, a)
