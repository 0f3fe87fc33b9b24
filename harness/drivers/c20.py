"""Operators on combinations of shapes, strips, and the algebra of formal row and column operators."""
import boxes
import dualops
import enc
import operators
import shapes
from machine import Machine
from polynomials import Polynomial, X, Y
from vectors import Vector

TRACE_SPEC = 'C20Trace'
MODELS = [('ShapeOpsModel', 'ShapeOpsModel.cfg', ('quick', 'thorough')), ('ShapeOpsModel', 'ShapeOpsModelDeep.cfg', ('thorough',))]
NR = 4
ASSUMPTIONS = ['The interactive comparison and commutator printers are not exercised; commutators up to n = 2.']
B = boxes.BoxOperator
ACT = {'add': operators.operator_shifted_add, 'row': operators.operator_shifted_row_remove, 'col': operators.operator_shifted_column_remove}
SERIES = {'AL': operators.operator_AL, 'AR': operators.operator_AR, 'R': operators.operator_R, 'C': operators.operator_C}


def sessions(tier, rng):
    k = 40 if tier != 'quick' else 8
    return ([('single', i) for i in range(8)] + [('strip', i) for i in range(8)] + [('vec', i) for i in range(90 * k)]
            + [('words', i) for i in range(90 * k)] + [('commutator', i) for i in range(3)])


def cost(s):
    return 20 if s == ('commutator', 2) else 4 if s[0] in ('single', 'strip') else 1


def vec(v):
    if type(v) is int and v == 0:
        return []
    if type(v) is B:
        v = v.vector
    if type(v) is not Vector:
        raise enc.BadValue('expected a vector, got %s' % type(v).__name__)
    return [[enc.part(k), enc.poly(v.dictionary[k])] for k in v.dictionary]


def wvec(v):
    if type(v) is not B:
        raise enc.BadValue('expected a box operator, got %s' % type(v).__name__)
    return vec(v)


def coeff(rng):
    c = rng.choice([-3, -2, -1, 1, 1, 2, 5])
    if rng.random() < .5:
        return rng.choice([X(0) * c, X(0) ** 2 - c, X(1) * c, X() + c, Polynomial.one() * c, X(1) * X(0) - 1])
    return c


def small(v, res):
    return len(res) <= 14 and all(len(p) <= 9 and all(abs(c) < 5000 for _, c in p) for _, p in res)


def run_session(sess, rec):
    rng = rec.rng
    mode, part = sess
    word = mode in ('words', 'commutator')
    m = Machine(rec, NR, B if word else Vector, wvec if word else vec, small)
    R = m.regs
    if mode == 'single':
        for i, mu in enumerate(shapes.strict_upto(10)):
            if i % 8 == part:
                for name in ACT:
                    for d in range(0, (mu[0] if mu else 0) + 2):
                        if sum(mu) < 7 or rng.random() < .4:
                            s = -d if rng.random() < .2 else d
                            arg = rng.choice([mu, Vector({mu: 1})])
                            m.op('act', lambda: ACT[name](s)(arg), a=0, mu=list(mu), which=name, d=s)
                if sum(mu) <= 7:
                    name = rng.choice(list(SERIES))
                    n = rng.randrange(0, (mu[0] if mu else 0) + 2)
                    m.op('series', lambda: SERIES[name](n)(mu), a=0, mu=list(mu), which=name, d=n, x=enc.poly(Y() if name in ('AL', 'AR') else X()))
        return
    if mode == 'strip':
        def show(x):
            return [-1] if x is None else enc.part(x)
        for i, mu in enumerate(shapes.strict_upto(11)):
            if i % 8 == part:
                top = (mu[0] if mu else 0) + 2
                for a in range(top):
                    for b in range(a, top):
                        if a not in mu and a and rng.random() < .8:
                            continue
                        for d, f in (('h', dualops.sh_horizontal_strip), ('v', dualops.sh_vertical_strip)):
                            if sum(mu) < 7 or rng.random() < .35:
                                m.op('strip', lambda: f(a, b)(mu), encode=show, dir=d, mu=list(mu), x=a, y=b)
        for _ in range(25):
            mu, path = (), []
            for _ in range(8):
                a = rng.choice(list(mu) + [0, 0])
                b = a + rng.choice([0, 0, 1, 2, 3])
                d = rng.choice(['h', 'v'])
                f = {'h': dualops.sh_horizontal_strip, 'v': dualops.sh_vertical_strip}[d]
                old = mu
                r = m.op('strip', lambda: f(a, b)(old), encode=show, dir=d, mu=[-1] if old is None else list(old), x=a, y=b)
                mu = r if r is not None or rng.random() < .1 else old
                if mu is None:
                    m.op('strip', lambda: f(a, b)(None), encode=show, dir=d, mu=[-1], x=a, y=b)
                    break
        return
    if mode == 'commutator':
        m.op('commutator', lambda: B.commutator(part), n=part)
        return
    if mode == 'vec':
        def load(d):
            x = {}
            for _ in range(rng.randrange(0, 4)):
                x[shapes.random_partition(rng, rng.choice([0, 1, 3, 5, 7, 10, 15]), True)] = coeff(rng)
            m.op('load', lambda: Vector(x), dst=d, val=[[list(k), enc.poly(c)] for k, c in x.items() if enc.poly(c)])
        for d in (1, 2, 3):
            load(d)
        for _ in range(26):
            kind = rng.choice(['act'] * 6 + ['series'] * 2 + ['sum'] * 2 + ['load', 'equal', 'iszero'])
            a, b, d = (rng.randrange(NR) + 1 for _ in range(3))
            va, vb = R[a - 1], R[b - 1]
            near = [k - e for mu in va.dictionary for k in mu for e in (0, 1) if k - e >= 0] + [0, rng.randrange(6)]
            if kind == 'load':
                load(d)
            elif kind == 'act':
                name, s = rng.choice(list(ACT)), rng.choice(near)
                s = -s if rng.random() < .1 else s
                m.op('act', lambda: ACT[name](s)(va), dst=d, a=a, mu=[], which=name, d=s)
            elif kind == 'series' and len(va.dictionary) <= 3:
                name, n = rng.choice(list(SERIES)), rng.choice([0, 1, 2, 3, 4, 6])
                x = rng.choice([None, X(1), X(2), X(1) * X(0) + 1])
                f = SERIES[name](n) if x is None else SERIES[name](n, x)
                x = (Y() if name in ('AL', 'AR') else X()) if x is None else x
                m.op('series', lambda: f(va), dst=d, a=a, mu=[], which=name, d=n, x=enc.poly(x))
            elif kind == 'sum':
                c = coeff(rng)
                m.op('sum', lambda: va + vb * c, dst=d, a=a, b=b, c=enc.poly(c))
            elif kind == 'equal':
                m.op('equal', lambda: va == vb, encode=enc.need_bool, a=a, b=b)
            elif kind == 'iszero':
                m.op('iszero', lambda: va == 0, encode=enc.need_bool, a=a)
        return

    def wload(d):
        if rng.random() < .1:
            m.op('wload', lambda: B(), dst=d, empty=True, word=[])
            return
        w = [rng.choice([0, 0, 1, 2])]
        for _ in range(rng.choice([0, 1, 1, 2, 3, 3, 5, 8])):
            c = [i for i in (-12, -3, -2, -1, 0, 1, 2, 3, 10) if len(w) == 1 or abs(i) != abs(w[-1])]
            w.append(rng.choice(c))
        if len(w) == 2 and w[0] == 0 and rng.random() < .5:
            f = (lambda: boxes.r(w[1])) if w[1] >= 0 else (lambda: boxes.c(-w[1]))
        else:
            f = rng.choice([lambda: B(*w), lambda: B(w), lambda: B(tuple(w))])
        m.op('wload', f, dst=d, empty=False, word=w)
    for d in (1, 2, 3):
        wload(d)
    for _ in range(26):
        kind = rng.choice(['wload', 'wadd', 'wadd', 'wsub', 'wrsub', 'wneg', 'wscale', 'wmul', 'wmul', 'wmul', 'wrmul', 'wrmul', 'wfilter', 'equal', 'iszero', 'wshow'])
        a, b, d = (rng.randrange(NR) + 1 for _ in range(3))
        va, vb = R[a - 1], R[b - 1]
        big = len(va.vector.dictionary) * len(vb.vector.dictionary) > 24
        if kind == 'wload':
            wload(d)
        elif kind in ('wadd', 'wsub', 'wrsub'):
            c = rng.choice([coeff(rng), 0]) if rng.random() < .4 else None
            o = vb if c is None else c
            fn = {'wadd': rng.choice([lambda: va + o, lambda: o + va]), 'wsub': lambda: va - o, 'wrsub': lambda: o - va}[kind]
            if type(o) is Polynomial:
                fn = {'wadd': lambda: va + o, 'wsub': lambda: va - o, 'wrsub': None}[kind]
                if fn is None:
                    continue
            m.op(kind, fn, dst=d, a=a, b=b, kind='reg' if c is None else 'poly', c=[] if c is None else enc.poly(c))
        elif kind == 'wneg':
            m.op('wneg', lambda: -va, dst=d, a=a)
        elif kind == 'wscale':
            c = rng.choice([coeff(rng), 0, -1])
            m.op('wscale', (lambda: va * c) if type(c) is Polynomial or rng.random() < .5 else (lambda: c * va), dst=d, a=a, c=enc.poly(c))
        elif kind in ('wmul', 'wrmul'):
            if rng.random() < .35:
                i = rng.choice([-3, -2, -1, 0, 1, 2, 3])
                s = ('r%d' % i if i >= 0 else 'c%d' % -i)
                s = s.upper() if rng.random() < .3 else s
                m.op(kind, (lambda: va * s) if kind == 'wmul' else (lambda: s * va), dst=d, a=a, b=b, kind='letter', i=i, c=[])
            elif not big:
                m.op(kind, (lambda: va * vb) if kind == 'wmul' else rng.choice([lambda: vb * va, lambda: va.__rmul__(vb)]), dst=d, a=a, b=b, kind='reg', i=0, c=[])
        elif kind == 'wshow':
            m.op('wshow', lambda: [repr(va), repr(va.vector)], encode=lambda x: x, a=a)
        elif kind == 'wfilter':
            n = rng.randrange(0, 4)
            m.op('wfilter', lambda: va.filter(n), dst=d, a=a, n=n)
        elif kind == 'equal':
            m.op('equal', lambda: va == vb, encode=enc.need_bool, a=a, b=b)
        else:
            m.op('iszero', lambda: va == 0, encode=enc.need_bool, a=a)
