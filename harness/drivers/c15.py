"""Formal linear combinations and integer row reduction."""
import itertools
from vectors import Vector
from polynomials import Polynomial
import enc
from machine import Machine

TRACE_SPEC = 'C15Trace'
MODELS = [('LinCombModel', 'LinCombModel.cfg', ('quick', 'thorough')), ('LinCombModel', 'LinCombModelDeep.cfg', ('thorough',))]
NR = 4


def vec(v):
    if not isinstance(v, Vector):
        raise enc.BadValue('expected a vector')
    return [[k, enc.poly(v.dictionary[k])] for k in v.dictionary]


def sessions(tier, rng):
    k = 3 if tier == 'quick' else 20
    out = []
    for mode in ['times', 'plusminus', 'concat']:
        out += [(mode, i) for i in range(110 * k)]
    out += [('matrix', i) for i in range(60 * k)]
    out += [('matrix_small', i) for i in range(8)]
    return out


def run_session(sess, rec):
    rng = rec.rng
    mode = sess[0]
    if mode.startswith('matrix'):
        return run_matrix(sess, rec, rng)
    mult = {'times': None, 'plusminus': lambda a, b: [(a + b, 1), (abs(a - b), 1)],
            'concat': lambda a, b: [(a + b, 1)]}[mode]
    if mode == 'plusminus' and sess[1] % 2:
        mult = lambda a, b: ({a + b: 1, abs(a - b): 1} if a and b else {a + b: 2}).items()
    keys = {'times': [0, 1, 2, 3, -1, 6], 'plusminus': [0, 1, 2, 3, 5], 'concat': ['', 'a', 'b', 'ab', 'ba']}[mode]
    polys = sess[1] % 3 == 0

    def coeff():
        c = rng.choice([-3, -2, -1, -1, 1, 1, 1, 2, 4])
        if polys and rng.random() < .5:
            return rng.choice([Polynomial.x(0) * c, Polynomial.x(1) - c, Polynomial.one() * c, Polynomial.x(0) * c + 1])
        return c

    def mk():
        d = {}
        for key in rng.sample(keys, rng.randrange(0, 4)):
            d[key] = coeff()
        if rng.random() < .2:
            d[rng.choice(keys)] = 0
        return d

    def keep(v, res):
        return len(res) <= 8 and all(len(p) <= 5 and all(abs(c) < 2000 for _, c in p) for _, p in res) \
            and (mode == 'concat' or all(abs(k) < 200 for k, _ in res)) and \
            (mode != 'concat' or all(len(k) < 9 for k, _ in res))

    m = Machine(rec, NR, lambda: Vector({}, None, mult), vec, keep)
    R = m.regs

    # some vectors carry the product rule and some do not; some carry a printer: a result has what one of its operands has
    mixed = mode != 'times' and sess[1] % 2 == 1
    hm, pr = [True] * NR, [False] * NR
    printer = lambda k: '<%s>' % k

    def do(name, fn, dst, mm, pp, **fields):
        r = m.op(name, fn, dst=dst, **fields)
        if dst and r is not None and R[dst - 1] is r:
            hm[dst - 1], pr[dst - 1] = mm, pp
        return r

    def load(d):
        x = mk()
        mm = not mixed or rng.random() < .6
        pp = mixed and rng.random() < .4
        do('load', lambda: Vector(x, printer if pp else None, mult if mm else None), d, mm, pp, mult=mm, prn=pp,
           val=[[k, enc.poly(c)] for k, c in x.items() if c])

    def near(a, d):
        """two long combinations that agree except perhaps for one term"""
        wide = ['', 'a', 'b', 'ab', 'ba', 'aa', 'bb', 'aba', 'bab'] if mode == 'concat' else list(range(0, 14)) + ([-1, -4] if mode == 'times' else [])
        x = {k: coeff() for k in rng.sample(wide, rng.choice([1, 3, 5, 8]))}
        y = dict(x)
        if rng.random() < .75:
            k = rng.choice(list(y))
            c = y.pop(k)
            t = rng.randrange(4)
            if t == 0:
                y[k] = -c
            elif t == 1:
                y[k] = c + 1
            elif t == 2:
                y[rng.choice(wide)] = c
        z = list(y.items())
        rng.shuffle(z)
        for dst, items in ((a, list(x.items())), (d, z)):
            do('load', lambda: Vector(dict(items), None, mult), dst, True, False, mult=True, prn=False, val=[[k, enc.poly(c)] for k, c in items if enc.poly(c)])
        m.op('eq', lambda: [R[a - 1] == R[d - 1], R[a - 1] != R[d - 1]], a=a, b=d, encode=lambda v: v)
        do('sub', lambda: R[a - 1] - R[d - 1], d, True, False, a=a, b=d)

    for d in range(1, 4):
        load(d)
    kinds = ['load', 'load', 'near', 'add', 'add', 'add', 'sub', 'sub', 'sub', 'neg', 'scale', 'scale', 'same', 'sum', 'mul', 'mul', 'mul',
             'mulkey', 'pow', 'floordiv', 'eq', 'eq', 'flags', 'len', 'get', 'keys', 'show', 'show', 'base']
    for _ in range(24):
        kind = rng.choice(kinds)
        a, b, d = (rng.randrange(NR) + 1 for _ in range(3))
        va, vb = R[a - 1], R[b - 1]
        size = len(va) * len(vb)
        small = all(type(c) is int and abs(c) < 50 or type(c) is not int and all(abs(t) < 50 for t in c.coeffs.values())
                    for v in (va, vb) for c in v.values()) and size <= 25
        if kind in ('add', 'sub', 'sum') and (len(va) == 0 or len(vb) == 0) and (hm[a - 1], pr[a - 1]) != (hm[b - 1], pr[b - 1]):
            continue  # adding nothing may give back the other operand as it is
        if kind == 'load':
            load(d)
        elif kind == 'near' and a != d:
            near(a, d)
        elif kind == 'base':
            k = rng.choice(keys)
            do('base', lambda: Vector.base(k, None, mult), d, True, False, key=k)
        elif kind == 'add':
            do('add', lambda: va + vb, d, hm[a - 1] or hm[b - 1], pr[a - 1] or pr[b - 1], a=a, b=b)
        elif kind == 'sub':
            do('sub', lambda: va - vb, d, hm[a - 1] or hm[b - 1], pr[a - 1] or pr[b - 1], a=a, b=b)
        elif kind == 'neg':
            do('neg', lambda: -va, d, hm[a - 1], pr[a - 1], a=a)
        elif kind == 'scale' and small:
            c = rng.choice([0, 1, -1, 2, 3, Polynomial.x(0), Polynomial.x(1) - 1, Polynomial.zero()])
            if polys or type(c) is int:
                do('scale', rng.choice([lambda: va * c, lambda: c * va]), d, hm[a - 1], pr[a - 1], a=a, c=enc.poly(c))
        elif kind == 'same':
            do('same', rng.choice([lambda: va + 0, lambda: 0 + va, lambda: va - 0, lambda: va * 1, lambda: va ** 1]), d, hm[a - 1], pr[a - 1], a=a)
        elif kind == 'sum':
            do('sum', lambda: sum([va, vb, va]), d, hm[a - 1] or hm[b - 1], pr[a - 1] or pr[b - 1], a=a, b=b)
        elif kind == 'mul' and small and hm[a - 1]:
            do('mul', lambda: va * vb, d, True, pr[a - 1] or pr[b - 1], a=a, b=b)
        elif kind == 'mulkey' and mode == 'concat' and small and hm[a - 1]:
            k = rng.choice(keys)
            do('mulkey', lambda: va * k, d, True, pr[a - 1], a=a, key=k)
        elif kind == 'pow' and small and hm[a - 1] and len(va) <= 3 and (mode != 'concat' or all(len(k) <= 2 for k in va.keys())) and \
                (mode == 'concat' or all(abs(k) <= 6 for k in va.keys())):
            k = rng.choice([1, 2, 3, 4, 5, 6, 7] if len(va) <= 2 and all(type(c) is int and abs(c) <= 4 for c in va.values()) else [1, 2])
            do('pow', lambda: va ** k, d, True, pr[a - 1], a=a, k=k)
        elif kind == 'floordiv':
            q = rng.choice([1, 2, 3])
            m.op('floordiv', lambda: va // q, dst=0, a=a, c=q)
        elif kind == 'eq':
            m.op('eq', lambda: [va == vb, va != vb], a=a, b=b, encode=lambda x: x)
        elif kind == 'flags':
            m.op('flags', lambda: [va.is_zero(), va.is_nonnegative(), va.is_positive(), va.is_singleton()], a=a,
                 encode=lambda x: [enc.need_bool(t) for t in x])
        elif kind == 'len':
            m.op('len', lambda: len(va), a=a, encode=lambda x: x)
        elif kind == 'get':
            k = rng.choice(keys)
            m.op('get', lambda: va[k], a=a, key=k, encode=enc.poly)
        elif kind == 'keys':
            m.op('keys', rng.choice([lambda: list(va), lambda: list(va.keys()), lambda: [k for k, _ in va.items()]]), a=a, encode=lambda x: x)
        elif kind == 'show':
            m.op('show', lambda: [str(va).encode('ascii', 'backslashreplace').decode(), hash(va) % 1000003, '<' in str(va)], a=a, encode=lambda x: x)
            # the same combination written down in another order
            items = list(va.items())
            rng.shuffle(items)
            pp = pr[a - 1]
            do('load', lambda: Vector(dict(items), printer if pp else None, mult), d, True, pp, mult=True, prn=pp, val=[[k, enc.poly(c)] for k, c in items])
            vd = R[d - 1]
            m.op('show', lambda: [str(vd).encode('ascii', 'backslashreplace').decode(), hash(vd) % 1000003, '<' in str(vd)], a=d, encode=lambda x: x)


def run_matrix(sess, rec, rng):
    def rref(mat):
        copy = [list(r) for r in mat]

        def fn():
            r = Vector.rref(copy)
            if copy != mat:
                raise enc.BadValue('input matrix changed')
            return r
        rec.event('rref', {'m': mat}, fn, lambda r: [[enc.need_int(e) for e in row] for row in r])

    def express(v, rows):
        def vv(row):
            return Vector({k: c for k, c in enumerate(row) if c})
        rec.event('express', {'v': v, 'm': rows}, lambda: vv(v).is_expressable(*[vv(r) for r in rows]), enc.need_bool)

    if sess[0] == 'matrix_small':
        for t, flat in enumerate(itertools.product([-1, 0, 2], repeat=6)):
            if t % 8 == sess[1]:
                rref([list(flat[:3]), list(flat[3:])])
                rref([list(flat[:2]), list(flat[2:4]), list(flat[4:])])
                express(list(flat[:2]), [list(flat[2:4]), list(flat[4:])])
        if sess[1] == 0:
            rref([])
            rref([[0]])
            express([1], [])
            express([0, 0], [])
            express([0], [[0]])
        return
    for _ in range(12):
        m, n = rng.choice([(1, 3), (2, 2), (3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 3), (5, 6), (6, 5), (7, 4), (4, 7)])
        hi = 1 if m + n > 9 else rng.choice([1, 2, 3])
        base = [[rng.randrange(-hi, hi + 1) for _ in range(n)] for _ in range(m)]
        if rng.random() < .6 and m >= 3:
            # force a dependency
            i, j, k = rng.sample(range(m), 3)
            base[k] = [a * rng.choice([1, -1]) + b for a, b in zip(base[i], base[j])]
        if rng.random() < .3:
            z = rng.randrange(n)
            for r in base:
                r[z] = 0
        rref(base)
        express(base[0], base[1:])
        if m >= 3:
            express([a - 2 * b for a, b in zip(base[0], base[1])], base[:2] + base[2:3])
            express([a - 2 * b for a, b in zip(base[0], base[1])], base[:1] + base[2:])
