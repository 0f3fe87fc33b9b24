"""Symmetric polynomial arithmetic."""
import itertools
from symmetric import SymmetricMonomial, SymmetricPolynomial
from polynomials import Polynomial
import enc
import shapes
from machine import Machine

TRACE_SPEC = 'C13Trace'
MODELS = [('SymPolyModel', 'SymPolyModel.cfg', ('quick', 'thorough')), ('SymPolyModel', 'SymPolyModelDeep.cfg', ('thorough',))]
NR = 4
PARTS = [()] + [mu for d in range(1, 5) for mu in [p for p in shapes.upto(d) if sum(p) == d]]


def sym(n):
    def f(v):
        if type(v) is int and v == 0:
            return []
        if type(v) is SymmetricMonomial:
            v = SymmetricPolynomial({v: 1})
        if type(v) is not SymmetricPolynomial:
            raise enc.BadValue('expected a symmetric polynomial, got %s' % type(v).__name__)
        for k in v.dictionary:
            if type(k) is not SymmetricMonomial or k.order() != n:
                raise enc.BadValue('key is not a monomial in %d variables' % n)
        return [[enc.part(k.index()), enc.poly(v.dictionary[k])] for k in v.dictionary]
    return f


def beta(i):
    return Polynomial.x(0) ** i


def sessions(tier, rng):
    k = 8 if tier == 'quick' else 30
    return [('mul', n, i) for n in range(0, 4 if tier == 'quick' else 5) for i in range(2)] + \
        [('regs', n, i) for n in (1, 2, 3, 4) for i in range((45 if n < 4 else 20) * k)] + \
        [('wide', n, i) for n in (4, 5, 6) for i in range(6 * k)]


def run_session(sess, rec):
    rng = rec.rng
    n = sess[1]
    E = sym(n)

    def messy(mu):
        """the same monomial written down unsorted and with zeros"""
        mu = list(mu) + [0] * rng.randrange(0, n - len(mu) + 1)
        rng.shuffle(mu)
        return tuple(mu)

    def looks(v):
        return [hash(v) % 1000003, v.printer is not None, repr(v)]

    def mono(mu):
        return SymmetricMonomial(n, messy(mu))

    def keep(v, res):
        return type(v) is SymmetricPolynomial and len(res) <= 12 and all(sum(k) <= 8 for k, _ in res) and \
            all(len(p) <= 5 and all(abs(c) < 3000 for _, c in p) and all(abs(x[1]) < 9 for m, _ in p for x in m) for _, p in res)

    m = Machine(rec, NR, SymmetricPolynomial, E, keep)
    R = m.regs
    if sess[0] == 'mul':
        pool = [p for p in PARTS if len(p) <= n]
        for t, (mu, nu) in enumerate(itertools.product(pool, pool)):
            if t % 2 == sess[2] and (n < 4 or sum(mu) + sum(nu) <= 6):
                m.op('m_mul', lambda: mono(mu) * mono(nu), n=n, mu=list(mu), nu=list(nu))
        for mu in pool:
            sg = rng.choice([1, -1])
            m.op('m_expand', lambda: mono(mu).polynomial('x' if sg == 1 else 'y'), n=n, mu=list(mu), sg=sg, encode=enc.poly)
        return
    hi = 4 if n < 4 else 3
    pool = [p for p in PARTS if len(p) <= n and sum(p) <= hi]
    if sess[0] == 'wide':
        for _ in range(6):
            mu, nu = rng.choice([p for p in shapes.upto(4) if len(p) <= n]), rng.choice([p for p in shapes.upto(3) if len(p) <= n])
            if n == 6 and len(set(mu)) > 2:
                mu = mu[:1]
            m.op('m_mul', lambda: mono(mu) * mono(nu), n=n, mu=list(mu), nu=list(nu))
            m.op('m_mul', lambda: mono(nu) * mono(mu), n=n, mu=list(nu), nu=list(mu))
        return

    def coeff():
        c = rng.choice([-3, -2, -1, -1, 1, 1, 1, 2, 4])
        if rng.random() < .5:
            return rng.choice([beta(1) * c, beta(1) - c, Polynomial.one() * c, beta(2) * c + 1, beta(-1) + beta(1)])
        return c

    def near(a, d):
        """two long values that agree except perhaps for one term"""
        x = {mu: coeff() for mu in rng.sample(pool, min(len(pool), rng.choice([2, 4, 7, 9, 12])))}
        x = {mu: c for mu, c in x.items() if enc.poly(c)}
        y = dict(x)
        if x and rng.random() < .75:
            mu = rng.choice(list(y))
            c = y.pop(mu)
            t = rng.randrange(4)
            if t == 0:
                y[mu] = -c
            elif t == 1:
                y[mu] = c + rng.choice([1, -1])
            elif t == 2:
                y[rng.choice(pool)] = c
        ys = [(mu, c) for mu, c in y.items() if enc.poly(c)]
        rng.shuffle(ys)
        for dst, z in ((a, list(x.items())), (d, ys)):
            m.op('load', lambda: SymmetricPolynomial({mono(k): c for k, c in z}), dst=dst, n=n, val=[[list(k), enc.poly(c)] for k, c in z])
        m.op('eq', lambda: [R[a - 1] == R[d - 1], R[a - 1] != R[d - 1]], n=n, a=a, b=d, encode=lambda v: [enc.need_bool(t) for t in v])
        for r in (a, d):
            m.op(rng.choice(['show', 'hash']), lambda: looks(R[r - 1]), n=n, a=r, encode=lambda v: v)
        m.op('sub', lambda: R[a - 1] - R[d - 1], dst=d, n=n, a=a, b=d)

    def load(d):
        x = {}
        for mu in rng.sample(pool, min(len(pool), rng.randrange(0, 4))):
            x[mu] = coeff()
        val = [[list(k), enc.poly(c)] for k, c in x.items() if enc.poly(c)]
        m.op('load', lambda: SymmetricPolynomial({mono(k): c for k, c in x.items()}), dst=d, n=n, val=val)

    for d in (1, 2, 3):
        load(d)
    kinds = ['load', 'load', 'near', 'base', 'add', 'add', 'sub', 'sub', 'neg', 'scale', 'scale', 'same', 'mul', 'mul', 'mul', 'pow',
             'truncate', 'lowest', 'highest', 'negate_beta', 'mops', 'mops', 'mops', 'eq', 'eqint', 'm_eq', 'm_info', 'coef',
             'expand', 'expand', 'expmul', 'hash', 'hash', 'show', 'show', 'show']
    for _ in range(22):
        kind = rng.choice(kinds)
        a, b, d = (rng.randrange(NR) + 1 for _ in range(3))
        va, vb = R[a - 1], R[b - 1]
        mu, nu = rng.choice(pool), rng.choice(pool)
        f = {'n': n, 'mu': list(mu), 'nu': list(nu)}
        deg = max([k.degree() for k in va] or [0]) + max([k.degree() for k in vb] or [0])
        small = len(va) * len(vb) <= (9 if n < 4 else 4) and deg <= 9
        if kind == 'load':
            load(d)
        elif kind == 'near' and a != d:
            near(a, d)
        elif kind == 'base':
            c = rng.choice([1, -2, beta(1) - 1, 0])
            m.op('m_scale', lambda: mono(mu).symmetric_polynomial(c), dst=d, c=enc.poly(c), **f)
        elif kind == 'add':
            m.op('add', lambda: va + vb, dst=d, n=n, a=a, b=b)
        elif kind == 'sub':
            m.op('sub', lambda: va - vb, dst=d, n=n, a=a, b=b)
        elif kind == 'neg':
            m.op('neg', lambda: -va, dst=d, n=n, a=a)
        elif kind == 'scale':
            c = rng.choice([0, 1, -1, 2, beta(1), beta(-1), -beta(2), beta(1) - 1, Polynomial.zero()])
            m.op('scale', rng.choice([lambda: va * c, lambda: c * va]), dst=d, n=n, a=a, c=enc.poly(c))
        elif kind == 'same':
            m.op('same', rng.choice([lambda: va + 0, lambda: 0 + va, lambda: va - 0, lambda: va * 1, lambda: va ** 1]), dst=d, n=n, a=a)
        elif kind == 'mul' and small:
            m.op('mul', lambda: va * vb, dst=d, n=n, a=a, b=b)
        elif kind == 'pow' and len(va) <= 2 and deg <= 8:
            k = rng.choice([2, 3] if max([t.degree() for t in va] or [0]) <= 2 else [2])
            m.op('pow', lambda: va ** k, dst=d, n=n, a=a, k=k)
        elif kind == 'truncate':
            k = rng.randrange(-1, 6)
            m.op('truncate', lambda: va.truncate(k), dst=d, n=n, a=a, k=k)
        elif kind == 'lowest':
            m.op('lowest', lambda: va.lowest_degree_terms(), dst=d, n=n, a=a)
        elif kind == 'highest':
            m.op('highest', lambda: va.highest_degree_terms(), dst=d, n=n, a=a)
        elif kind == 'negate_beta' and all(type(c) is Polynomial and all(all(t >= 0 for t in q.values()) for q in c.coeffs) for c in va.values()):
            m.op('negate_beta', lambda: SymmetricPolynomial.negate_beta(va), dst=d, n=n, a=a)
        elif kind == 'mops':
            x = rng.choice(['m_scale', 'm_add', 'm_sub', 'm_mul', 'm_pow', 'm_addint', 'm_subint', 'm_intsub', 'm_addreg', 'm_subreg', 'm_regsub', 'm_mulreg'])
            c = rng.choice([-2, -1, 1, 2, 3])
            if x == 'm_scale':
                c = rng.choice([0, 1, 2, -1, beta(1), beta(1) + 1])
                m.op(x, rng.choice([lambda: c * mono(mu), lambda: mono(mu) * c]) if type(c) is int else lambda: mono(mu) * c, dst=d, c=enc.poly(c), **f)
            elif x == 'm_add':
                m.op(x, lambda: mono(mu) + mono(nu), dst=d, **f)
            elif x == 'm_sub':
                m.op(x, lambda: mono(mu) - mono(nu), dst=d, **f)
            elif x == 'm_mul':
                m.op(x, lambda: mono(mu) * mono(nu), dst=d, **f)
            elif x == 'm_pow':
                k = rng.choice([0, 1, 2, 3, 4, 5] if sum(mu) <= 1 else [0, 1, 2, 3] if sum(mu) <= 2 else [0, 1, 2])
                m.op(x, lambda: mono(mu) ** k, dst=d, k=k, **f)
            elif x == 'm_addint':
                m.op(x, rng.choice([lambda: mono(mu) + c, lambda: c + mono(mu)]), dst=d, c=enc.poly(c), **f)
            elif x == 'm_subint':
                m.op(x, lambda: mono(mu) - c, dst=d, c=enc.poly(c), **f)
            elif x == 'm_intsub':
                m.op(x, lambda: c - mono(mu), dst=d, c=enc.poly(c), **f)
            elif x == 'm_addreg':
                m.op(x, rng.choice([lambda: mono(mu) + va, lambda: va + mono(mu)]), dst=d, a=a, **f)
            elif x == 'm_subreg':
                m.op(x, lambda: mono(mu) - va, dst=d, a=a, **f)
            elif x == 'm_regsub':
                m.op(x, lambda: va - mono(mu), dst=d, a=a, **f)
            elif x == 'm_mulreg' and len(va) <= 4 and deg <= 10:
                m.op(x, rng.choice([lambda: mono(mu) * va, lambda: va * mono(mu)]), dst=d, a=a, **f)
        elif kind == 'eq':
            m.op('eq', lambda: [va == vb, va != vb], n=n, a=a, b=b, encode=lambda x: [enc.need_bool(t) for t in x])
        elif kind == 'eqint':
            k = rng.choice([0, 1, 2, -1])
            m.op('eqint', lambda: va == k, n=n, a=a, k=k, encode=enc.need_bool)
        elif kind == 'm_eq':
            k = rng.choice([0, 1, 2])
            nu2 = rng.choice([mu, nu])
            g = dict(f, nu=list(nu2))
            m.op('m_eq', lambda: [mono(mu) == mono(nu2), mono(mu) == va, mono(mu) == k], a=a, k=k, encode=lambda x: [enc.need_bool(t) for t in x], **g)
            n2 = rng.choice([n, n, n + 1, n + 2])
            m.op('m_cmp', lambda: [mono(mu) == SymmetricMonomial(n2, nu2), mono(mu) != SymmetricMonomial(n2, nu2)], n2=n2,
                 encode=lambda x: [enc.need_bool(t) for t in x], **g)
            m.op('m_less', lambda: [mono(mu) < mono(nu2), mono(nu2) < mono(mu)], encode=lambda x: [enc.need_bool(t) for t in x], **g)
        elif kind == 'm_info':
            def info():
                x = mono(mu)
                if x.serialize() != (x.mu, x.n) or hash(x) != hash(mono(mu)):
                    raise enc.BadValue('equal monomials hash differently')
                return [enc.part(x.index()), x.order(), x.degree(), bool(x)]
            m.op('m_info', info, encode=lambda x: x, **f)
        elif kind == 'coef':
            m.op('coef', lambda: va[mono(mu)], a=a, encode=enc.poly, **f)
        elif kind == 'expand' and len(va) <= 4:
            sg = rng.choice([1, -1])
            m.op('expand', lambda: va.polynomial('x' if sg == 1 else 'y'), n=n, a=a, sg=sg, encode=enc.poly)
        elif kind == 'expmul' and len(va) * len(vb) <= 4 and deg <= 6 and n <= 3:
            m.op('expmul', lambda: (va * vb).polynomial('x'), n=n, a=a, b=b, sg=1, encode=enc.poly)
        elif kind == 'show':
            m.op('show', lambda: looks(va), n=n, a=a, encode=lambda x: x)
        elif kind == 'hash':
            m.op('hash', lambda: looks(va), n=n, a=a, encode=lambda x: x)
            items = list(va.items())
            rng.shuffle(items)
            m.op('load', lambda: SymmetricPolynomial(dict(items)), dst=d, n=n, val=[[list(k.mu), enc.poly(c)] for k, c in items])
            vd = R[d - 1]
            m.op('hash', lambda: looks(vd), n=n, a=d, encode=lambda x: x)
            m.op('show', lambda: looks(vd), n=n, a=d, encode=lambda x: x)
