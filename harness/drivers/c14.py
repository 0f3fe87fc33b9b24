"""Laurent polynomials: random and systematic sessions over five shared registers."""
import itertools
from polynomials import Polynomial, HashableDict, X, Y, beta
import enc

TRACE_SPEC = 'C14Trace'
MODELS = [('PolyModel', 'PolyModelQuick.cfg', ('quick', 'thorough')), ('PolyModel', 'PolyModel.cfg', ('thorough',))]
ASSUMPTIONS = ['coefficients stay below 2^31 in recorded sessions', 'polynomials are built without explicit zero coefficients']
NR = 5
VARS = [0, 1, 2, 3, 9, 10, 12, -1, -2, -11, enc.BIG, -enc.BIG]


def sessions(tier, rng):
    n = 3500 if tier == 'quick' else 20000
    out = [('random', i) for i in range(n)]
    out += [('orders', i) for i in range(240 if tier == 'quick' else 2000)]
    out += [('small', i) for i in range(8)]
    return out


class M:
    def __init__(self, rec):
        self.rec = rec
        self.regs = [Polynomial({}) for _ in range(NR)]

    def proj(self):
        return [enc.poly(p) for p in self.regs]

    def op(self, name, fn, dst=0, encode=enc.poly, **fields):
        """Log the operation with the projection of all registers after it."""
        box = {}

        def run():
            r = fn()
            box['v'] = r
            return r

        rec = self.rec
        if rec.dead:
            return None
        f = dict(fields)
        f['dst'] = dst

        def run2():
            r = run()
            res = encode(r)
            if dst:
                if type(r) is int:
                    r = Polynomial.one() * r
                if len(res) > 14 or any(abs(c) > 30000 for _, c in res) or any(abs(x[1]) > 30 for m, _ in res for x in m):
                    r = None
            return r, res

        e = {'op': name, 'sid': rec.sess}
        # dst is decided after the value is known: oversized results are judged but not kept
        import check
        tmp = {}

        def thunk():
            r, res = run2()
            tmp['r'] = r
            if dst and r is not None:
                self.regs[dst - 1] = r
            tmp['dst'] = dst if r is not None or not dst else 0
            return res

        before = dict(f)
        ev = RecEvent(rec, name, before, thunk, self, tmp)
        return ev

    def poly_small(self, rng, nt=3, laurent=True):
        terms = {}
        for _ in range(rng.randrange(0, nt + 1)):
            k = rng.choice([0, 1, 1, 2, 3])
            vs = rng.sample(VARS, k)
            m = tuple((v, rng.choice([-2, -1, 1, 1, 2, 3] if laurent else [1, 1, 2, 3])) for v in vs)
            key = tuple(sorted(m))
            if key in [tuple(sorted(t)) for t in terms]:
                continue
            terms[m] = rng.choice([-3, -2, -1, -1, 1, 1, 1, 2, 5])
        return [[[list(x) for x in m], c] for m, c in terms.items()]


def RecEvent(rec, name, fields, thunk, machine, tmp):
    import check
    e = {'op': name, 'sid': rec.sess}
    exc, res = '', []
    check.arm()
    try:
        try:
            res = check.clean(thunk())
        finally:
            check.disarm()
    except check.OpTimeout:
        exc = 'Timeout'
        rec.dead = True
    except Exception as ex:
        exc = (type(ex).__name__ + ': ' + str(ex)[:120]).encode('ascii', 'replace').decode()
    if 'dst' in tmp:
        fields['dst'] = tmp['dst']
    elif exc:
        fields['dst'] = 0
    e.update(check.clean(fields))
    e['exc'] = exc
    e['res'] = res
    try:
        e['regs'] = check.clean(machine.proj())
    except Exception as ex:
        e['regs'] = [[] for _ in range(NR)]
        e['exc'] = 'unreadable operand'
        machine.regs = [Polynomial({}) for _ in range(NR)]
    rec.write(e)
    return tmp.get('r')


def show(m, a):
    p = m.regs[a - 1]
    m.op('show', lambda: [str(p).encode('ascii', 'backslashreplace').decode(), hash(p) % 1000003,
                             [hash(c) % 1000003 for c in [p[{}]] if p == c]], a=a,
         encode=lambda x: x)


def step(m, rng, kind):
    r = m.regs
    a, b, d = rng.randrange(NR) + 1, rng.randrange(NR) + 1, rng.randrange(NR) + 1
    pa, pb = r[a - 1], r[b - 1]
    small = len(pa) * len(pb) <= 60
    c = rng.choice([-7, -3, -2, -1, 0, 1, 2, 3, 10])
    nonneg = all(e >= 0 for mon in pa.coeffs for e in mon.values())
    if kind == 'near':
        near(m, rng)
    elif kind == 'load':
        js = m.poly_small(rng)
        m.op('load', lambda: enc.unpoly(js), dst=d, val=js)
    elif kind == 'const':
        m.op('const', lambda: rng.choice([lambda: Polynomial.one() * c, lambda: Polynomial.zero() + c])(), dst=d, c=c)
    elif kind == 'var':
        i, k = rng.choice(VARS), rng.choice([0, 1, 1, 2, -1, 4])
        j = enc.unidx(i)
        if k == 1 and i == enc.BIG:
            fn = lambda: X()
        elif k == 1 and i == -enc.BIG:
            fn = lambda: Y()
        elif k == 1 and j >= 0:
            fn = rng.choice([lambda: X(j), lambda: Polynomial.x(j)])
        elif k == 1 and j < 0:
            fn = rng.choice([lambda: Y(j), lambda: Polynomial.y(-j)])
        else:
            fn = lambda: Polynomial.monomial(j, k)
        m.op('var', fn, dst=d, i=i, k=k)
    elif kind == 'add':
        m.op('add', lambda: pa + pb, dst=d, a=a, b=b)
    elif kind == 'sub':
        m.op('sub', lambda: pa - pb, dst=d, a=a, b=b)
    elif kind == 'mul' and small:
        m.op('mul', lambda: pa * pb, dst=d, a=a, b=b)
    elif kind == 'ksum' and small:
        m.op('ksum', lambda: pa ^ pb, dst=d, a=a, b=b)
    elif kind == 'neg':
        m.op('neg', lambda: -pa, dst=d, a=a)
    elif kind == 'addc':
        m.op('addc', rng.choice([lambda: pa + c, lambda: c + pa]), dst=d, a=a, c=c)
    elif kind == 'subc':
        m.op('subc', lambda: pa - c, dst=d, a=a, c=c)
    elif kind == 'rsubc':
        m.op('rsubc', lambda: c - pa, dst=d, a=a, c=c)
    elif kind == 'mulc':
        m.op('mulc', rng.choice([lambda: pa * c, lambda: c * pa]), dst=d, a=a, c=c)
    elif kind == 'pow':
        inv = len(pa) == 1 and abs(list(pa.coeffs.values())[0]) == 1
        if inv:
            k = rng.choice([-9, -7, -4, -3, -2, -1, 0, 1, 2, 3, 5, 8, 13])
        elif len(pa) <= 3 and all(abs(v) < 6 for v in pa.coeffs.values()):
            k = rng.choice([0, 1, 2, 3, 4] if len(pa) > 2 or any(abs(v) > 2 for v in pa.coeffs.values()) else [2, 3, 5, 6, 7])
        elif len(pa) <= 6 and all(abs(v) < 100 for v in pa.coeffs.values()):
            k = rng.choice([0, 1, 2])
        else:
            k = rng.choice([0, 1])
        if all(abs(e * k) < 60 for mon in pa.coeffs for e in mon.values()):
            m.op('pow', lambda: pa ** k, dst=d, a=a, k=k)
    elif kind == 'mod':
        q = rng.choice([1, 2, 3, 4])
        m.op('mod', lambda: pa % q, dst=d, a=a, c=q)
    elif kind == 'div':
        q = rng.choice([1, 2, 3, 5])
        pq = pa * q
        if all(abs(v) < 10**6 for v in pq.coeffs.values()):
            # load the multiple first, so that the division is exact
            m.op('mulc', lambda: pa * q, dst=d, a=a, c=q)
            pd = m.regs[d - 1]
            if all(v % q == 0 for v in pd.coeffs.values()):
                m.op('div', lambda: pd / q, dst=d, a=d, c=q)
    elif kind == 'floordiv':
        q = rng.choice([1, 2, 3, 5])
        m.op('floordiv', lambda: pa // q, dst=d, a=a, c=q)
    elif kind == 'trunc':
        k = rng.choice([-2, 0, 1, 2, 3, 5])
        m.op('trunc', lambda: pa.truncate(k), dst=d, a=a, k=k)
    elif kind == 'coef':
        vs = sorted({i for mon in pa.coeffs for i in mon}) or [1]
        j = rng.choice(vs + [4])
        ks = sorted({mon.get(j, 0) for mon in pa.coeffs} | {0})
        k = rng.choice(ks + [7])
        m.op('coef', lambda: pa.coefficient(j, k), dst=d, a=a, i=enc.idx(j), k=k)
    elif kind == 'subst':
        vs = sorted({i for mon in pa.coeffs for i in mon}) or [1]
        j = rng.choice(vs + [4])
        if all(mon.get(j, 0) >= 0 for mon in pa.coeffs) and len(pb) <= 3 and len(pa) <= 6 and \
                all(mon.get(j, 0) <= 3 for mon in pa.coeffs) and all(abs(v) < 30 for v in list(pa.coeffs.values()) + list(pb.coeffs.values())):
            m.op('subst', lambda: pa.substitute(j, pb), dst=d, a=a, b=b, i=enc.idx(j))
    elif kind == 'call':
        vs = sorted({i for mon in pa.coeffs for i in mon})
        env = []
        if len(pa) <= 6 and all(abs(v) < 30 for v in pa.coeffs.values()):
            for j in vs:
                exps = [mon.get(j, 0) for mon in pa.coeffs]
                if rng.random() < .4:
                    continue
                if min(exps) < 0 or max(exps) > 3:
                    env.append((j, enc.unpoly([[[[rng.choice(VARS), rng.choice([-1, 1, 2])]], rng.choice([1, -1])]])))
                elif rng.random() < .5:
                    env.append((j, rng.choice([-2, -1, 0, 1, 2])))
                else:
                    env.append((j, enc.unpoly(m.poly_small(rng, 2))))
            m.op('call', lambda: pa(dict(env)), dst=d, a=a, env=[[enc.idx(j), enc.poly(v)] for j, v in env])
    elif kind == 'eq':
        m.op('eq', lambda: [pa == pb, pa != pb], a=a, b=b, encode=lambda x: [enc.need_bool(t) for t in x])
    elif kind == 'eqc':
        cc = rng.choice([c, pa.constant_term()])
        m.op('eqc', lambda: [pa == cc, pa != cc], a=a, c=cc, encode=lambda x: [enc.need_bool(t) for t in x])
    elif kind == 'order':
        m.op('order', lambda: [pa < pb, pa > pb, pa < c, pa > c], a=a, b=b, c=c, encode=lambda x: [enc.need_bool(t) for t in x])
    elif kind == 'noinv':
        k = rng.choice([-3, -2, -1])
        if len(pa) > 1 or any(abs(v) > 1 for v in pa.coeffs.values()):
            m.op('noinv', lambda: pa ** k, a=a, k=k, encode=lambda x: 'none' if x is None else 'value')
    elif kind == 'deg':
        m.op('deg', lambda: pa.total_degree(), a=a, encode=lambda x: 'none' if x is None else enc.need_int(x))
    elif kind == 'count':
        m.op('count', lambda: [pa.nnz(), pa.is_zero(), bool(pa)], a=a, encode=lambda x: x)
    elif kind == 'get':
        mons = list(pa.coeffs) + list(pb.coeffs) + [HashableDict({1: 1})]
        mon = rng.choice(mons)
        m.op('get', lambda: pa[dict(mon)], a=a, m=enc.mono(mon), encode=enc.need_int)
    elif kind == 'const_term':
        m.op('const_term', lambda: pa.constant_term(), a=a, encode=enc.need_int)
    elif kind == 'is_int':
        m.op('is_int', lambda: pa.is_integer(), a=a, encode=enc.need_bool)
    elif kind == 'keys':
        m.op('keys', lambda: list(pa), a=a, encode=lambda x: [enc.mono(t) for t in x])
    elif kind == 'show':
        show(m, a)
    elif kind == 'divlin':
        vs = sorted({i for mon in pa.coeffs for i in mon}) or [1]
        j = rng.choice(vs + [4])
        if len(pa) <= 5 and all(0 <= mon.get(j, 0) <= 3 for mon in pa.coeffs) and all(abs(v) < 30 for v in pa.coeffs.values()):
            c = rng.choice([-2, -1, 1, 2])
            e = a % NR + 1
            m.op('var', lambda: Polynomial.monomial(j), dst=e, i=enc.idx(j), k=1)
            m.op('addc', lambda: m.regs[e - 1] + c, dst=e, a=e, c=c)
            q = m.op('mul', lambda: pa * m.regs[e - 1], dst=e, a=a, b=e)
            if q is not None:
                m.op('divlin', lambda: m.regs[e - 1].divide_linear(j, c), dst=a, a=e, i=enc.idx(j), c=c)


def near(m, rng):
    """two long values that agree except perhaps for one term"""
    a, d = rng.sample(range(1, NR + 1), 2)
    x = m.poly_small(rng, rng.choice([2, 5, 8, 12]))
    y = [list(t) for t in x]
    if y and rng.random() < .75:
        k = rng.randrange(len(y))
        t = rng.randrange(4)
        if t == 0:
            y[k][1] = -y[k][1]
        elif t == 1:
            y[k][1] = y[k][1] + 1 or 2
        elif t == 2:
            y.pop(k)
        elif y[k][0]:
            z = [list(p) for p in y[k][0]]
            z[0][1] += rng.choice([1, -1, 2])
            z = [p for p in z if p[1]]
            if all(sorted(map(tuple, z)) != sorted(map(tuple, q[0])) for q in y):
                y[k][0] = z
    rng.shuffle(y)
    m.op('load', lambda: enc.unpoly(x), dst=a, val=x)
    m.op('load', lambda: enc.unpoly(y), dst=d, val=y)
    r = m.regs
    m.op('eq', lambda: [r[a - 1] == r[d - 1], r[a - 1] != r[d - 1]], a=a, b=d, encode=lambda v: [enc.need_bool(t) for t in v])
    m.op('order', lambda: [r[a - 1] < r[d - 1], r[a - 1] > r[d - 1], r[a - 1] < 0, r[a - 1] > 0], a=a, b=d, c=0, encode=lambda v: [enc.need_bool(t) for t in v])
    show(m, a)
    show(m, d)
    m.op('sub', lambda: r[a - 1] - r[d - 1], dst=d, a=a, b=d)


KINDS = ['near'] + ['load'] * 4 + ['const', 'var', 'var', 'add', 'add', 'add', 'sub', 'sub', 'mul', 'mul', 'mul', 'ksum', 'ksum', 'neg',
         'addc', 'subc', 'rsubc', 'mulc', 'pow', 'pow', 'pow', 'mod', 'div', 'floordiv', 'trunc', 'coef', 'coef', 'subst', 'subst',
         'call', 'call', 'eq', 'eq', 'eqc', 'order', 'order', 'noinv', 'deg', 'count', 'get', 'const_term', 'is_int', 'keys', 'show', 'show', 'divlin']


def run_session(sess, rec):
    m = M(rec)
    rng = rec.rng
    if sess[0] == 'random':
        for _ in range(3):
            step(m, rng, 'load')
        for _ in range(28):
            step(m, rng, rng.choice(KINDS))
        # rebuild one value by another route and compare
        a = rng.randrange(NR) + 1
        pa = m.regs[a - 1]
        d = a % NR + 1
        terms = list(pa.coeffs.items())
        rng.shuffle(terms)
        js = [[list(reversed(enc.mono(t))), c] for t, c in terms]
        m.op('load', lambda: enc.unpoly(js), dst=d, val=js)
        show(m, a)
        show(m, d)
        m.op('eq', lambda: [m.regs[a - 1] == m.regs[d - 1], m.regs[a - 1] != m.regs[d - 1]], a=a, b=d, encode=lambda x: x)
    elif sess[0] == 'orders':
        # the same value built by multiplying and adding in every order
        vs = rng.sample(VARS, 3)
        exps = [rng.choice([-2, -1, 1, 2]) for _ in vs]
        cs = [rng.choice([-1, 1, 2]) for _ in vs]
        for perm in itertools.permutations(range(3)):
            m.op('const', lambda: Polynomial.one(), dst=1, c=1)
            for t in perm:
                i, k = vs[t], exps[t]
                m.op('var', lambda: Polynomial.monomial(enc.unidx(i), k), dst=2, i=i, k=k)
                m.op('mul', lambda: m.regs[0] * m.regs[1], dst=1, a=1, b=2)
            show(m, 1)
            m.op('const', lambda: Polynomial.zero(), dst=3, c=0)
            for t in perm:
                i, k, c = vs[t], exps[t], cs[t]
                m.op('var', lambda: Polynomial.monomial(enc.unidx(i), k), dst=2, i=i, k=k)
                m.op('mulc', lambda: m.regs[1] * c, dst=2, a=2, c=c)
                m.op('add', lambda: m.regs[2] + m.regs[1], dst=3, a=3, b=2)
            show(m, 3)
            m.op('mul', lambda: m.regs[0] * m.regs[2], dst=4, a=1, b=3)
            show(m, 4)
            m.op('mul', lambda: m.regs[2] * m.regs[0], dst=5, a=3, b=1)
            show(m, 5)
            m.op('eq', lambda: [m.regs[3] == m.regs[4], m.regs[3] != m.regs[4]], a=4, b=5, encode=lambda x: x)
    elif sess[0] == 'small':
        # all pairs from a small pool, one eighth per session
        pool = [[], [[[], 1]], [[[], -1]], [[[[1, 1]], 1]], [[[[1, 1]], -1]], [[[[1, -1]], 1]], [[[[0, 1]], 1]],
                [[[[1, 1]], 1], [[[2, 1]], 1]], [[[[2, 1]], -1], [[], 1]], [[[[1, 1], [2, -1]], 1]], [[[[1, -1], [2, 1]], 1]],
                [[[[1, 1], [2, -1]], 1], [[[1, -1], [2, 1]], 1]], [[[[2, 2]], 2], [[[0, 1], [1, 1]], -2]]]
        for k, (x, y) in enumerate(itertools.product(pool, pool)):
            if k % 8 != sess[1]:
                continue
            m.op('load', lambda: enc.unpoly(x), dst=1, val=x)
            m.op('load', lambda: enc.unpoly(y), dst=2, val=y)
            r = m.regs
            m.op('add', lambda: r[0] + r[1], dst=3, a=1, b=2)
            m.op('sub', lambda: r[0] - r[1], dst=4, a=1, b=2)
            m.op('mul', lambda: r[0] * r[1], dst=5, a=1, b=2)
            show(m, 5)
            m.op('ksum', lambda: r[0] ^ r[1], dst=5, a=1, b=2)
            m.op('eq', lambda: [r[0] == r[1], r[0] != r[1]], a=1, b=2, encode=lambda v: v)
            for c in (-1, 0, 1):
                m.op('order', lambda: [r[0] < r[1], r[0] > r[1], r[0] < c, r[0] > c], a=1, b=2, c=c, encode=lambda v: v)
            for a in range(1, 6):
                show(m, a)
                m.op('deg', lambda: r[a - 1].total_degree(), a=a, encode=lambda v: 'none' if v is None else v)
