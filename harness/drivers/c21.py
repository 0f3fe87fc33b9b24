"""The public interface of tableaux as values."""
import enc
import shapes
import tabs
from machine import Machine
from tableaux import MarkedReversePlanePartition, ReversePlanePartition, Tableau

TRACE_SPEC = 'C21Trace'
MODELS = [('TabApiModel', 'TabApiModel.cfg', ('quick', 'thorough')), ('TabApiModel', 'TabApiModelDeep.cfg', ('thorough',))]
NR = 3


def sessions(tier, rng):
    return [('parse', 0)] + [(m, i) for m in ('free', 'ss', 'young', 'std') for i in range(600 if tier == 'quick' else 4000)]


def fill(mu, nu, sh, n, rng, primes, setv, dp=True):
    """random semistandard filling of a skew (shifted) shape, as rows of [i, j, values]"""
    t, out = {}, []
    for i in range(1, len(mu) + 1):
        off = i - 1 if sh else 0
        for j in range((nu[i - 1] if i <= len(nu) else 0) + 1 + off, mu[i - 1] + 1 + off):
            low = 1
            if (i, j - 1) in t:
                low = max(low, t[i, j - 1] + t[i, j - 1] % 2)
            if (i - 1, j) in t:
                low = max(low, t[i - 1, j] + (t[i - 1, j] % 2 == 0))
            ok = [r for r in range(low, 2 * n + 1) if (primes or r % 2 == 0) and (dp or i != j or r % 2 == 0)]
            if not ok:
                return None
            rs = [ok[0] if rng.random() < .7 else rng.choice(ok[:3])]
            if setv:
                for r in ok:
                    if r > rs[-1] and rng.random() < .25 and len(rs) < 3:
                        rs.append(r)
            t[i, j] = rs[-1]
            out.append([i, j, sorted(r // 2 if r % 2 == 0 else -(r + 1) // 2 for r in rs)])
    return out


def mk(mode, rng, wide=False):
    if mode == 'free':
        cells = rng.sample([(i, j) for i in range(1, 4) for j in range(1, 5)], rng.randrange(0, 7))
        if rng.random() < .2:
            cells.append((rng.choice([4, 6]), rng.choice([5, 11])))
        letters = [-123, -12, -4, -3, -2, -1, 1, 2, 3, 4, 5, 10, 101]
        return [[i, j, sorted(rng.choice(letters) for _ in range(rng.choice([1, 1, 1, 2, 3])))] for i, j in sorted(cells)]
    while True:
        sh = mode == 'ss' and rng.random() < .7
        mu = shapes.random_partition(rng, rng.randrange(9, 23) if wide else rng.randrange(1, 9), sh)
        nu = shapes.random_sub(rng, mu, sh) if mode in ('ss', 'std') and rng.random() < .4 else ()
        primes = mode == 'ss' or mode == 'std' and rng.random() < .5
        t = fill(mu, nu, sh, rng.choice([4, 6, 12] if wide else [2, 3, 4, 11]), rng, primes, rng.random() < .5, rng.random() < .6)
        if t is not None:
            return t


def build(js, rng):
    d = {(i, j): (v[0] if len(v) == 1 and rng.random() < .7 else tuple(rng.sample(v, len(v)))) for i, j, v in js}
    items = list(d.items())
    rng.shuffle(items)
    return Tableau(dict(items))


def run_session(sess, rec):
    mode = sess[0]
    rng = rec.rng
    wide = rng.random() < .12
    m = Machine(rec, NR, lambda: Tableau(), tabs.tab, lambda v, res: sum(len(x[2]) for x in res) <= (48 if wide else 16))
    R = m.regs
    if mode == 'parse':
        return run_parse(m, rng)

    def load(d, js=None):
        js = mk(mode, rng, wide) if js is None else js
        m.op('load', lambda: build(js, rng), dst=d, val=js)

    for d in range(1, NR + 1):
        load(d)
    if mode == 'std':
        for d in range(1, NR + 1):
            m.op('standardize', R[d - 1].standardize, dst=d, a=d)
    kinds = ['load', 'add', 'add', 'remove', 'clear', 'set', 'set', 'transpose', 'apply', 'negate', 'row', 'col', 'fromrow', 'standardize', 'reload',
             'pop', 'box', 'box', 'count', 'words', 'round', 'preds', 'preds', 'compare', 'compare', 'print', 'descents', 'rpp']
    if mode != 'free':
        kinds += ['load', 'load', 'round', 'standardize', 'descents', 'preds', 'words', 'print']
    for _ in range(26):
        kind = rng.choice(kinds)
        a, b, d = (rng.randrange(NR) + 1 for _ in range(3))
        t, u = R[a - 1], R[b - 1]
        boxes = sorted(t.boxes)
        i, j = rng.choice(boxes) if boxes and rng.random() < .75 else (rng.randrange(1, 5), rng.randrange(1, 6))
        v = rng.choice([-3, -2, -1, 1, 2, 3, 4, 7])
        if kind == 'load':
            load(d)
        elif kind == 'reload':
            m.op('reload', rng.choice([lambda: Tableau(t.boxes), lambda: Tableau(dict(reversed(list(t.boxes.items())))), lambda: t.apply(lambda x: x)]), dst=d, a=a)
        elif kind == 'add':
            m.op('add', lambda: t.add(i, j, v), dst=d, a=a, i=i, j=j, v=v)
        elif kind == 'remove' and boxes and (i, j) in t.boxes:
            v = rng.choice(t.boxes[i, j])
            m.op('remove', lambda: t.remove(i, j, v), dst=d, a=a, i=i, j=j, v=v)
        elif kind == 'clear' and (i, j) in t.boxes:
            m.op('clear', rng.choice([lambda: t.clear(i, j), lambda: t.remove(i, j)]), dst=d, a=a, i=i, j=j)
        elif kind == 'set':
            s = [rng.choice([-30, -3, -1, 1, 2, 5, 21]) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
            val = s[0] if len(s) == 1 and rng.random() < .6 else tuple(s)
            call = t.replace if (i, j) in t.boxes and rng.random() < .4 else t.set
            m.op('set', lambda: call(i, j, val), dst=d, a=a, i=i, j=j, s=s)
        elif kind == 'transpose':
            m.op('transpose', t.transpose, dst=d, a=a)
        elif kind == 'apply':
            even = all(x % 2 == 0 for s in t.boxes.values() for x in s)
            f = rng.choice(['double', 'neg', 'rev'] + ['halve'] * (4 if even else 0))
            if f == 'rev' and any(x == 9 for s in t.boxes.values() for x in s) or f == 'double' and any(abs(x) > 50 for s in t.boxes.values() for x in s):
                continue
            fn = {'double': t.double, 'halve': t.halve, 'neg': lambda: t.apply(lambda x: -x), 'rev': lambda: t.apply(lambda x: 9 - x)}[f]
            m.op('apply', fn, dst=d, a=a, f=f)
        elif kind == 'negate':
            skip = rng.random() < .5
            m.op('negate', (lambda: t.negate(skipdiagonal=skip)) if not skip or rng.random() < .5 else t.negate, dst=d, a=a, skip=skip)
        elif kind in ('row', 'col'):
            fn = t.get_row if kind == 'row' else t.get_column
            x = i if kind == 'row' else j
            before, after = rng.choice([0, 0, 1, 2, 3, 4]), rng.choice([0, 0, 1, 2])
            kw = {}
            if before:
                kw['before'] = before
            if after:
                kw['after'] = after
            m.op(kind, lambda: fn(x, **kw), dst=d, a=a, i=x, before=before, after=after)
        elif kind == 'fromrow':
            w = [rng.randrange(1, 5) for _ in range(rng.randrange(0, 7))]
            m.op('fromrow', lambda: Tableau.from_row_reading_word(tuple(w)), dst=d, w=w)
        elif kind == 'standardize':
            if all(len(set(s)) == len(s) for s in t.boxes.values()):
                m.op('standardize', t.standardize, dst=d, a=a)
        elif kind == 'pop':
            vals = [x for s in t.boxes.values() for x in s]
            if vals:
                n = max(abs(x) for x in vals)
                holders = [c for c in t.boxes if n in t.boxes[c] or -n in t.boxes[c]]
                if len(holders) == 1 and len(set(t.boxes[holders[0]])) == len(t.boxes[holders[0]]) and not {n, -n} <= set(vals):
                    m.op('pop', t.pop, a=a, encode=lambda r: {'rest': tabs.tab(r[0]), 'rec': [r[1][0], r[1][1], sorted(r[1][2]) if isinstance(r[1][2], tuple) else [enc.need_int(r[1][2])]]})
        elif kind == 'box':
            mark = object()

            def fn():
                g = t.get(i, j, unpack=False)
                one = t.get(i, j)
                dflt = t.get(i, j, mark)
                if g is None:
                    if one is not None or dflt is not mark or t.get(i, j, default=7) != 7:
                        raise enc.BadValue('default')
                else:
                    if type(g) is not tuple or one != (g[0] if len(g) == 1 else g) or dflt != one:
                        raise enc.BadValue('unpack')
                lr, lc = t.last_box_in_row(i), t.last_box_in_column(j)
                return dict(has=enc.need_bool((i, j) in t), has2=enc.need_bool(t.contains_box(i, j)), get=list(g or ()), find=[list(x) for x in t.find(v)],
                            lastrow=[] if lr is None else [lr], lastcol=[] if lc is None else [lc],
                            maxrow=[t.max_row(), t.max_row(j)], maxcol=[t.max_column(), t.max_column(i)])
            m.op('box', fn, a=a, i=i, j=j, v=v, encode=lambda x: x)
        elif kind == 'count':
            vals = [abs(x) for s in t.boxes.values() for x in s]
            n = max(vals, default=0) + rng.randrange(0, 3)
            both = any(x in t.values() and -x in t.values() for x in [max(vals, default=0)]) and vals
            m.op('count', lambda: dict(size=t.size(), len=len(t), bool=bool(t), abssum=t.abs_sum(), values=sorted(t.values()), shape=list(t.shape()),
                                       excess=t.setvalued_excess(), counter=[[k, c] for k, c in t.counter().items()], weight=list(t.weight()),
                                       weightn=list(t.weight(n)), last=[] if both else [t.last()], iter=[[x, y, list(s)] for x, y, s in t]),
                 a=a, n=n, encode=lambda x: x)
        elif kind == 'words':
            m.op('words', lambda: dict(row=t.row_reading_word(), col=t.column_reading_word(), shifted=t.shifted_reading_word(), crystal=t.crystal_reading_word()),
                 a=a, encode=lambda x: {k: [list(y) for y in s] if k == 'crystal' else list(s) for k, s in x.items()})
        elif kind == 'round':
            vals = [x for s in t.boxes.values() for x in s]
            straight = t.boxes and all((x, y - 1) in t.boxes or y == 1 for x, y in t.boxes) and all((x - 1, y) in t.boxes or x == 1 for x, y in t.boxes)
            if straight and all(x > 0 for x in vals) and t.is_semistandard() and all(len(set(s)) == len(s) for s in t.boxes.values()):
                m.op('round', lambda: dict(row=tabs.tab(Tableau.from_row_reading_word(t.row_reading_word())),
                                           crystal=tabs.tab(Tableau.from_crystal_reading_word(t.crystal_reading_word()))), a=a, encode=lambda x: x)
        elif kind == 'preds':
            m.op('preds', lambda: dict(ss=[t.is_semistandard(), t.is_semistandard(False), t.is_semistandard(diagonal_primes=True)], std=t.is_standard(),
                                       sup=t.is_shifted_column_superstandard()), a=a,
                 encode=lambda x: dict(ss=[enc.need_bool(y) for y in x['ss']], std=enc.need_bool(x['std']), sup=enc.need_bool(x['sup'])))
        elif kind == 'compare':
            if rng.random() < .3:
                u = Tableau(dict(t.boxes))
                m.op('reload', lambda: u, dst=b, a=a)
                u = R[b - 1]
                t = R[a - 1]
            elif boxes and rng.random() < .6:
                # the same tableau with one box changed
                ij = rng.choice(boxes)
                x = list(t.boxes[ij])
                k = rng.randrange(len(x))
                x[k] = rng.choice([-x[k], x[k] + 1 or 1, x[k] - 1 or -1])
                x = x if rng.random() < .8 else x + [x[-1] + 1 or 1]
                m.op('set', lambda: t.set(ij[0], ij[1], tuple(x)), dst=b, a=a, i=ij[0], j=ij[1], s=x)
                u = R[b - 1]
                t = R[a - 1]
            m.op('compare', lambda: dict(eq=[t == u, t != u], lt=[t < u, u < t], sorted=sorted([t, u])[0] is u and t is not u,
                                         hash=[hash(t) % 1000003, hash(u) % 1000003]), a=a, b=b, encode=lambda x: x)
        elif kind == 'print':
            prnt(m, t, a)
        elif kind == 'descents':
            vals = sorted(abs(x) for s in t.boxes.values() for x in s)
            if vals == list(range(1, len(vals) + 1)):
                m.op('descents', t.descent_set, a=a, encode=sorted)
        elif kind == 'rpp':
            n = max([abs(x) for s in t.boxes.values() for x in s], default=0) + rng.randrange(0, 3)
            m.op('rpp', lambda: dict(plain=ReversePlanePartition(t.boxes).weight(n), marked=MarkedReversePlanePartition(t.boxes).weight(n)), a=a, n=n,
                 encode=lambda x: {k: list(s) for k, s in x.items()})


def prnt(m, t, a):
    def fn():
        s = str(t)
        if not (s.startswith('\n\n') and s.endswith('\n\n')):
            raise enc.BadValue('frame')
        lines = s[2:-2].split('\n') if t.boxes else []
        back = Tableau('\n'.join(reversed(lines)))
        return dict(rows=[x.split() for x in lines], widths=[len(x) for x in lines], back=tabs.tab(back))
    m.op('print', fn, a=a, encode=lambda x: x)


def run_parse(m, rng):
    R = m.regs

    def go(js):
        m.op('load', lambda: build(js, rng), dst=1, val=js)
        t = R[0]
        m.op('reparse', lambda: Tableau(str(t)), a=1)
        prnt(m, t, 1)
    go([])
    for n in range(1, 5):
        for k in range(6):
            go([[1, j, sorted(rng.sample([-3, -2, -1, 1, 2, 3, 12], rng.choice([1, 2])))] for j in range(1, n + 1) if j == n or rng.random() < .8])
    go([[1, 1, [1]], [1, 2, [2]], [2, 1, [3]]])
