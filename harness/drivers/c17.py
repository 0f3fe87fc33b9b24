"""Ordinary and shifted growth diagrams and the tableaux read from them."""
import contextlib
import io
import itertools
import enc
import instab
import tabs
from check import BadValue
from insertion import InsertionAlgorithm
from partitions import Partition
from tableaux import Tableau

TRACE_SPEC = 'C17Trace'
MODELS = [('GrowthModel', 'GrowthModel.cfg', ('quick', 'thorough')), ('GrowthModel', 'GrowthModelDeep.cfg', ('thorough',))]
NS = 12
ASSUMPTIONS = ['Arrays are at most 11 by 11 with entries up to 12; words have at most 20 letters, at most 12 each.']


def sessions(tier, rng):
    big = tier != 'quick'
    return ([('small', i) for i in range(NS)] + [('perm', i) for i in range(4)]
            + [('array', i) for i in range(4000 if big else 500)] + [('word', i) for i in range(6000 if big else 1000)])


def grid(g):
    if not isinstance(g, list):
        raise BadValue('a growth diagram is a list of rows')
    return [[enc.part(mu) for mu in row] for row in g]


def sgrid(x):
    g, e, c, _ = x
    if not len(g) == len(e) == len(c):
        raise BadValue('rows of the diagram')
    out = []
    for a, b, d in zip(g, e, c):
        if not len(a) == len(b) == len(d):
            raise BadValue('columns of the diagram')
        out.append([[enc.part(mu), enc.need_bool(f), 0 if k is None else enc.need_int(k)] for mu, f, k in zip(a, b, d)])
    return out


def size(rng, top):
    return rng.choice([None, None, top, max(0, top - 1), top + 1, top + 2])


def printed(g):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        Partition.print_growth_diagram(g)
    return out.getvalue()


def ordinary(rec, rng, array, form, m=None, n=None):
    js = [[i, j, v] for (i, j), v in sorted(array.items())]
    arg = {k for k, v in array.items()} if form == 'set' else array
    if rng.random() < .2:
        rec.event('print', dict(array=js), lambda: printed(arg if rng.random() < .5 else Partition.growth_diagram(arg)), lambda s: s.split('\n'))
    rec.event('growth', dict(array=js, m=-1 if m is None else m, n=-1 if n is None else n), lambda: Partition.growth_diagram(arg, m, n), grid)


def shifted(rec, rng, w, form, m=None, n=None):
    """w has 0 for columns without an entry"""
    pairs = [(a, j + 1) for j, a in enumerate(w) if a]
    if form == 'set':
        arg = set(pairs)
    elif form == 'dict':
        arg = dict.fromkeys(pairs, 1)
        if rng.random() < .3 and w and max(w) > 1:
            arg.setdefault((rng.randrange(1, max(w)), rng.randrange(1, len(w))) if len(w) > 1 else (1, 1), 0)
    else:
        arg = list(w) if form == 'list' else tuple(w)
    if form in ('set', 'dict'):
        w = list(w)
        while w and not w[-1]:
            w.pop()
        w = tuple(w)
    rec.event('sgrowth', dict(word=list(w), m=-1 if m is None else m, n=-1 if n is None else n), lambda: Partition.shifted_growth_diagram(arg, m, n), sgrid)
    if 0 in w:
        return
    if m is not None and m < len(w) or n is not None and w and n < max(w):
        return

    def read():
        g, e, c, _ = Partition.shifted_growth_diagram(arg, m, n)
        p, q = Tableau.from_shifted_growth_diagram(g, e, c)
        pp, qq = InsertionAlgorithm.orthogonal_hecke(tuple(w))
        return [p, q, pp, qq]
    if m is None or m == len(w):
        rec.event('read', dict(word=list(w)), read, lambda x: [tabs.tab(t) for t in x])


def run_session(sess, rec):
    rng, mode = rec.rng, sess[0]
    if mode == 'small':
        words = [w for k in range(5) for w in itertools.product(range(0, 5), repeat=k)]
        for j, w in enumerate(words):
            if j % NS == sess[1]:
                if 0 in w and rng.random() < .6:
                    continue
                shifted(rec, rng, w, rng.choice(['set', 'dict'] if 0 in w else ['tuple', 'list', 'set', 'dict']))
        arrays = list(itertools.product(range(3), repeat=4))
        for j, a in enumerate(arrays):
            if j % NS == sess[1]:
                d = {(i // 2 + 1, i % 2 + 1): v for i, v in enumerate(a) if v or rng.random() < .3}
                ordinary(rec, rng, d, 'dict')
    elif mode == 'perm':
        for j, p in enumerate(itertools.permutations(range(1, 5))):
            if j % 4 == sess[1]:
                for k in range(5):
                    ordinary(rec, rng, {(i + 1, v): 1 for i, v in enumerate(p[:k])}, 'set')
                shifted(rec, rng, p, 'tuple')
    elif mode == 'array':
        for _ in range(2):
            n, m = (rng.randrange(1, 8), rng.randrange(1, 8)) if rng.random() < .7 else (rng.randrange(5, 12), rng.randrange(5, 12))
            dens, top = rng.choice([.2, .4, .8]), rng.choice([1, 1, 2, 3, 10])
            if top == 10 and dens > .3:
                n, m = min(n, 4), min(m, 4)
            d = {}
            for i in range(1, n + 1):
                for j in range(1, m + 1):
                    if rng.random() < dens:
                        d[i, j] = rng.randrange(1, top + 1)
                    elif rng.random() < .05:
                        d[i, j] = 0
            kind = rng.random()
            if kind < .3:
                d = {k: 1 for k in d}
            elif kind < .5:
                d = {k: v for (i, j), v in d.items() for k in ((i, j), (j, i))}
            items = list(d.items())
            rng.shuffle(items)
            d = dict(items)
            a, b = (max([0] + [k[x] for k in d]) for x in (0, 1))
            ordinary(rec, rng, d, 'set' if kind < .3 and rng.random() < .7 else 'dict', size(rng, b), size(rng, a))
    else:
        top = rng.choice([3, 4, 5, 6, 7, 9, 12])
        w = instab.walk('orth', rng, top, rng.choice([3, 5, 7, 9, 11, 13, 17, 20]))
        if rng.random() < .25:
            w = tuple(a if rng.random() < .8 else 0 for a in w)
        elif rng.random() < .3:
            k = rng.choice([9, 9, 13])
            w = tuple(rng.sample(range(1, k + 1), rng.randrange(3, k + 1)))
        forms = ['set', 'dict'] if 0 in w else ['tuple', 'list', 'set', 'dict']
        if not any(w):
            return
        shifted(rec, rng, w, rng.choice(forms))
        shifted(rec, rng, w, rng.choice(forms), size(rng, len(w)), size(rng, max(w)))
