"""Removing primes from the diagonal of set-valued shifted tableaux."""
import enc
import shapes
import tabs
from check import BadValue
from drivers.c21 import fill
from insertion import InsertionAlgorithm
from tableaux import Tableau

TRACE_SPEC = 'C24Trace'
MODELS = [('UnprimeModel', 'UnprimeModel.cfg', ('quick', 'thorough')), ('UnprimeModel', 'UnprimeModelDeep.cfg', ('thorough',))]
ASSUMPTIONS = ['Shapes with at most 14 boxes and entries of absolute value at most 9.']
NS = 16
# inputs on which the shipped rule is known to leave the set-valued tableaux (see known_findings.json)
PROBES = {
    'repeat': [[[1, 1, [-1]], [1, 2, [1]], [1, 3, [-3, 3]], [2, 2, [-3, -2]]]],
    'jump': [[[1, 1, [1]], [1, 2, [1]], [1, 3, [-3, 1, 3]], [1, 4, [3]], [2, 2, [-3, -2, 2, 3]]]],
    'collide': [[[1, 1, [-1, 1]], [1, 2, [1]], [1, 3, [-2, 2]], [1, 4, [-3, 2]], [2, 2, [-2, 2]], [2, 3, [-3]]],
                [[1, 1, [1]], [1, 2, [1]], [1, 3, [1]], [1, 4, [-3, -2, 2]], [2, 2, [-2, 2]], [2, 3, [-3, 2]]]],
}
OK = [
    [[[1, 1, [-2, -1, 1]], [1, 2, [2]], [1, 3, [-3]], [2, 2, [3]]]],
]


def sessions(tier, rng):
    big = tier != 'quick'
    out = [('small', n, i) for n in (1, 2, 3) for i in range(NS)]
    out += [('random', 0, i) for i in range(4000 if big else 900)]
    out += [('two', 0, i) for i in range(12)]
    out += [('probe', k, 0) for k in PROBES] + [('probe', k, 1) for k in range(len(OK))]
    return out


class Spy(InsertionAlgorithm):
    calls = []

    @classmethod
    def setvalued_column_insert(cls, *a, **k):
        if len(a) != 3 or k:
            return super().setvalued_column_insert(*a, **k)
        before = [tabs.tab(a[0]), list(a[1]), a[2]]
        r = super().setvalued_column_insert(*a)
        cls.calls.append((before, r))
        return r


def make(js):
    return Tableau({(i, j): tuple(v) for i, j, v in js})


def pushed(r):
    if not isinstance(r, tuple) or len(r) != 2 or not (r[1] is None or isinstance(r[1], (tuple, list))):
        raise BadValue('expected a tableau and the letters pushed out')
    return [tabs.tab(r[0]), [enc.need_int(x) for x in (r[1] or ())]]


def one(js, rec, rng):
    if rng.random() < .5:
        t = make(js)
        rec.event('unprime', {'t': js}, lambda: [InsertionAlgorithm.unprime_diagonal(t), t], lambda r: [tabs.tab(r[0]), tabs.tab(r[1])])
    else:
        t = make(js)
        del Spy.calls[:]
        rec.event('unprime', {'t': js}, lambda: [Spy.unprime_diagonal(t), t], lambda r: [tabs.tab(r[0]), tabs.tab(r[1])])
        for (tt, s, c), r in list(Spy.calls):
            rec.event('column', {'t': tt, 's': s, 'c': c}, lambda: r, pushed)


def fillings(mu, n):
    """all semistandard set-valued fillings of a strict shape with primes anywhere, by increasing rank words"""
    cells = [(i, i + j) for i in range(1, len(mu) + 1) for j in range(mu[i - 1])]
    out = []

    def go(k, t):
        if k == len(cells):
            out.append([[i, j, sorted(r // 2 if r % 2 == 0 else -(r + 1) // 2 for r in t[i, j])] for i, j in cells])
            return
        i, j = cells[k]
        low = 1
        if (i, j - 1) in t:
            m = max(t[i, j - 1])
            low = max(low, m + m % 2)
        if (i - 1, j) in t:
            m = max(t[i - 1, j])
            low = max(low, m + (m % 2 == 0))
        letters = list(range(low, 2 * n + 1))
        for mask in range(1, 1 << len(letters)):
            t[i, j] = [r for b, r in enumerate(letters) if mask >> b & 1]
            go(k + 1, t)
        t.pop((i, j), None)

    go(0, {})
    return out


def rich(rng):
    while True:
        mu = shapes.random_partition(rng, rng.choice([3, 4, 5, 6, 7, 8, 10, 12, 14]), True)
        n = rng.choice([2, 3, 3, 4, 5, 6, 9])
        if len(mu) > n:
            continue
        cells = [(i, i + j) for i in range(1, len(mu) + 1) for j in range(mu[i - 1])]
        # split the ranks of a weakly increasing pattern from the far corner inwards, so that sets can be large
        t = {}
        good = True
        p = rng.choice([.25, .5, .8])
        for i, j in reversed(cells):
            high = 2 * n
            if (i, j + 1) in t:
                m = min(t[i, j + 1])
                high = min(high, m - (m % 2))
            if (i + 1, j) in t:
                m = min(t[i + 1, j])
                high = min(high, m if m % 2 else m - 1)
            least = 2 * min(i, j) - 1       # room for the boxes above
            if high < least:
                good = False
                break
            rs = [r for r in range(max(least, high - 5), high + 1) if rng.random() < p] or [rng.randrange(max(least, high - 1), high + 1)]
            t[i, j] = rs
        if good:
            return [[i, j, sorted(r // 2 if r % 2 == 0 else -(r + 1) // 2 for r in t[i, j])] for i, j in cells]


def wild(js):
    return any(i == j and len(v) > 1 and v[0] < 0 for i, j, v in js)


def run_session(sess, rec):
    rng = rec.rng
    mode, n, i = sess
    if mode == 'small':
        for mu in shapes.strict_upto({1: 5, 2: 5, 3: 3}[n]):
            if not mu:
                continue
            cases = fillings(mu, n)
            mine = [c for k, c in enumerate(cases) if k % NS == i]
            for js in mine:
                if wild(js) or rng.random() < .1:
                    one(js, rec, rng)
    elif mode == 'two':
        pool = [mu for mu in shapes.strict_upto(7) if mu and len(mu) <= 2]
        for mu in pool[i::12]:
            cases = fillings(mu, 2)
            rec.event('images', {'mu': list(mu)}, lambda: [InsertionAlgorithm.unprime_diagonal(make(js)) for js in cases], lambda r: [tabs.tab(x) for x in r])
    elif mode == 'probe':
        ts = OK[n] if i else PROBES[n]
        rec.event('probe', {'ts': ts, 'name': str(n)}, lambda: [InsertionAlgorithm.unprime_diagonal(make(js)) for js in ts], lambda r: [tabs.tab(x) for x in r])
    else:
        for _ in range(6):
            js = rich(rng)
            if wild(js) or rng.random() < .15:
                one(js, rec, rng)
