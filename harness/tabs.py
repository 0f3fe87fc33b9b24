"""Common part of the tableau drivers: kinds of tableaux with the public entry points that list and count them."""
import enc
import shapes
from tableaux import Tableau as T

# name -> (options, listing function, counting function); functions take (max_entry, mu, nu)
KINDS = {}


def kind(name, sh=False, marked=False, setv=False, diag='any', rpp=False, lists=(), counts=()):
    KINDS[name] = (dict(sh=sh, marked=marked, setv=setv, diag=diag, rpp=rpp), lists, counts)


kind('ss', lists=(lambda n, m, k: T.semistandard(n, m, k), lambda n, m, k: T.semistandard(n, m, nu=k, setvalued=False)),
     counts=(lambda n, m, k: T.count_semistandard(n, m, k),))
kind('sv', setv=True, lists=(lambda n, m, k: T.semistandard_setvalued(n, m, k), lambda n, m, k: T.semistandard(n, m, k, setvalued=True)),
     counts=(lambda n, m, k: T.count_semistandard_setvalued(n, m, k), lambda n, m, k: T.count_semistandard(n, m, k, True)))
kind('mk', marked=True, lists=(lambda n, m, k: T.semistandard_marked(n, m, k),), counts=(lambda n, m, k: T.count_semistandard_marked(n, m, k),))
kind('mksv', marked=True, setv=True, lists=(lambda n, m, k: T.semistandard_marked_setvalued(n, m, k), lambda n, m, k: T.semistandard_marked(n, m, k, True)),
     counts=(lambda n, m, k: T.count_semistandard_marked_setvalued(n, m, k), lambda n, m, k: T.count_semistandard_marked(n, m, k, True)))
kind('Q', sh=True, marked=True, lists=(lambda n, m, k: T.semistandard_shifted_marked(n, m, k), lambda n, m, k: T.semistandard_shifted(n, m, k)),
     counts=(lambda n, m, k: T.count_semistandard_shifted_marked(n, m, k),))
kind('P', sh=True, marked=True, diag='noprime',
     lists=(lambda n, m, k: T.semistandard_shifted_marked(n, m, k, diagonal_primes=False), lambda n, m, k: T.semistandard_shifted(n, m, k, False)),
     counts=(lambda n, m, k: T.count_semistandard_shifted_marked(n, m, k, diagonal_primes=False),))
kind('GQ', sh=True, marked=True, setv=True,
     lists=(lambda n, m, k: T.semistandard_shifted_marked_setvalued(n, m, k), lambda n, m, k: T.semistandard_shifted_setvalued(n, m, k),
            lambda n, m, k: T.semistandard_shifted_marked(n, m, k, setvalued=True)),
     counts=(lambda n, m, k: T.count_semistandard_shifted_marked_setvalued(n, m, k), lambda n, m, k: T.count_semistandard_shifted_marked(n, m, k, True, True)))
kind('GP', sh=True, marked=True, setv=True, diag='noprime',
     lists=(lambda n, m, k: T.semistandard_shifted_marked_setvalued(n, m, k, diagonal_primes=False), lambda n, m, k: T.semistandard_shifted_setvalued(n, m, k, False)),
     counts=(lambda n, m, k: T.count_semistandard_shifted_marked_setvalued(n, m, k, diagonal_primes=False),))
kind('rpp', rpp=True, lists=(lambda n, m, k: T.semistandard_rpp(n, m, k),), counts=(lambda n, m, k: T.count_semistandard_rpp(n, m, k),))
kind('rppQ', sh=True, marked=True, rpp=True, lists=(lambda n, m, k: T.semistandard_marked_rpp(n, m, k), lambda n, m, k: T.semistandard_shifted_rpp(n, m, k)),
     counts=(lambda n, m, k: T.count_semistandard_marked_rpp(n, m, k),))
kind('rppP', sh=True, marked=True, rpp=True, diag='onlyprime',
     lists=(lambda n, m, k: T.semistandard_marked_rpp(n, m, k, diagonal_nonprimes=False), lambda n, m, k: T.semistandard_shifted_rpp(n, m, k, False)),
     counts=(lambda n, m, k: T.count_semistandard_marked_rpp(n, m, k, diagonal_nonprimes=False),))


def tab(t):
    if not isinstance(t, T):
        raise enc.BadValue('expected a tableau')
    out = []
    for i, j in sorted(t.boxes):
        v = t.boxes[(i, j)]
        if not isinstance(v, tuple):
            raise enc.BadValue('a box holds a tuple')
        out.append([enc.need_int(i), enc.need_int(j), [enc.need_int(a) for a in v]])
    return out


def tabs(L):
    return [tab(t) for t in L]


def untab(js):
    return T({(i, j): tuple(v) for i, j, v in js})


# largest numbers of boxes that keep the enumeration small: kind -> {max entry: boxes}
SIZE = {'ss': {0: 5, 1: 8, 2: 7, 3: 6, 4: 5}, 'sv': {0: 5, 1: 8, 2: 6, 3: 4, 4: 3}, 'mk': {0: 4, 1: 6, 2: 4, 3: 4}, 'mksv': {0: 4, 1: 5, 2: 3, 3: 2},
        'Q': {0: 4, 1: 7, 2: 5, 3: 4, 4: 3}, 'P': {0: 4, 1: 7, 2: 6, 3: 4, 4: 3}, 'GQ': {0: 4, 1: 6, 2: 4, 3: 2}, 'GP': {0: 4, 1: 6, 2: 4, 3: 3},
        'rpp': {0: 4, 1: 7, 2: 6, 3: 5}, 'rppQ': {0: 4, 1: 6, 2: 4, 3: 3}, 'rppP': {0: 4, 1: 6, 2: 5, 3: 4}}


def small(name):
    """All (max, mu, nu) with mu of at most 4 boxes."""
    o = KINDS[name][0]
    gen = shapes.strict_upto(4) if o['sh'] else shapes.upto(4)
    for mu in gen:
        for nu in (shapes.sub_strict(mu) if o['sh'] else shapes.sub(mu)):
            for m in SIZE[name]:
                if sum(mu) - sum(nu) <= SIZE[name][m] and m <= 3:
                    yield m, tuple(mu), tuple(nu)


# few boxes and many letters: largest skew size for each number of letters
MANY = {'ss': {5: 3, 6: 3, 8: 2}, 'sv': {5: 2, 6: 1, 8: 1}, 'mk': {4: 2, 6: 2, 8: 1}, 'mksv': {4: 1, 5: 1},
        'Q': {5: 2, 6: 2, 8: 1}, 'P': {5: 2, 6: 2, 8: 1}, 'GQ': {3: 2, 4: 1, 5: 1}, 'GP': {4: 2, 5: 1, 6: 1},
        'rpp': {4: 4, 6: 2, 8: 1}, 'rppQ': {4: 2, 6: 1, 8: 1}, 'rppP': {4: 3, 6: 2, 8: 1}}


def many(name):
    o = KINDS[name][0]
    for mu in (shapes.strict_upto(4) if o['sh'] else shapes.upto(4)):
        for nu in (shapes.sub_strict(mu) if o['sh'] else shapes.sub(mu)):
            for m, size in MANY[name].items():
                if sum(mu) - sum(nu) <= size:
                    yield m, tuple(mu), tuple(nu)


# tall shapes with few fillings
TIGHT = {'ss': [(5, (1,) * 5), (6, (1,) * 5), (4, (2, 2, 2, 2)), (5, (2, 2, 2, 2)), (4, (3, 3, 3)), (5, (2, 2, 1, 1, 1)), (12, (1,)), (11, (1,))],
         'sv': [(5, (1,) * 5), (6, (1,) * 5), (4, (2, 2, 2, 2)), (5, (2, 1, 1, 1, 1)), (3, (2, 2, 2))],
         'mk': [(2, (1,) * 4), (2, (2, 2, 2)), (2, (1,) * 5), (11, (1,)), (3, (1,) * 4)], 'mksv': [(1, (1,) * 6), (2, (1,) * 3), (1, (2, 2, 1, 1))],
         'Q': [(4, (4, 3, 2, 1)), (3, (3, 2, 1)), (3, (4, 2, 1)), (11, (1,))], 'P': [(4, (4, 3, 2, 1)), (3, (3, 2, 1)), (4, (3, 2, 1)), (3, (4, 3, 1)), (11, (1,))],
         'GQ': [(3, (3, 2, 1)), (2, (3, 2)), (2, (4, 1))], 'GP': [(3, (3, 2, 1)), (3, (4, 2, 1)), (2, (4, 3))],
         'rpp': [(2, (1,) * 6), (2, (2, 2, 1, 1, 1)), (3, (1,) * 5), (2, (3, 2, 2)), (11, (1,))], 'rppQ': [(1, (4, 3, 2, 1)), (2, (3, 2, 1)), (1, (4, 2, 1)), (11, (1,))],
         'rppP': [(1, (4, 3, 2, 1)), (2, (3, 2, 1)), (3, (3, 2, 1)), (2, (4, 2, 1)), (11, (1,))]}


def tight(name):
    return [(m, mu, ()) for m, mu in TIGHT[name]]


def random_case(name, rng, wide=False):
    o = KINDS[name][0]
    while True:
        m = rng.choice([k for k in SIZE[name] if k])
        size = rng.choice([4, 5, 6, 7, 8, 9, 10, 12]) if not wide else rng.choice([14, 17, 20])
        mu = tuple(shapes.random_partition(rng, size, o['sh']))
        # an inner shape leaving a manageable number of boxes
        nu = list(mu)
        want = rng.randrange(0, SIZE[name][m] + 1)
        for _ in range(200):
            if sum(mu) - sum(nu) >= want:
                break
            i = rng.randrange(len(nu))
            x = nu[:]
            x[i] -= 1
            y = [a for a in x if a > 0]
            if x[i] < 0 or len([a for a in x[:len(y)] if a == 0]):
                continue
            if all(a > b or (not o['sh'] and a == b) for a, b in zip(y, y[1:])):
                nu = x
        nu = tuple(a for a in nu if a > 0)
        letters = (2 if o['marked'] else 1) * m
        if wide and (2 ** letters - 1 if o['setv'] else letters) ** (sum(mu) - sum(nu)) > 5000:
            continue        # the boxes may not touch
        if sum(mu) - sum(nu) <= SIZE[name][m]:
            return m, mu, nu


# limits of the larger cases: kind -> {max entry: boxes of a straight shape}; the values must stay below 2^31
BIG = {'ss': {3: 14, 4: 14, 5: 13, 6: 12, 7: 8}, 'sv': {2: 14, 3: 13, 4: 12, 5: 11, 6: 7}, 'mk': {2: 12, 3: 10, 4: 10, 5: 9}, 'mksv': {1: 12, 2: 9, 3: 9, 4: 8, 5: 5},
       'Q': {3: 14, 4: 13, 5: 12, 6: 9}, 'P': {3: 14, 4: 13, 5: 12, 6: 9}, 'GQ': {2: 12, 3: 12, 4: 11, 5: 10, 6: 6}, 'GP': {2: 12, 3: 12, 4: 11, 5: 10, 6: 6},
       'rpp': {2: 13, 3: 12, 4: 11, 5: 10, 6: 7}, 'rppQ': {2: 11, 3: 10, 4: 9, 5: 8, 6: 5}, 'rppP': {2: 11, 3: 10, 4: 9, 5: 8, 6: 5}}


def big_case(name, rng, cut=0):
    """A larger shape, skew about half of the time."""
    sh = KINDS[name][0]['sh']
    m = rng.choice(list(BIG[name]))
    top = BIG[name][m] - cut
    while True:
        mu = tuple(shapes.random_partition(rng, rng.randrange(5, top + 1), sh))
        if not mu or len(mu) > 6 or max(mu) > 8:
            continue
        if rng.random() < .5:
            return m, mu, ()
        inner = [nu for nu in (shapes.sub_strict(mu) if sh else shapes.sub(mu)) if 0 < sum(nu) and sum(mu) - sum(nu) >= 3]
        if inner:
            return m, mu, rng.choice(inner)
