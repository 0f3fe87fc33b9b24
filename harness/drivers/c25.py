"""Relations between the families of symmetric functions: branching, coproducts, pairings, structure constants."""
import itertools

import enc
import shapes
import utils
from check import BadValue
from drivers.c11 import DBL, FAM, NEG, STRICT, U, sym
from permutations import Permutation
from vectors import Vector

TRACE_SPEC = 'C25Trace'
MODELS = [('RelationsModel', 'RelationsModel.cfg', ('quick', 'thorough')), ('RelationsModel', 'RelationsModelDeep.cfg', ('thorough',))]
ASSUMPTIONS = ['Shapes up to 14 boxes in up to 5 variables; permutations of rank up to 4 (5 in thorough runs).']
PAIRS = [('s', 's'), ('G', 'g'), ('P', 'Q'), ('S', 's'), ('GP', 'gq'), ('GQ', 'gp'), ('GS', 'g'), ('G', 'gs'),
         ('mG', 'j'), ('mGP', 'jq'), ('mGQ', 'jp'), ('mG', 'js')]
STRUCT = [('s', 's'), ('P', 'Q'), ('Q', 'P'), ('G', 'g'), ('GP', 'gq'), ('GQ', 'gp')]
CLASSIC = {'G': 's', 'g': 's', 'j': 's', 'GP': 'P', 'gp': 'P', 'jp': 'P', 'GQ': 'Q', 'gq': 'Q', 'jq': 'Q', 'GS': 'S', 'gs': 'S', 'js': 'S'}
# family -> list of (n, m, boxes of the outer shape, boxes between the shapes, degrees above the least one or None)
BRANCH = {
    's': [(1, 1, 9, 9, None), (2, 1, 9, 9, None), (2, 2, 10, 8, None), (3, 1, 11, 9, None), (1, 3, 11, 9, None), (3, 2, 11, 7, None)],
    'P': [(1, 1, 9, 9, None), (2, 1, 12, 10, None), (1, 2, 12, 10, None), (2, 2, 12, 9, None), (3, 1, 12, 9, None), (1, 4, 12, 7, None)],
    'Q': [(1, 1, 9, 9, None), (2, 1, 12, 10, None), (1, 2, 12, 10, None), (2, 2, 12, 9, None), (3, 1, 12, 9, None), (4, 1, 12, 7, None)],
    'S': [(1, 1, 9, 7, None), (2, 1, 9, 7, None), (1, 2, 9, 7, None), (2, 2, 8, 6, None), (3, 1, 8, 6, None)],
    'G': [(1, 1, 9, 7, None), (2, 1, 9, 7, None), (1, 2, 9, 7, None), (2, 2, 8, 6, 3), (1, 3, 8, 6, 3)],
    'GP': [(1, 1, 11, 8, None), (2, 1, 9, 6, 3), (1, 2, 9, 6, 3), (2, 2, 8, 5, 2)],
    'GQ': [(1, 1, 11, 8, None), (2, 1, 9, 6, 3), (1, 2, 9, 6, 3), (2, 2, 8, 5, 2)],
    'GS': [(1, 1, 8, 6, None), (2, 1, 7, 5, 3), (1, 2, 7, 5, 3), (2, 2, 6, 4, 2)],
    'g': [(1, 1, 10, 9, None), (2, 1, 10, 8, None), (1, 2, 10, 8, None), (2, 2, 8, 6, None), (3, 1, 8, 6, None)],
    'gp': [(1, 1, 12, 9, None), (2, 1, 11, 8, None), (1, 2, 11, 8, None), (2, 2, 9, 6, None)],
    'gq': [(1, 1, 12, 9, None), (2, 1, 11, 8, None), (1, 2, 11, 8, None), (2, 2, 9, 6, None)],
    'gs': [(1, 1, 7, 6, None), (2, 1, 6, 5, None), (1, 2, 6, 5, None)],
    'j': [(1, 1, 9, 8, None), (2, 1, 8, 7, None), (1, 2, 8, 7, None), (2, 2, 7, 6, None)],
    'jp': [(1, 1, 9, 7, None), (2, 1, 8, 6, None), (1, 2, 8, 6, None)],
    'jq': [(1, 1, 8, 6, None), (2, 1, 7, 5, None), (1, 2, 7, 5, None)],
    'js': [(1, 1, 6, 5, None), (2, 1, 5, 4, None), (1, 2, 5, 4, None)],
}
# pair -> list of (n, m, degree)
PAIRSIZE = {
    ('s', 's'): [(2, 2, 8), (3, 3, 7), (4, 2, 7)], ('P', 'Q'): [(2, 2, 8), (3, 3, 7), (2, 4, 7)], ('S', 's'): [(2, 2, 7), (3, 2, 6), (2, 3, 6)],
    ('G', 'g'): [(2, 2, 7), (3, 2, 6), (2, 3, 6)], ('GP', 'gq'): [(2, 2, 7), (3, 2, 6), (2, 3, 6)], ('GQ', 'gp'): [(2, 2, 7), (3, 2, 6), (2, 3, 6)],
    ('GS', 'g'): [(2, 2, 5), (1, 3, 6), (3, 2, 5)], ('G', 'gs'): [(2, 2, 5), (3, 2, 5), (2, 1, 6)],
    ('mG', 'j'): [(2, 2, 6), (3, 2, 6), (2, 3, 6)], ('mGP', 'jq'): [(2, 2, 6), (3, 2, 5), (1, 3, 5)], ('mGQ', 'jp'): [(2, 2, 6), (3, 2, 5), (1, 3, 6)],
    ('mG', 'js'): [(2, 2, 5), (3, 1, 5), (2, 2, 4)],
}


def conj(mu):
    return tuple(sum(1 for a in mu if a > i) for i in range(mu[0] if mu else 0))


def fun(fam, n, mu, nu, rng, bound=None, doubled=False):
    """One value of a family: a random public entry point."""
    if fam.startswith('m'):
        return rng.choice(NEG[fam[1:]])(n, mu, nu)
    if doubled and fam in DBL and (nu or rng.random() < .5):
        f = rng.choice(DBL[fam])
        return f(n, mu, nu, degree_bound=bound) if bound is not None else f(n, mu, nu)
    return rng.choice(FAM[fam][1][:2])(n, mu, nu, bound)


def inner(fam, mu):
    return shapes.sub_strict(mu) if fam in STRICT else shapes.sub(mu)


def contains(mu, nu):
    return len(nu) <= len(mu) and all(b <= a for a, b in zip(mu, nu))


def pick(fam, size, rng, rows=99):
    while True:
        k = rng.randrange(max(0, size - 4), size + 1)
        c = [p for p in (shapes.strict(k) if fam in STRICT else shapes.parts(k)) if len(p) <= rows]
        if c:
            return tuple(rng.choice(c))


def pick_pair(fam, outer, boxes, rng, rows=99):
    mu = pick(fam, outer, rng, rows)
    c = [nu for nu in inner(fam, mu) if sum(mu) - sum(nu) <= boxes]
    best = [nu for nu in c if sum(mu) - sum(nu) >= min(boxes, sum(mu)) - 2]
    return mu, tuple(rng.choice(best or c))


def branch(fam, n, m, mu, nu, bound, rec, rng):
    ks = [k for k in inner(fam, mu) if contains(k, nu)]
    rng.shuffle(ks)

    def f():
        first = rng.random() < .5
        full = fun(fam, n + m, mu, nu, rng, bound, True) if first else None
        L = [(k, fun(fam, n, k, nu, rng, bound, True), fun(fam, m, mu, k, rng, bound, True)) for k in ks]
        return (full if first else fun(fam, n + m, mu, nu, rng, bound, True)), L

    rec.event('branch', {'fam': fam, 'n': n, 'm': m, 'mu': list(mu), 'nu': list(nu), 'bound': -1 if bound is None else bound}, f,
              lambda r: [sym(n + m)(r[0]), [[list(k), sym(n)(a), sym(m)(b)] for k, a, b in r[1]]])


def pair(f, h, n, m, d, rec, rng):
    strict = f.lstrip('m') in STRICT
    L = list(shapes.strict_upto(d) if strict else shapes.upto(d))
    rng.shuffle(L)
    t = (f, h) == ('mG', 'j')
    rec.event('pair', {'f': f, 'h': h, 'n': n, 'm': m, 'd': d},
              lambda: [(p, fun(f, n, p, (), rng, d if f in DBL else None), fun(h, m, conj(p) if t else p, (), rng)) for p in L],
              lambda r: [[list(p), sym(n)(a), sym(m)(b)] for p, a, b in r])


# permutations as one-line words, independent of the library
def trim(w):
    w = list(w)
    while w and w[-1] == len(w):
        w.pop()
    return tuple(w)


def reduced(v):
    v, out = list(v), []
    while True:
        i = next((i for i in range(len(v) - 1) if v[i] > v[i + 1]), None)
        if i is None:
            return out[::-1]
        v[i], v[i + 1] = v[i + 1], v[i]
        out.append(i + 1)


def step(kind, w, i):
    if w is None:
        return None
    if kind == 'shecke' and w[i - 1] == i + 1:
        return None
    if w[i - 1] > w[i]:
        return w
    s = lambda x: i + 1 if x == i else i if x == i + 1 else x
    if kind == 'hecke':
        return tuple(w[s(k + 1) - 1] for k in range(len(w)))
    c = tuple(s(w[s(k + 1) - 1]) for k in range(len(w)))
    return tuple(w[s(k + 1) - 1] for k in range(len(w))) if c == w and kind == 'ihecke' else c


def elements(kind, n):
    out = list(itertools.permutations(range(1, n + 1)))
    if kind == 'hecke':
        return out
    out = [w for w in out if all(w[w[i] - 1] == i + 1 for i in range(n))]
    return out if kind == 'ihecke' else [w for w in out if all(w[i] != i + 1 for i in range(n))]


def value(kind, w, n, bound, rng):
    p = Permutation(*w)
    if kind == 'hecke':
        return rng.choice([lambda: p.stable_grothendieck(n, degree_bound=bound), lambda: U('G')(n, p, degree_bound=bound)])()
    if kind == 'ihecke':
        return p.involution_stable_grothendieck(n, degree_bound=bound)
    return rng.choice([lambda: p.symplectic_stable_grothendieck(n, degree_bound=bound), lambda: U('GP')(n, p, degree_bound=bound)])()


def walk(kind, u, v):
    for i in reduced(v):
        u = step(kind, u, i)
    return u


def length(kind, w):
    ell = sum(1 for i in range(len(w)) for j in range(i) if w[j] > w[i])
    if kind == 'hecke':
        return ell
    two = sum(1 for i in range(len(w)) if w[i] != i + 1) // 2
    return (ell + two) // 2 if kind == 'ihecke' else (ell - len(w) // 2) // 2


def split(kind, rank, w, n, m, bound, rec, rng):
    pairs = [(u, v) for u in elements(kind, rank) for v in elements('hecke', rank) if walk(kind, u, v) == w]
    rng.shuffle(pairs)
    keys, idx = [], []
    for u, v in pairs:
        a, b = (kind, u, n), ('hecke', v, m)
        for x in (a, b):
            if x not in keys:
                keys.append(x)
        idx.append([keys.index(a) + 1, keys.index(b) + 1])

    def show(k, x):
        return list(x) if k == 'shecke' else list(trim(x))

    rec.event('split', {'kind': kind, 'rank': rank, 'w': show(kind, w), 'n': n, 'm': m, 'bound': bound},
              lambda: (value(kind, w, n + m, bound, rng), [value(k, x, r, bound, rng) for k, x, r in keys]),
              lambda r: [sym(n + m)(r[0]), idx, [[k, show(k, x), j, sym(j)(v)] for (k, x, j), v in zip(keys, r[1])]])


def combo(v):
    if type(v) is not Vector:
        raise BadValue('expected a vector')
    return [[enc.part(k), enc.poly(v.dictionary[k])] for k in v.dictionary]


EXP = {'s': 'schur_expansion', 'P': 'P_expansion', 'Q': 'Q_expansion', 'G': 'G_expansion', 'GP': 'GP_expansion', 'GQ': 'GQ_expansion',
       'g': 'g_expansion', 'gp': 'gp_expansion', 'gq': 'gq_expansion'}


def struct(f, h, lam, n, D, rec, rng):
    gen = shapes.strict_upto if f in STRICT else shapes.upto
    mus = [p for p in gen(D - sum(lam)) if len(p) <= n]
    nus = [p for p in gen(D) if len(p) <= n and contains(p, lam)]
    if len(nus) > 12:
        nus = rng.sample(nus, 12)
    if len(mus) > 5:
        mus = rng.sample(mus, 5)

    def run():
        P = [(mu, U(EXP[f])(fun(f, n, lam, (), rng) * fun(f, n, mu, (), rng))) for mu in mus]
        S = [(nu, U(EXP[h])(fun(h, max(1, sum(nu) - sum(lam)), nu, lam, rng))) for nu in nus]
        return P, S

    rec.event('struct', {'f': f, 'h': h, 'lam': list(lam), 'n': n}, run,
              lambda r: [[[list(k), combo(v)] for k, v in x] for x in r])


def two(op, fields, a, b, na, nb, rec):
    rec.event(op, fields, lambda: (a(), b()), lambda r: [sym(na)(r[0]), sym(nb)(r[1])])


def sessions(tier, rng):
    big = tier != 'quick'
    out = [('branch', fam, k) for fam in BRANCH for k in range(len(BRANCH[fam]) * (12 if big else 4))]
    out += [('pair', p, k) for p in range(len(PAIRS)) for k in range(3)]
    out += [('split', kind, k) for kind in ('hecke', 'ihecke', 'shecke') for k in range(60 if big else 20)]
    out += [('classic', fam, k) for fam in FAM for k in range(20 if big else 5)]
    out += [('struct', p, k) for p in range(len(STRUCT)) for k in range(20 if big else 7)]
    return out


def run_session(sess, rec):
    rng = rec.rng
    what, arg, i = sess
    if what == 'branch':
        fam = arg
        n, m, outer, boxes, extra = BRANCH[fam][i % len(BRANCH[fam])]
        few = fam in ('s', 'G', 'j')
        for _ in range(2):
            if i == 0:
                mu, nu = pick_pair(fam, 4, 4, rng, n + m if few else 99)
            else:
                mu, nu = pick_pair(fam, outer, boxes, rng, n + m + (rng.random() < .3) if few else 99)
            branch(fam, n, m, mu, nu, None if extra is None else sum(mu) - sum(nu) + rng.randrange(0, extra + 1), rec, rng)
    elif what == 'pair':
        f, h = PAIRS[arg]
        n, m, d = PAIRSIZE[f, h][i % len(PAIRSIZE[f, h])]
        pair(f, h, n, m, d, rec, rng)
    elif what == 'split':
        kind = arg
        rank = rng.choice((3, 4, 4)) if kind != 'shecke' else 4
        for _ in range(2):
            w = rng.choice(elements(kind, rank))
            n, m = rng.choice([(1, 1), (2, 1), (1, 2)] if kind == 'hecke' else [(1, 1), (1, 2)])
            split(kind, rank, w, n, m, length(kind, w) + rng.randrange(1, 4), rec, rng)
    elif what == 'classic':
        fam = arg
        n, m, outer, boxes, extra = rng.choice(BRANCH[fam])
        for _ in range(3):
            mu, nu = pick_pair(fam, outer, boxes, rng)
            F = {'fam': fam, 'mu': list(mu), 'nu': list(nu)}
            if fam in CLASSIC:
                two('classic', dict(F, n=n + m), lambda: fun(fam, n + m, mu, nu, rng, None, True), lambda: fun(CLASSIC[fam], n + m, mu, nu, rng), n + m, n + m, rec)
            two('stable', dict(F, n=n, m=n + m), lambda: fun(fam, n, mu, nu, rng, None, True) if not nu or fam not in DBL else rng.choice(DBL[fam])(n, mu, nu),
                lambda: fun(fam, n + m, mu, nu, rng, None, True), n, n + m, rec)
            if fam == 'Q':
                two('double', dict(F, n=n + m), lambda: fun('Q', n + m, mu, nu, rng), lambda: fun('P', n + m, mu, nu, rng), n + m, n + m, rec)
    elif what == 'struct':
        f, h = STRUCT[arg]
        n = rng.choice((2, 3))
        lam = pick(f, 3, rng, n)
        struct(f, h, lam, n, sum(lam) + rng.choice((2, 3)), rec, rng)
