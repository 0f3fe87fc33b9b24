"""Constructors of symmetric functions: partitions, skew shapes, permutations."""
import utils
from symmetric import SymmetricPolynomial as SP, SymmetricMonomial
from permutations import Permutation
from vectors import Vector
import enc
import shapes
import tabs

TRACE_SPEC = 'C11Trace'
MODELS = [('SymFunModel', 'SymFunModel.cfg', ('quick', 'thorough')), ('SymFunModel', 'SymFunModelDeep.cfg', ('thorough',)),
          ('LayersModel', 'LayersModel.cfg', ('quick', 'thorough')), ('LayersModel', 'LayersModelDeep.cfg', ('thorough',)),
          ('FactorModel', 'FactorModel.cfg', ('quick', 'thorough')), ('FactorModel', 'FactorModelDeep.cfg', ('thorough',))]

def U(name):
    return lambda *a, **k: getattr(utils, name)(*a, **k)


# family -> (size table, strict shapes, entry points (n, mu, nu, bound))
def plain(*fs):
    return tuple((lambda n, m, k, b, f=f: f(n, m, k)) for f in fs)


def bounded(*fs):
    return tuple((lambda n, m, k, b, f=f: f(n, m, k, degree_bound=b)) for f in fs)


FAM = {
    's': ('ss', plain(U('s'), SP.schur, SP._slow_schur, U('schur'))),
    'P': ('P', plain(U('P'), SP.schur_p, SP._slow_schur_p, U('schur_P'))),
    'Q': ('Q', plain(U('Q'), SP.schur_q, SP._slow_schur_q, U('schur_Q'))),
    'S': ('mk', plain(U('S'), SP.schur_s, SP._slow_schur_s, U('schur_S'))),
    'G': ('sv', bounded(U('G'), U('grothendieck'), SP.stable_grothendieck) + plain(SP._slow_stable_grothendieck)),
    'GP': ('GP', bounded(U('GP'), U('grothendieck_P'), SP.stable_grothendieck_p) + plain(SP._slow_stable_grothendieck_p)),
    'GQ': ('GQ', bounded(U('GQ'), U('grothendieck_Q'), SP.stable_grothendieck_q) + plain(SP._slow_stable_grothendieck_q)),
    'GS': ('mksv', bounded(U('GS'), U('grothendieck_S'), SP.stable_grothendieck_s) + plain(SP._slow_stable_grothendieck_s)),
    'g': ('rpp', plain(U('g'), SP.dual_stable_grothendieck, SP._slow_dual_stable_grothendieck, U('dual_grothendieck'))),
    'gp': ('rppP', plain(U('gp'), SP.dual_stable_grothendieck_p, SP._slow_dual_stable_grothendieck_p, U('dual_grothendieck_P'))),
    'gq': ('rppQ', plain(U('gq'), SP.dual_stable_grothendieck_q, SP._slow_dual_stable_grothendieck_q, U('dual_grothendieck_Q'))),
    'gs': ('gs', plain(U('gs'), SP.dual_stable_grothendieck_s)),
    'j': ('ss', plain(U('j'), SP.slow_transposed_dual_stable_grothendieck)),
    'jp': ('P', plain(U('jp'), SP.slow_transposed_dual_stable_grothendieck_p)),
    'jq': ('Q', plain(U('jq'), SP.slow_transposed_dual_stable_grothendieck_q)),
    'js': ('mk', plain(U('js'), SP.slow_transposed_dual_stable_grothendieck_s)),
}
NEG = {'G': (U('mn_G'), SP.mn_stable_grothendieck), 'GP': (U('mn_GP'), SP.mn_stable_grothendieck_p), 'GQ': (U('mn_GQ'), SP.mn_stable_grothendieck_q),
       'g': (U('mp_g'), SP.mp_dual_stable_grothendieck), 'gp': (U('mp_gp'), SP.mp_dual_stable_grothendieck_p), 'gq': (U('mp_gq'), SP.mp_dual_stable_grothendieck_q)}
DBL = {'G': (U('G_doublebar'), SP.stable_grothendieck_doublebar), 'GP': (U('GP_doublebar'), SP.stable_grothendieck_p_doublebar),
       'GQ': (U('GQ_doublebar'), SP.stable_grothendieck_q_doublebar), 'GS': (U('GS_doublebar'), SP.stable_grothendieck_s_doublebar)}
BOUNDED = ('G', 'GP', 'GQ', 'GS')
STRICT = ('P', 'Q', 'GP', 'GQ', 'gp', 'gq', 'jp', 'jq')
LIM = dict(tabs.SIZE, gs={0: 3, 1: 5, 2: 4, 3: 3})
# one box fewer where the specification enumerates all sets
DLIM = {'G': {1: 7, 2: 5, 3: 3}, 'GP': {1: 6, 2: 4, 3: 2}, 'GQ': {1: 6, 2: 3, 3: 2}, 'GS': {1: 5, 2: 3, 3: 2}}


def sym(n):
    def f(v):
        if type(v) is int and v == 0:
            return []
        if not isinstance(v, SP):
            raise enc.BadValue('expected a symmetric polynomial, got %s' % type(v).__name__)
        for k in v.dictionary:
            if type(k) is not SymmetricMonomial or k.order() != n:
                raise enc.BadValue('key is not a monomial in %d variables' % n)
        return [[enc.part(k.index()), enc.poly(v.dictionary[k])] for k in v.dictionary]
    return f


def refined(n):
    E = sym(n)

    def f(v):
        if type(v) is not Vector:
            raise enc.BadValue('expected a vector')
        return [[[enc.need_int(a) for a in k], E(v.dictionary[k])] for k in v.dictionary]
    return f


def fun(fam, n, mu, nu, rec, rng, bound=None):
    entry = rng.choice(FAM[fam][1])
    if sum(mu) - sum(nu) > 5 or n > 3:
        entry = rng.choice(FAM[fam][1][:2])
    slow = bound is None and rng.random() < .3 and (sum(mu) - sum(nu) <= 5 and n <= 3 or fam == 'gs')
    if slow:
        entry = FAM[fam][1][-1]
    if bound is not None:
        entry = rng.choice(FAM[fam][1][:-1])
    rec.event('fun', {'fam': fam, 'n': n, 'mu': list(mu), 'nu': list(nu), 'bound': -1 if bound is None else bound},
              lambda: entry(n, mu, nu, bound), sym(n))


def neg(fam, n, mu, nu, rec, rng):
    entry = rng.choice(NEG[fam])
    rec.event('negfun', {'fam': fam, 'n': n, 'mu': list(mu), 'nu': list(nu)}, lambda: entry(n, mu, nu), sym(n))


def dbl(fam, n, mu, nu, rec, rng, bound=None):
    entry = rng.choice(DBL[fam])
    rec.event('doublebar', {'fam': fam, 'n': n, 'mu': list(mu), 'nu': list(nu), 'bound': -1 if bound is None else bound},
              lambda: entry(n, mu, nu, degree_bound=bound) if bound is not None else entry(n, mu, nu), sym(n))


def cases(fam, lim=None, hi=4):
    lim = lim or LIM[FAM[fam][0]]
    gen = shapes.strict_upto(hi) if fam in STRICT else shapes.upto(hi)
    for mu in gen:
        for nu in (shapes.sub_strict(mu) if fam in STRICT else shapes.sub(mu)):
            for n in lim:
                if sum(mu) - sum(nu) <= lim[n]:
                    yield n, tuple(mu), tuple(nu)


def random_case(fam, rng):
    kind = FAM[fam][0]
    return tabs.random_case('mk' if kind == 'gs' else kind, rng)


def perms(kind):
    if kind == 'hecke':
        return [w for n in range(0, 5) for w in Permutation.all(n)]
    if kind == 'ihecke':
        return [w for n in range(0, 5) for w in Permutation.involutions(n)]
    if kind == 'sihecke':
        return [w for n in range(0, 4) for w in Permutation.involutions(n, signed=True)]
    return [w for n in (2, 4, 6) for w in Permutation.fpf_involutions(n)]


STYLE = {'hecke': 'dec', 'ihecke': 'dec', 'sihecke': 'uni', 'shecke': 'dec'}


def gperm(kind, w, n, bound, rec, rng):
    entry = {
        'hecke': [lambda: w.stable_grothendieck(n, degree_bound=bound), lambda: U('G')(n, w, degree_bound=bound), lambda: U('grothendieck')(n, w, (), bound)],
        'ihecke': [lambda: w.involution_stable_grothendieck(n, degree_bound=bound)],
        'sihecke': [lambda: w.signed_involution_stable_grothendieck(n, degree_bound=bound), lambda: U('GS')(n, w, degree_bound=bound)],
        'shecke': [lambda: w.symplectic_stable_grothendieck(n, degree_bound=bound), lambda: U('GP')(n, w, degree_bound=bound)],
    }[kind]
    rec.event('gperm', {'kind': 'ihecke' if kind == 'sihecke' else kind, 'style': STYLE[kind], 'w': [w(i + 1) for i in range(w.rank)], 'n': n,
                        'bound': -1 if bound is None else bound}, rng.choice(entry), sym(n))


NS = 4


def sessions(tier, rng):
    k = 1 if tier == 'quick' else 12
    out = [('small', fam, i) for fam in FAM for i in range(NS)]
    out += [('many', fam, 0) for fam in FAM]
    out += [('random', fam, i) for fam in FAM for i in range(6 * k if k == 1 else 4 * k)]
    out += [('big', fam, i) for fam in FAM for i in range(60 if tier != 'quick' else 9)]
    out += [('perm', kind, i) for kind in STYLE for i in range(12 if tier == 'quick' else 40)]
    out += [('bigperm', kind, i) for kind in ('hecke', 'ihecke', 'shecke', 'sihecke') for i in range(15 if tier == 'quick' else 60)]
    out += [('ribbon', 0, i) for i in range(2 * k)]
    return out


def run_session(sess, rec):
    rng = rec.rng
    what, fam, i = sess
    if what == 'small':
        todo = [(fun,) + c for j, c in enumerate(cases(fam)) if j % NS == i]
        todo += [(f,) + c for f, F in ((neg, NEG), (dbl, DBL)) if fam in F
                 for j, c in enumerate(cases(fam, DLIM.get(fam) if f is dbl else None)) if j % (2 * NS) == i]
        if len(todo) > 90:
            todo = rng.sample(todo, 90)
        rng.shuffle(todo)
        for f, n, mu, nu in todo:
            if f is not neg and fam in BOUNDED and rng.random() < .3:
                f(fam, n, mu, nu, rec, rng, rng.randrange(0, sum(mu) + 3))
            else:
                f(fam, n, mu, nu, rec, rng)
    elif what == 'many':
        kind = FAM[fam][0]
        lim = tabs.MANY['mk' if kind == 'gs' else kind]
        todo = list(cases(fam, lim))
        for n, mu, nu in rng.sample(todo, min(len(todo), 20)):
            fun(fam, n, mu, nu, rec, rng, rng.randrange(0, sum(mu) + 3) if fam in BOUNDED and rng.random() < .3 else None)
    elif what == 'random':
        for _ in range(2):
            n, mu, nu = random_case(fam, rng)
            fun(fam, n, mu, nu, rec, rng)
            if fam in BOUNDED:
                d = sum(mu) - sum(nu)
                for b in rng.sample(range(d, d + 3), 2):
                    fun(fam, n, mu, nu, rec, rng, b)
            if n > 1:
                fun(fam, n - 1, mu, nu, rec, rng)
            if fam in NEG:
                neg(fam, n, mu, nu, rec, rng)
            if fam in DBL and sum(mu) - sum(nu) <= LIM[FAM[fam][0]][n] - 2:
                dbl(fam, n, mu, nu, rec, rng)
        # an inner shape that does not fit
        nu = tuple(mu) + (1,) if fam not in STRICT else (mu[0] + 1,) + tuple(mu[1:]) if mu else (1,)
        fun(fam, n, mu, nu, rec, rng)
        if fam in DBL:
            dbl(fam, n, mu, nu, rec, rng)
        if fam in ('gp', 'gq'):
            n, mu, nu = random_case(fam, rng)
            f = SP._slow_refined_dual_stable_grothendieck_p if fam == 'gp' else SP._slow_refined_dual_stable_grothendieck_q
            rec.event('refined', {'fam': fam, 'n': n, 'mu': list(mu), 'nu': list(nu)}, lambda: f(n, mu, nu), refined(n))
    elif what == 'big':
        kind = FAM[fam][0]
        while True:
            n, mu, nu = tabs.big_case('mk' if kind == 'gs' else kind, rng)
            if fam in ('j', 'jp', 'jq', 'js') and (n > 4 or sum(mu) - sum(nu) > {'j': 7, 'jp': 6, 'jq': 6, 'js': 6}[fam] - (n > 3)):
                continue        # these list the tableaux
            break
        fun(fam, n, mu, nu, rec, rng)
        r = rng.random()
        if fam in BOUNDED and r < .6:
            fun(fam, n, mu, nu, rec, rng, rng.randrange(sum(mu) - sum(nu), sum(mu) + 6))
        if fam in NEG and r > .3:
            neg(fam, n - 1, mu, nu, rec, rng)
        if fam in DBL and r > .5:
            dbl(fam, n - 1, mu, nu, rec, rng, rng.choice([None, None, sum(mu) - sum(nu) + 2]))
        fun(fam, n - 1, mu, nu, rec, rng)
    elif what == 'bigperm':
        # larger rank, short elements
        r = {'hecke': 7, 'ihecke': 6, 'shecke': 8, 'sihecke': 4}[fam]
        if fam == 'shecke':
            w = Permutation(*[i + 1 if i % 2 else i - 1 for i in range(1, r + 1)])
        else:
            w = Permutation()
        for _ in range(rng.randrange(2, {'hecke': 7, 'ihecke': 5, 'shecke': 6, 'sihecke': 4}[fam])):
            s = Permutation.s_i(rng.randrange(0 if fam == 'sihecke' else 1, r))
            if fam == 'hecke' and len(w * s) > len(w):
                w = w * s
            elif fam != 'hecke' and len(w * s) > len(w):
                w = s * w * s if fam == 'shecke' else s % w % s
        ell = {'hecke': lambda: w.length, 'ihecke': lambda: w.involution_length, 'sihecke': lambda: w.involution_length, 'shecke': lambda: w.fpf_involution_length}[fam]()
        gperm(fam, w, rng.choice([2, 3, 3, 4] if fam in ('hecke', 'shecke') else [2, 3]), ell + rng.choice([0, 1, 1, 2] if ell < 4 else [0, 1]), rec, rng)
    elif what == 'perm':
        pool = perms(fam)
        for _ in range(6):
            w = rng.choice(pool)
            r = w.rank
            n = rng.choice([0, 1, 2, 3])
            ell = {'hecke': lambda: w.length, 'ihecke': lambda: w.involution_length, 'sihecke': lambda: w.involution_length, 'shecke': lambda: w.fpf_involution_length}[fam]()
            big = r >= {'hecke': 4, 'ihecke': 4, 'sihecke': 3, 'shecke': 6}[fam]
            bound = rng.choice([None, ell, ell + 1, ell + 2])
            if fam == 'sihecke' and (r >= 2 and n >= 2 or r >= 3 and n >= 1):
                bound = min(ell + rng.choice([0, 1, 2]), 6)
            elif big and (bound is None or bound > 6) and n >= 2:
                bound = min(ell + rng.choice([0, 1]), 6)
            gperm(fam, w, n, bound, rec, rng)
    else:
        for _ in range(12):
            a = tuple(rng.randrange(1, 5) for _ in range(rng.randrange(1, 6)))
            rec.event('ribbon', {'alpha': list(a)}, lambda: U('shifted_ribbon')(a), lambda r: [enc.part(x) for x in r])
