"""Basis expansions: known combinations, products, skew functions and functions of other families."""
import builtins
import contextlib
import io
import utils
from symmetric import SymmetricPolynomial as SP
from polynomials import Polynomial
from vectors import Vector
import enc
import shapes
from drivers.c11 import sym

TRACE_SPEC = 'C12Trace'
MODELS = [('ExpansionModel', 'ExpansionModel.cfg', ('quick', 'thorough')), ('ExpansionModel', 'ExpansionModelDeep.cfg', ('thorough',))]


def U(name):
    return getattr(utils, name, None) or getattr(SP, name)


# basis -> (constructor, names of the expansion functions)
B = {
    's': ('schur', ['schur_expansion']), 'omega': (None, ['omega_schur_expansion']),
    'G': ('stable_grothendieck', ['grothendieck_expansion', 'G_expansion']), 'nG': ('mn_stable_grothendieck', ['mn_grothendieck_expansion', 'mn_G_expansion']),
    'g': ('dual_stable_grothendieck', ['dual_grothendieck_expansion', 'g_expansion']), 'ng': ('mp_dual_stable_grothendieck', ['mp_dual_grothendieck_expansion', 'mp_g_expansion']),
    'j': ('slow_transposed_dual_stable_grothendieck', ['j_expansion']),
    'P': ('schur_p', ['P_expansion']), 'Q': ('schur_q', ['Q_expansion']),
    'GP': ('stable_grothendieck_p', ['GP_expansion']), 'nGP': ('mn_stable_grothendieck_p', ['mn_GP_expansion']),
    'GQ': ('stable_grothendieck_q', ['GQ_expansion']), 'nGQ': ('mn_stable_grothendieck_q', ['mn_GQ_expansion']),
    'gp': ('dual_stable_grothendieck_p', ['gp_expansion']), 'ngp': ('mp_dual_stable_grothendieck_p', ['mp_gp_expansion']),
    'gq': ('dual_stable_grothendieck_q', ['gq_expansion']), 'ngq': ('mp_dual_stable_grothendieck_q', ['mp_gq_expansion']),
    'jp': ('slow_transposed_dual_stable_grothendieck_p', ['jp_expansion']), 'jq': ('slow_transposed_dual_stable_grothendieck_q', ['jq_expansion']),
    'S': ('schur_s', ['S_expansion']), 'GS': ('stable_grothendieck_s', ['GS_expansion']),
    'gs': ('dual_stable_grothendieck_s', ['gs_expansion']), 'js': ('slow_transposed_dual_stable_grothendieck_s', ['js_expansion']),
    'free': (None, ['gp_free_expansion']),
}
STRICT = ('P', 'Q', 'GP', 'GQ', 'gp', 'gq', 'jp', 'jq', 'nGP', 'nGQ', 'ngp', 'ngq')
ROWS = ('S', 'GS', 'gs', 'js')
# largest sizes of shapes whose functions the specification evaluates quickly, per number of variables
SETV = {1: 6, 2: 5, 3: 4}
SIZE = {'s': {1: 6, 2: 6, 3: 6, 4: 4}, 'G': {1: 6, 2: 6, 3: 4, 4: 2}, 'g': {1: 6, 2: 6, 3: 5, 4: 3}, 'j': {1: 6, 2: 6, 3: 5}, 'P': {1: 7, 2: 6, 3: 5, 4: 4}, 'Q': {1: 6, 2: 5, 3: 4, 4: 3},
        'GP': {1: 6, 2: 5, 3: 4, 4: 2}, 'GQ': {1: 6, 2: 4, 3: 3}, 'gp': {1: 6, 2: 5, 3: 4, 4: 3}, 'gq': {1: 6, 2: 4, 3: 3}, 'jp': {1: 7, 2: 6, 3: 4}, 'jq': {1: 6, 2: 5, 3: 4},
        'S': {1: 5, 2: 4, 3: 3}, 'GS': {1: 4, 2: 3, 3: 2}, 'gs': {1: 5, 2: 4, 3: 3}, 'js': {1: 5, 2: 4, 3: 3}}
# larger functions, which the specification evaluates by layers
BIGSIZE = {'s': {3: 9, 4: 8, 5: 7}, 'G': {3: 7, 4: 6, 5: 5}, 'g': {3: 8, 4: 7, 5: 6}, 'P': {3: 9, 4: 8, 5: 8}, 'Q': {3: 9, 4: 8, 5: 8},
           'GP': {3: 7, 4: 6, 5: 5}, 'GQ': {3: 6, 4: 5, 5: 4}, 'gp': {3: 8, 4: 7, 5: 6}, 'gq': {3: 7, 4: 6, 5: 5},
           'S': {3: 6, 4: 5}, 'GS': {2: 4, 3: 3}, 'gs': {3: 5, 4: 4}}
# what else expands in a basis: (basis, constructor, strict shapes, skew allowed)
CROSS = {
    's': [('P', True), ('Q', True), ('s', True), ('S', True)], 'omega': [('P', True), ('s', True)], 'P': [('Q', True), ('P', True)], 'Q': [('Q', True)],
    'G': [('GP', False), ('GQ', False), ('G', False), ('s', False)], 'nG': [('nGP', False), ('nGQ', False)], 'g': [('gp', False), ('gq', False), ('g', True), ('s', False)],
    'ng': [('ngp', False), ('ngq', False)], 'GP': [('GQ', False)], 'nGP': [('nGQ', False)], 'gp': [('gq', False), ('gp', True)], 'gq': [('gq', True)], 'GQ': [],
    'free': [('gp', False)],
}


def size(basis, n):
    return SIZE[basis.lstrip('n') if basis not in ('omega', 'free') else 's' if basis == 'omega' else 'gp'].get(n, 0)


def index(basis, n, hi):
    if basis in ROWS:
        return [()] + [(k,) for k in range(1, hi + 1)]
    gen = shapes.strict_upto(hi) if basis in STRICT or basis == 'free' else shapes.upto(hi)
    return [tuple(mu) for mu in gen if len(mu) <= n]


def vec(v):
    if not isinstance(v, Vector):
        raise enc.BadValue('expected a vector')
    return [[enc.part(k), enc.poly(v.dictionary[k])] for k in v.dictionary]


def quietly(fn):
    """The expansions ask for a key press before they fail."""
    def run():
        def noinput(*a):
            raise EOFError('asked for input')
        saved = builtins.input
        builtins.input = noinput
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return fn()
        finally:
            builtins.input = saved
    return run


def sessions(tier, rng):
    k = 2 if tier == 'quick' else 12
    out = []
    for b in B:
        for n in (1, 2, 3) + ((4,) if size(b, 4) else ()):
            out += [('basis', b, n, i) for i in range((2 if n > 1 else 1) * k)]
            out += [('combo', b, n, i) for i in range((2 if n > 1 else 1) * k)]
            out += [('product', b, n, i) for i in range((2 if n > 1 else 1) * k)]
            if b in CROSS:
                out += [('cross', b, n, i) for i in range(2 * k)]
        for n in BIGSIZE.get(b.lstrip('n') if b != 'omega' else 's', ()):
            out += [('bigcombo', b, n, i) for i in range(2 * k)]
            if n < 5 and b not in ROWS:
                out += [('bigproduct', b, n, i) for i in range(k)]
            if n < 5 and CROSS.get(b) and b != 'free':
                out += [('bigcross', b, n, i) for i in range(k)]
    return out


def cost(s):
    return {1: 1, 2: 2, 3: 4, 4: 5, 5: 6}[s[2]] * (3 if s[1].lstrip('n')[:1] == 'G' else 1)


def run_session(sess, rec):
    rng = rec.rng
    what, b, n, i = sess
    E = sym(n)

    def fn(basis):
        f = getattr(SP, B[basis][0])
        return lambda mu, nu=(): f(n, mu, nu)

    def expand(f, terms=(), exact=False, basis=b):
        if f is None:
            return
        js = E(f)
        name = rng.choice(B[basis][1])
        rec.event('expand', {'basis': basis, 'n': n, 'f': js, 'terms': terms, 'exact': exact}, quietly(lambda: U(name)(f)), vec)
        if rng.random() < .3:
            rec.event('operands', {'f': js}, lambda: f, E)

    hi = size(b, n)
    big = what.startswith('big')
    if big:
        hi = BIGSIZE[b.lstrip('n') if b != 'omega' else 's'][n]
    if what in ('basis', 'combo', 'bigcombo'):
        if b in ('omega', 'free'):
            src = 's' if b == 'omega' else 'gp'
            idx = [mu for mu in index(src, n, hi)]
        else:
            src, idx = b, index(b, n, hi)
        F = fn(src)

        def terms_of(v):
            if b == 'omega':
                return [[list(shapes_transpose(mu)), enc.poly(c)] for mu, c in v.items()]
            return [[list(mu), enc.poly(c)] for mu, c in v.items()]

        for _ in range({'basis': 5, 'combo': 6, 'bigcombo': 2}[what]):
            if what == 'basis':
                v = {rng.choice(idx): 1}
            else:
                v = {}
                for mu in rng.sample(idx, min(len(idx), rng.randrange(1, 5))):
                    c = rng.choice([-3, -2, -1, 1, 1, 2, 5])
                    if rng.random() < .5:
                        c = rng.choice([Polynomial.x(0) * c, Polynomial.x(0) ** 2 - c, Polynomial.x(0) + 1, Polynomial.x(0) ** -1 * c,
                                        Polynomial.one() * c, Polynomial.x(0) ** 2 * 2 + Polynomial.x(0) * -1 + 3])
                    v[mu] = c
            plain = [[list(mu), enc.poly(c)] for mu, c in v.items()]

            def build():
                f = SP()
                for mu, c in v.items():
                    f = f + F(mu) * c
                return f
            f = rec.event('combo', {'basis': src, 'n': n, 'terms': plain}, build, E)
            expand(f, terms_of(v), b != 'free')
        if what == 'combo':
            expand(SP(), [], True)
    elif what in ('product', 'bigproduct'):
        src = {'omega': 's', 'free': 'gp'}.get(b, b)
        if src in ROWS:
            return
        F = fn(src)
        for _ in range(1 if big else 4):
            k = rng.randrange(1, hi)
            mu = rng.choice(index(src, n, k))
            nu = rng.choice([p for p in index(src, n, hi - sum(mu))] or [()])
            if b == 'free' and sum(mu) + sum(nu) > 3:
                continue
            if not big and src in ('GP', 'GQ', 'nGP', 'nGQ', 'G', 'nG') and n == 3 and sum(mu) + sum(nu) >= 4:
                nu = ()
            f = None
            try:
                f = F(mu) * F(nu) * rng.choice([1, 1, 2, Polynomial.x(0), -1])
            except Exception:
                pass
            expand(f)
    else:
        for _ in range(1 if big else 3):
            if not CROSS[b]:
                return
            src, skew = rng.choice(CROSS[b])
            h = min(BIGSIZE.get(src.lstrip('n'), {}).get(n, 0) if big else size(src, n), hi)
            if not h:
                continue
            mu = rng.choice(index(src, n, max(1, h - (1 if n == 3 else 0)) if not skew else h))
            nu = ()
            if skew and rng.random() < .7:
                nu = tuple(rng.choice([k for k in (shapes.sub_strict(mu) if src in STRICT else shapes.sub(mu))]))
            if b == 'free' and sum(mu) > 4:
                continue
            f = None
            try:
                f = fn(src)(mu, nu)
            except Exception:
                pass
            expand(f)


def shapes_transpose(mu):
    return [sum(1 for a in mu if a > j) for j in range(mu[0])] if mu else []
