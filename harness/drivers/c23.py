"""Histories: the same queries in fresh processes, repeated, shuffled and interleaved with unfinished enumerations."""
import hashlib
import json
import os
import builtins
import contextlib
import io
import itertools
import check
import shapes
import boxes
import dualops
import operators
import utils
from crystals import TableauCrystalGenerator, ShiftedCrystalGenerator, OrthogonalSetvaluedShiftedCrystalGenerator, WordCrystalGenerator
from insertion import InsertionAlgorithm as I, InsertionState
from partitions import Partition
from permutations import Permutation
from polynomials import Polynomial, HashableDict, X, Y
from symmetric import SymmetricPolynomial as SP, SymmetricMonomial
from tableaux import Tableau as T
from vectors import Vector
from vst import ValuedSetTableau as V
from words import Word

TRACE_SPEC = 'C23Trace'
MODELS = [('HistoryModel', 'HistoryModel.cfg', ('quick', 'thorough')), ('HistoryModel', 'HistoryModelDeep.cfg', ('thorough',))]
FORK = True
ASSUMPTIONS = ['Reference answers come from a forked process in which no other query was made; callers do not mutate returned containers.',
               'Answers are compared up to the order of unordered listings.']


# ---- answers as canonical strings ----
def canon(x):
    t = type(x)
    if x is None or t is bool or t is str:
        return repr(x)
    if t is int:
        return str(x)
    if t is tuple:
        return '(' + ','.join(canon(i) for i in x) + ')'
    if isinstance(x, Polynomial):
        ts = sorted('%s*%s' % (c, sorted(m.items())) for m, c in x.coeffs.items())
        if len(x.coeffs) == 0:
            return '0'
        if len(x.coeffs) == 1 and not list(x.coeffs)[0]:
            return str(list(x.coeffs.values())[0])
        return 'poly[' + ' '.join(ts) + ']'
    if isinstance(x, Permutation):
        return 'perm' + str(tuple(x.oneline))
    if isinstance(x, SymmetricMonomial):
        return 'm%s%s' % (x.n, canon(x.mu))
    if isinstance(x, boxes.BoxOperator):
        return 'box' + canon(x.vector)
    if isinstance(x, Vector):
        return 'vec{' + ' '.join(sorted(canon(k) + ':' + canon(c) for k, c in x.dictionary.items())) + '}'
    if isinstance(x, T):
        return 'tab{' + ' '.join('%s:%s' % (b, canon(x.boxes[b])) for b in sorted(x.boxes)) + '}'
    if isinstance(x, V):
        return 'vst(%s,%s)' % (canon(x.tableau), canon(x.grouping))
    if isinstance(x, InsertionState):
        return 'state(%s,%s)' % (canon(x.tableau), canon(x.outer))
    if isinstance(x, dict):
        return '{' + ' '.join(sorted(canon(k) + ':' + canon(v) for k, v in x.items())) + '}'
    if isinstance(x, (set, frozenset)):
        return 'set{' + ' '.join(sorted(canon(i) for i in x)) + '}'
    if t is list:
        if all(type(i) is int for i in x):
            return str(x)
        return '[' + ' '.join(sorted(canon(i) for i in x)) + ']'
    if hasattr(x, '__iter__'):
        return canon(list(x))
    raise check.BadValue('cannot read a value of type %s' % t.__name__)


def short(s):
    s = s.encode('ascii', 'backslashreplace').decode()
    return s if len(s) <= 60 else s[:20] + '#' + hashlib.sha256(s.encode()).hexdigest()[:24]


class Timeout(BaseException):
    pass


TIMED = object()


def _ring(a, b):
    raise Timeout()


def noinput(*a):
    raise EOFError('asked for input')


def evaluate(fn, limit):
    """The value, TIMED if it takes too long; exceptions are answers too."""
    check.arm(limit, _ring)
    saved = builtins.input
    builtins.input = noinput
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = fn()
            return list(r) if hasattr(r, '__next__') else r
    except Timeout:
        return TIMED
    except check.BadValue:
        raise
    except Exception as ex:
        return Raised(type(ex).__name__)
    finally:
        check.disarm()
        builtins.input = saved


class Raised:
    def __init__(self, name):
        self.name = name


def answer(raw):
    return 'raised ' + raw.name if isinstance(raw, Raised) else short(canon(raw))


# ---- objects handed to queries ----
MAKE = {
    'perm': lambda a: Permutation(*a),
    'tab': lambda a: T({(i, j): tuple(v) for i, j, v in a}),
    'vst': lambda a: V(T({(i, j): v for i, j, v, _ in a}), T({(i, j): g for i, j, _, g in a})),
    'vec': lambda a: Vector({tuple(k): c for k, c in a}),
    'poly': lambda a: Polynomial({HashableDict({i: e for i, e in m}): c for m, c in a}),
    'sym': lambda a: SP({SymmetricMonomial(a[0], tuple(k)): c for k, c in a[1]}),
    'dict': lambda a: {tuple(k): v for k, v in a},
    'list': lambda a: list(a),
    'box': lambda a: boxes.BoxOperator(*a),
}


class Env:
    def __init__(self, share):
        self.share, self.pool = share, {}

    def get(self, kind, js):
        key = (kind, json.dumps(js))
        if self.share and key in self.pool:
            return self.pool[key]
        x = MAKE[kind](js)
        self.pool[key] = x
        return x


# ---- catalogue: group -> list of (name, argument kinds, function) ----
CAT = {}


def q(group, name, args, fn):
    CAT.setdefault(group, []).append((name, args.split(), fn))


# functions of shapes
for f in ('schur', 'stable_grothendieck', 'dual_stable_grothendieck', 'mn_stable_grothendieck', 'mp_dual_stable_grothendieck',
          'slow_transposed_dual_stable_grothendieck', '_slow_schur', '_slow_stable_grothendieck', '_slow_dual_stable_grothendieck', 'schur_s', '_slow_schur_s'):
    q('sym', f, 'n mu nu', (lambda f: lambda e, n, mu, nu: getattr(SP, f)(n, mu, nu))(f))
for f in ('schur_q', 'schur_p', 'stable_grothendieck_p', 'stable_grothendieck_q', 'dual_stable_grothendieck_p', 'dual_stable_grothendieck_q', 'mn_stable_grothendieck_p',
          'mn_stable_grothendieck_q', 'mp_dual_stable_grothendieck_p', 'mp_dual_stable_grothendieck_q', 'slow_transposed_dual_stable_grothendieck_p',
          'slow_transposed_dual_stable_grothendieck_q', '_slow_schur_p', '_slow_schur_q', '_slow_stable_grothendieck_p', '_slow_stable_grothendieck_q',
          '_slow_dual_stable_grothendieck_p', '_slow_dual_stable_grothendieck_q'):
    q('shsym', f, 'n smu snu', (lambda f: lambda e, n, mu, nu: getattr(SP, f)(n, mu, nu))(f))
for f in ('stable_grothendieck', 'stable_grothendieck_doublebar'):
    q('sym', f + '_bd', 'n mu nu bd', (lambda f: lambda e, n, mu, nu, d: getattr(SP, f)(n, mu, nu, d))(f))
for f in ('stable_grothendieck_p', 'stable_grothendieck_q', 'stable_grothendieck_p_doublebar', 'stable_grothendieck_q_doublebar'):
    q('shsym', f + '_bd', 'n smu snu bd', (lambda f: lambda e, n, mu, nu, d: getattr(SP, f)(n, mu, nu, degree_bound=d))(f))
q('sym', 'gs_s', 'm2 row nil', lambda e, n, mu, nu: SP.stable_grothendieck_s(n, mu))
q('sym', 'dual_s', 'm2 row nil', lambda e, n, mu, nu: SP.dual_stable_grothendieck_s(n, mu))
q('sym', 'gs_full', 'n mu nu', lambda e, n, mu, nu: SP.stable_grothendieck_s(n, mu, nu))
q('sym', 'gs_full_bd', 'n mu nu bd', lambda e, n, mu, nu, d: SP.stable_grothendieck_s(n, mu, nu, d))
q('sym', 'gs_doublebar', 'n mu nu bd', lambda e, n, mu, nu, d: SP.stable_grothendieck_s_doublebar(n, mu, nu, d))
q('sym', 'dual_s_full', 'n mu nu', lambda e, n, mu, nu: SP.dual_stable_grothendieck_s(n, mu, nu))
q('sym', 'transposed_s', 'n mu nu', lambda e, n, mu, nu: SP.slow_transposed_dual_stable_grothendieck_s(n, mu, nu))
q('sym', 'transposed_beta', 'n mu nu i', lambda e, n, mu, nu, b: SP.slow_transposed_dual_stable_grothendieck(n, mu, nu, utils.beta * (-1)**b))
q('shsym', 'transposed_p_beta', 'n smu snu i', lambda e, n, mu, nu, b: SP.slow_transposed_dual_stable_grothendieck_p(n, mu, nu, utils.beta * (-1)**b))
q('shsym', 'transposed_q_beta', 'n smu snu i', lambda e, n, mu, nu, b: SP.slow_transposed_dual_stable_grothendieck_q(n, mu, nu, utils.beta * (-1)**b))

FAM = {'s': ('s', 'schur_expansion'), 'G': ('G', 'G_expansion'), 'g': ('g', 'g_expansion'), 'j': ('j', 'j_expansion'), 'nG': ('mn_G', 'mn_G_expansion'), 'ng': ('mp_g', 'mp_g_expansion')}
SFAM = {'P': ('P', 'P_expansion'), 'Q': ('Q', 'Q_expansion'), 'GP': ('GP', 'GP_expansion'), 'GQ': ('GQ', 'GQ_expansion'), 'gp': ('gp', 'gp_expansion'), 'gq': ('gq', 'gq_expansion'),
        'jp': ('jp', 'jp_expansion'), 'jq': ('jq', 'jq_expansion')}
for k, (f, x) in FAM.items():
    q('exp', 'exp_' + k, 'n2 mu0', (lambda f, x: lambda e, n, mu: getattr(utils, x)(getattr(utils, f)(n, mu)))(f, x))
    q('exp', 'prod_' + k, 'n2 mu0 mu0', (lambda f: lambda e, n, a, b: getattr(utils, f)(n, a) * getattr(utils, f)(n, b))(f))
    q('exp', 'prodexp_' + k, 'n2 tiny tiny', (lambda f, x: lambda e, n, a, b: getattr(utils, x)(getattr(utils, f)(n, a) * getattr(utils, f)(n, b)))(f, x))
for k, (f, x) in SFAM.items():
    q('exp', 'exp_' + k, 'n2 smu0', (lambda f, x: lambda e, n, mu: getattr(utils, x)(getattr(utils, f)(n, mu)))(f, x))
    q('exp', 'prodexp_' + k, 'n2 stiny stiny', (lambda f, x: lambda e, n, a, b: getattr(utils, x)(getattr(utils, f)(n, a) * getattr(utils, f)(n, b)))(f, x))
q('exp', 'exp_cross_gp_gq', 'n2 smu0', lambda e, n, mu: utils.gp_expansion(utils.gq(n, mu)))
q('exp', 'exp_cross_GP_GQ', 'n2 smu0', lambda e, n, mu: utils.GP_expansion(utils.GQ(n, mu)))
q('exp', 'exp_cross_P_Q', 'n2 smu0', lambda e, n, mu: utils.P_expansion(utils.Q(n, mu)))
q('exp', 'omega', 'n2 mu0', lambda e, n, mu: SP.omega_schur_expansion(utils.s(n, mu)))
q('exp', 'gp_free', 'n2 smu0', lambda e, n, mu: SP.gp_free_expansion(utils.gp(n, mu)))
q('exp', 'monomials', 'n tiny n tiny', lambda e, n, a, m, b: SymmetricMonomial(n, a) * SymmetricMonomial(n, b))
q('exp', 'monomial_power', 'n tiny n', lambda e, n, a, k: SymmetricMonomial(n, a) ** k)
q('exp', 'monomial_sum', 'n tiny n tiny', lambda e, n, a, m, b: SymmetricMonomial(n, a) + SymmetricMonomial(m, b) - SymmetricMonomial(n, b))

# shared symmetric functions, vectors and polynomials as operands
for op, fn in (('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('mul', lambda a, b: a * b), ('eq', lambda a, b: a == b)):
    q('alg', 'sym_' + op, 'symf symf', (lambda fn: lambda e, a, b: fn(e.get('sym', a), e.get('sym', b)))(fn))
    q('alg', 'poly_' + op, 'poly poly', (lambda fn: lambda e, a, b: fn(e.get('poly', a), e.get('poly', b)))(fn))
    if op not in ('mul', 'eq'):
        q('alg', 'vec_' + op, 'vec vec', (lambda fn: lambda e, a, b: fn(e.get('vec', a), e.get('vec', b)))(fn))
    if op != 'eq':
        q('alg', 'box_' + op, 'box box', (lambda fn: lambda e, a, b: fn(e.get('box', a), e.get('box', b)))(fn))
q('alg', 'vec_scale', 'vec coef', lambda e, a, c: e.get('vec', a) * c + e.get('vec', a))
q('alg', 'vec_neg', 'vec', lambda e, a: -e.get('vec', a))
q('alg', 'vec_hash', 'vec vec', lambda e, a, b: (hash(e.get('vec', a)) == hash(e.get('vec', b)), e.get('vec', a) == e.get('vec', b)))
q('alg', 'vec_expressible', 'vec vec vec', lambda e, a, b, c: e.get('vec', a).is_expressable(e.get('vec', b), e.get('vec', c)))
q('alg', 'vec_str', 'vec', lambda e, a: str(e.get('vec', a)))
q('alg', 'poly_pow', 'poly n', lambda e, a, k: e.get('poly', a) ** k)
q('alg', 'poly_subst', 'poly n coef', lambda e, a, i, c: e.get('poly', a).substitute(i, c))
q('alg', 'poly_subst2', 'poly n poly', lambda e, a, i, c: e.get('poly', a).substitute(i, e.get('poly', c)))
q('alg', 'poly_trunc', 'poly n', lambda e, a, i: e.get('poly', a).truncate(i))
q('alg', 'poly_coeff', 'poly n n', lambda e, a, i, k: e.get('poly', a).coefficient(i, k))
q('alg', 'poly_div', 'poly n coef', lambda e, a, i, c: (e.get('poly', a) * (X(i) + c)).divide_linear(i, c))
q('alg', 'poly_neg', 'poly', lambda e, a: -e.get('poly', a))
q('alg', 'poly_hash', 'poly', lambda e, a: (hash(e.get('poly', a)) == hash(e.get('poly', a) + 0), str(e.get('poly', a))))
q('alg', 'sym_poly', 'symf', lambda e, a: e.get('sym', a).polynomial())
q('alg', 'sym_trunc', 'symf n', lambda e, a, n: e.get('sym', a).truncate(n))
q('alg', 'sym_low', 'symf', lambda e, a: (e.get('sym', a).lowest_degree_terms(), e.get('sym', a).highest_degree_terms()))
q('alg', 'sym_exp', 'symf', lambda e, a: SP.schur_expansion(e.get('sym', a)))
q('alg', 'sym_gexp', 'symf', lambda e, a: SP.dual_grothendieck_expansion(e.get('sym', a)))
q('alg', 'sym_negbeta', 'symf', lambda e, a: SP.negate_beta(e.get('sym', a) * utils.beta))
q('alg', 'rref', 'matrix', lambda e, m: tuple(map(tuple, Vector.rref([list(r) for r in m]))))
q('alg', 'box_filter', 'box n', lambda e, a, n: e.get('box', a).filter(n))
q('alg', 'commutator', 'b01', lambda e, n: boxes.BoxOperator.commutator(n))
for nm, f in (('add', operators.operator_shifted_add), ('row', operators.operator_shifted_row_remove), ('col', operators.operator_shifted_column_remove),
              ('AL', operators.operator_AL), ('AR', operators.operator_AR), ('R', operators.operator_R), ('C', operators.operator_C)):
    q('alg', 'op_' + nm, 'n vec', (lambda f: lambda e, n, v: f(n)(e.get('vec', v)))(f))
    q('alg', 'opmu_' + nm, 'n smu0', (lambda f: lambda e, n, mu: f(n)(mu))(f))
q('alg', 'strip_h', 'n n smu0', lambda e, a, b, mu: dualops.sh_horizontal_strip(min(a, b), b)(mu))
q('alg', 'strip_v', 'n n smu0', lambda e, a, b, mu: dualops.sh_vertical_strip(min(a, b), b)(mu))

# tableaux lists and counts
for f in ('semistandard', 'semistandard_setvalued', 'semistandard_marked', 'semistandard_marked_setvalued', 'semistandard_rpp'):
    q('tab', f, 'n mu nu', (lambda f: lambda e, n, mu, nu: getattr(T, f)(n, mu, nu))(f))
for f in ('count_semistandard', 'count_semistandard_setvalued', 'count_semistandard_marked', 'count_semistandard_marked_setvalued', 'count_semistandard_rpp'):
    q('tab', f, 'n mu nu', (lambda f: lambda e, n, mu, nu: getattr(T, f)(n, mu, nu))(f))
for f in ('semistandard_shifted', 'semistandard_shifted_marked', 'semistandard_shifted_setvalued', 'semistandard_shifted_marked_setvalued', 'semistandard_marked_rpp', 'semistandard_shifted_rpp',
          'count_semistandard_shifted_marked', 'count_semistandard_shifted_marked_setvalued', 'count_semistandard_marked_rpp'):
    q('shtab', f, 'n smu snu bool', (lambda f: lambda e, n, mu, nu, b: getattr(T, f)(n, mu, nu, b))(f))
    q('shtab', f, 'n smu snu', (lambda f: lambda e, n, mu, nu: getattr(T, f)(n, mu, nu))(f))
q('tab', 'standard', 'mu nu', lambda e, mu, nu: T.standard(mu, nu))
q('shtab', 'standard_shifted', 'smu snu bool', lambda e, mu, nu, b: T.standard_shifted_marked(mu, nu, b))
for f in ('_horizontal_strips', '_vertical_strips', '_rpp_horizontal_strips', '_rpp_vertical_strips'):
    q('tab', f, 'mu nu', (lambda f: lambda e, mu, nu: getattr(T, f)(mu, nu))(f))
for f in ('_shifted_horizontal_strips', '_shifted_vertical_strips'):
    q('shtab', f, 'smu snu', (lambda f: lambda e, mu, nu: getattr(T, f)(mu, nu))(f))
for f in ('_shifted_rpp_horizontal_strips', '_shifted_rpp_vertical_strips'):
    q('shtab', f, 'smu', (lambda f: lambda e, mu: getattr(T, f)(mu))(f))
for f in ('KOG', 'KLG', 'KOG_by_shape', 'KLG_by_shape', 'KOG_counts_by_shape', 'KLG_counts_by_shape'):
    q('kog', f, 'n smu0', (lambda f: lambda e, n, mu: getattr(T, f)(n, mu))(f))
for f in ('KOG_counts', 'KLG_counts'):
    q('kog', f, 'ribbon n', (lambda f: lambda e, r, p: getattr(T, f)(r[0], r[1], p))(f))
q('kog', 'copieri', 'ribbon bool', lambda e, r, b: T.shifted_setvalued_copieri(r[0], r[1], b))

# tableaux as shared values
for f in ('transpose', 'standardize', 'double', 'negate', 'row_reading_word', 'column_reading_word', 'shifted_reading_word', 'crystal_reading_word', 'shape', 'size', 'values',
          'is_semistandard', 'is_standard', 'weight', 'descent_set', 'setvalued_excess', 'max_row', 'max_column', 'counter', 'abs_sum', 'pop', 'last', 'tex', 'serialize'):
    q('tabval', 'tab_' + f, 'tab', (lambda f: lambda e, t: getattr(e.get('tab', t), f)() if callable(getattr(T, f)) else getattr(e.get('tab', t), f))(f))
for f in ('e_crystal_operator', 'f_crystal_operator'):
    q('tabval', 'tab_' + f, 'tab n bool', (lambda f: lambda e, t, i, b: getattr(e.get('tab', t), f)(i, b))(f))
for f in ('add', 'set', 'replace', 'remove'):
    q('tabval', 'tab_' + f, 'tab n n n', (lambda f: lambda e, t, i, j, v: getattr(e.get('tab', t), f)(i, j, v))(f))
q('tabval', 'tab_halve', 'tab', lambda e, t: e.get('tab', t).double().halve())
q('tabval', 'tab_get', 'tab n n', lambda e, t, i, j: e.get('tab', t).get(i, j))
q('tabval', 'tab_clear', 'tab n n', lambda e, t, i, j: e.get('tab', t).clear(i, j))
q('tabval', 'tab_find', 'tab n', lambda e, t, v: e.get('tab', t).find(v))
q('tabval', 'tab_rows', 'tab n', lambda e, t, v: (e.get('tab', t).get_row(v), e.get('tab', t).get_column(v)))
q('tabval', 'tab_eq', 'tab tab', lambda e, t, u: (e.get('tab', t) == e.get('tab', u), e.get('tab', t) < e.get('tab', u), hash(e.get('tab', t)) == hash(e.get('tab', u))))
q('tabval', 'tab_str', 'tab', lambda e, t: str(e.get('tab', t)))

# insertion
for f, w in (('hecke', 'hw'), ('orthogonal_hecke', 'hw'), ('symplectic_hecke', 'sw')):
    q('ins', f, w, (lambda f: lambda e, w: getattr(I, f)(w))(f))
    q('ins', f + '_rec', w + ' bool', (lambda f: lambda e, w, b: getattr(I, f)(w, tuple(range(1, len(w) + 1)), b))(f))
    q('ins', f + '_weak', w + ' bool', (lambda f: lambda e, w, b: getattr(I, f)(w, weak(w, b), b))(f))
    q('ins', f + '_round', w, (lambda f: lambda e, w: getattr(I, 'inverse_' + f)(*getattr(I, f)(w)))(f))
    q('ins', f + '_round_weak', w + ' bool', (lambda f: lambda e, w, b: getattr(I, 'inverse_' + f)(*getattr(I, f)(w, weak(w, b), b), b))(f))

# valued-set tableaux
q('vst', 'vst_all', 'n vmu vnu bool', lambda e, n, mu, nu, b: V.all(n, mu, nu, b))
q('vst', 'vst_inter', 'vmu vnu', lambda e, mu, nu: V.all_interstandard(mu, nu))
q('vst', 'vst_transition', 'vst n', lambda e, t, i: e.get('vst', t).transition(i))
q('vst', 'vst_weight', 'vst n', lambda e, t, i: e.get('vst', t).weight(i + 2))
for f in ('forward_transition', 'middle_transition', 'backward_transition'):
    q('vst', 'vst_' + f, 'vst n', (lambda f: lambda e, t, i: getattr(e.get('vst', t), f)(i))(f))
q('vst', 'vst_chain', 'vst n', lambda e, t, i: e.get('vst', t).forward_transition(1).middle_transition(1)[0].backward_transition(1))
q('vst', 'vst_twice', 'vst n', lambda e, t, i: e.get('vst', t).transition(i).transition(i))
q('vst', 'vst_semi', 'vst', lambda e, t: (e.get('vst', t).is_semistandard(), e.get('vst', t).is_interstandard(), e.get('vst', t).unprime(), e.get('vst', t).unprime_diagonal()))
q('vst', 'vst_str', 'vst', lambda e, t: str(e.get('vst', t)))

# permutations
for f in ('inverse', 'get_reduced_word', 'get_reduced_words', 'code', 'shape', 'right_descent_set', 'left_descent_set', 'length', 'rothe_diagram', 'bruhat_covers', 'is_grassmannian', 'star',
          'oneline', 'cycles', 'is_involution', 'reduced_word', 'reduced_words', 'is_identity', 'last_descent', 'rank', 'pair', 'neg', 'fix', 'cyc'):
    q('perm', 'p_' + f, 'perm', (lambda f: lambda e, w: attr(e.get('perm', w), f))(f))
for f in ('get_hecke_words',):
    q('perm', 'p_' + f, 'perm lb ab', (lambda f: lambda e, w, l, a: list(getattr(e.get('perm', w), f)(l, a)))(f))
for f in ('upper_transitions', 'lower_transitions'):
    q('perm', 'p_' + f, 'perm n', (lambda f: lambda e, w, r: list(getattr(e.get('perm', w), f)(r)))(f))
q('perm', 'p_mul', 'perm perm', lambda e, v, w: (e.get('perm', v) * e.get('perm', w), e.get('perm', v) % e.get('perm', w), e.get('perm', v) == e.get('perm', w), e.get('perm', v) < e.get('perm', w)))
q('perm', 'p_pow', 'perm n', lambda e, w, k: e.get('perm', w) ** k)
q('perm', 'p_str', 'perm', lambda e, w: (str(e.get('perm', w)), e.get('perm', w).cycle_repr(), hash(e.get('perm', w)) == hash(Permutation(*w))))
q('perm', 'p_groth', 'perm m2 db', lambda e, w, n, d: e.get('perm', w).stable_grothendieck(n, degree_bound=d))
for f in ('get_involution_word', 'get_involution_words', 'involution_code', 'involution_shape', 'get_atoms', 'get_min_atom', 'involution_length', 'involution_bruhat_covers', 'is_inv_grassmannian',
          'involution_rothe_diagram', 'involution_word', 'involution_words', 'get_reduced_words', 'get_atoms_d'):
    q('inv', 'i_' + f, 'inv', (lambda f: lambda e, w: attr(e.get('perm', w), f))(f))
q('inv', 'i_hecke', 'inv lb ab', lambda e, w, l, a: list(e.get('perm', w).get_involution_hecke_words(l, a)))
q('inv', 'i_groth', 'inv m2 db', lambda e, w, n, d: e.get('perm', w).involution_stable_grothendieck(n, degree_bound=d))
q('inv', 'i_sgroth', 'inv m2 db', lambda e, w, n, d: e.get('perm', w).signed_involution_stable_grothendieck(n, degree_bound=d))
q('inv', 'i_tau', 'inv n n', lambda e, w, i, j: e.get('perm', w).tau(i, i + j))
for f in ('upper_involution_transitions', 'lower_involution_transitions'):
    q('inv', 'i_' + f, 'inv n', (lambda f: lambda e, w, r: list(getattr(e.get('perm', w), f)(r)))(f))
for f in ('get_fpf_involution_word', 'get_fpf_involution_words', 'fpf_involution_code', 'fpf_involution_shape', 'get_fpf_atoms', 'fpf_involution_length', 'fpf_involution_bruhat_covers',
          'fpf_rothe_diagram', 'fpf_involution_word', 'fpf_involution_words', 'is_fpf_involution'):
    q('fpf', 'f_' + f, 'fpf', (lambda f: lambda e, w: attr(e.get('perm', w), f))(f))
q('fpf', 'f_hecke', 'fpf lb ab', lambda e, w, l, a: list(e.get('perm', w).get_symplectic_hecke_words(l, a)))
q('fpf', 'f_groth', 'fpf m2 db', lambda e, w, n, d: e.get('perm', w).symplectic_stable_grothendieck(n, degree_bound=d))
for f in ('upper_fpf_involution_transitions', 'lower_fpf_involution_transitions'):
    q('fpf', 'f_' + f, 'fpf n', (lambda f: lambda e, w, r: list(getattr(e.get('perm', w), f)(r)))(f))
for f, w in (('from_word', 'word'), ('from_involution_word', 'word'), ('from_fpf_involution_word', 'word')):
    q('perm', f, w, (lambda f: lambda e, w: getattr(Permutation, f)(w) if f == 'from_word' else getattr(Permutation, f)(w, False))(f))
for f in ('grassmannians', 'inv_grassmannians', 'all', 'involutions'):
    q('perm', 'gen_' + f, 'n', (lambda f: lambda e, n: list(getattr(Permutation, f)(n)))(f))
q('perm', 'gen_signed', 'n2 bool', lambda e, n, b: (list(Permutation.all(n, b)), list(Permutation.involutions(n, b))))
q('fpf', 'gen_fpf', 'n', lambda e, n: (list(Permutation.fpf_involutions(2 * n)), list(Permutation.fpf_grassmannians(2 * n)), Permutation.minfpf(2 * n)))
q('perm', 'longest', 'n bool', lambda e, n, b: Permutation.longest_element(n, b))
for f in ('get_grassmannian', 'get_inv_grassmannian', 'get_fpf_grassmannian'):
    q('perm', f, 'smu0', (lambda f: lambda e, mu: getattr(Permutation, f)(*mu))(f))
q('inv', 'ilevels', 'n lb ab bool', lambda e, n, l, a, b: [sorted(w for _, w in lv) and tuple(sorted(w for _, w in lv)) for lv in Permutation.involution_hecke_levels(n, lim(l), a, b)])
q('fpf', 'slevels', 'n12 lb ab bool', lambda e, n, l, a, b: [tuple(sorted(w for _, w in lv)) for lv in Permutation.symplectic_hecke_levels(2 * n, lim(l), a, b)])
q('perm', 'hlevels', 'n lb ab', lambda e, n, l, a: [tuple(sorted(w for _, w in lv)) for lv in Permutation.hecke_levels(n, lim(l), a)])

# partitions
for f in ('shape', 'transpose', 'remove_inner_corners', 'successors', 'is_partition', 'is_strict', 'print_diagram'):
    q('part', f, 'mu0', (lambda f: lambda e, mu: getattr(Partition, f)(mu))(f))
for f in ('shifted_shape', 'remove_shifted_inner_corners', 'shifted_ribbon_complements', 'decompose_shifted_shape_by_rims', 'decompose_shifted_shape_by_vertical_strips', 'decrement_strict', 'decrement_one'):
    q('part', f, 'smu0', (lambda f: lambda e, mu: getattr(Partition, f)(mu))(f))
q('part', 'rims', 'smu0 n03', lambda e, mu, b: Partition.rims(mu, b))
for f in ('skew', 'contains', 'union'):
    q('part', 'part_' + f, 'mu nu', (lambda f: lambda e, mu, nu: getattr(Partition, f)(mu, nu))(f))
q('part', 'skew_key', 'smu snu bool', lambda e, mu, nu, b: Partition.skew_key(mu, nu, b))
q('part', 'from_skew', 'smu snu bool', lambda e, mu, nu, b: Partition.from_skew(Partition.skew(mu, nu, b), b))
q('part', 'subpartitions', 'mu nu bool', lambda e, mu, nu, b: Partition.subpartitions(mu, nu, b))
q('part', 'all_parts', 'n n bool bool', lambda e, n, m, a, b: (list(Partition.all(n + m, max_part=m, strict=a, even_parts=b)), list(Partition.generate(n + m, None, m, a, b))))
q('part', 'compositions', 'n', lambda e, n: (Partition.compositions(n + 1), Partition.peak_compositions(n + 1)))
q('part', 'ribbons', 'n', lambda e, n: Partition.shifted_ribbons(n + 1))
q('part', 'printables', 'mu nu', lambda e, mu, nu: (Partition.printable(mu, nu), Partition.printables(mu, nu), Partition.shifted_printables(mu)))
q('part', 'growth', 'array', lambda e, a: Partition.growth_diagram(e.get('dict', a)))
q('part', 'sgrowth', 'rwd', lambda e, w: Partition.shifted_growth_diagram(e.get('list', w)))
q('part', 'sgrowth_read', 'rwd', lambda e, w: T.from_shifted_growth_diagram(*Partition.shifted_growth_diagram(e.get('list', w))[:3]))
q('part', 'sort_list', 'rwd bool', lambda e, w, b: Partition.sort(e.get('list', w), b))

# words and crystals
for f in ('descent_set', 'ascents', 'peaks', 'increasing_zeta', 'decreasing_zeta', 'weakly_increasing_zeta', 'unimodal_zeta', 'weakly_unimodal_zeta', 'wiring_diagram'):
    q('word', f, 'word', (lambda f: lambda e, w: getattr(Word, f)(w))(f))
q('word', 'wiring_labels', 'word', lambda e, w: Word.wiring_diagram(w, e.get('list', [''] + ['a%d' % i for i in w])))
q('word', 'quasi', 'word', lambda e, w: (Word.quasisymmetrize(w, Word.decreasing_zeta), Word.quasisymmetrize(w, Word.unimodal_zeta)))
for f in ('e_crystal_operator', 'f_crystal_operator'):
    q('word', f, 'n word word', (lambda f: lambda e, i, v, w: getattr(Word, f)(i, v, w))(f))
q('crystal', 'tabcrystal', 'm2 tiny', lambda e, n, mu: crystal(TableauCrystalGenerator(mu, n)))
q('crystal', 'wordcrystal', 'p3 m2 len bool', lambda e, w, n, l, b: crystal(WordCrystalGenerator(w, n, l, b)))
for c in (ShiftedCrystalGenerator, OrthogonalSetvaluedShiftedCrystalGenerator):
    q('crystal', c.__name__, 'stiny2 m2 b01', (lambda c: lambda e, mu, n, x: crystal(c(mu, n, x)))(c))
q('crystal', 'factorizations', 'word m2 bool', lambda e, w, n, b: WordCrystalGenerator.get_increasing_factorizations(w, n, b))

# further queries of the same objects
for k, (f, x) in {'S': ('S', 'S_expansion'), 'GS': ('GS', 'GS_expansion'), 'gs': ('gs', 'gs_expansion'), 'js': ('js', 'js_expansion')}.items():
    q('exp', 'exp_' + k, 'n2 row', (lambda f, x: lambda e, n, mu: getattr(utils, x)(getattr(utils, f)(n, mu)))(f, x))
for k, (f, x) in {'nGP': ('mn_GP', 'mn_GP_expansion'), 'nGQ': ('mn_GQ', 'mn_GQ_expansion'), 'ngp': ('mp_gp', 'mp_gp_expansion'), 'ngq': ('mp_gq', 'mp_gq_expansion')}.items():
    q('exp', 'exp_' + k, 'n2 smu0', (lambda f, x: lambda e, n, mu: getattr(utils, x)(getattr(utils, f)(n, mu)))(f, x))
q('exp', 'monomial_str', 'n tiny', lambda e, n, a: (str(SymmetricMonomial(n, a)), bool(SymmetricMonomial(n, a)), 2 * SymmetricMonomial(n, a), 1 + SymmetricMonomial(n, a)))
for f in ('G', 'GP', 'GS'):
    q('perm' if f == 'G' else 'fpf' if f == 'GP' else 'inv', 'utils_' + f, ('perm' if f == 'G' else 'fpf' if f == 'GP' else 'inv') + ' m2 db',
      (lambda f: lambda e, w, n, d: getattr(utils, f)(n, e.get('perm', w), degree_bound=d))(f))
q('shsym', 'GQ_utils', 'n smu snu bd', lambda e, n, mu, nu, d: utils.grothendieck_Q(n, mu, nu, degree_bound=d))
q('alg', 'sym_str', 'symf symf', lambda e, a, b: (str(e.get('sym', a)), hash(e.get('sym', a)) == hash(e.get('sym', b))))
q('alg', 'sym_pow', 'symf b01', lambda e, a, k: e.get('sym', a) ** (k + 1))
q('alg', 'poly_xor', 'poly poly', lambda e, a, b: e.get('poly', a) ^ e.get('poly', b))
q('alg', 'poly_order', 'poly poly', lambda e, a, b: (e.get('poly', a) < e.get('poly', b), e.get('poly', a) != e.get('poly', b)))
q('alg', 'poly_call', 'poly n n', lambda e, p, i, j: e.get('poly', p)({i: X(j), 0: X(i)}))
q('alg', 'vec_int', 'vec coef', lambda e, a, c: (e.get('vec', a) * c // c, e.get('vec', a).is_nonnegative(), e.get('vec', a).is_positive(), e.get('vec', a).is_singleton(), e.get('vec', a).values()))
q('alg', 'vec_map', 'vec', lambda e, a: (len(e.get('vec', a)), bool(e.get('vec', a)), e.get('vec', a).items()))
q('alg', 'box_more', 'box coef', lambda e, a, c: (-e.get('box', a), c * e.get('box', a), e.get('box', a) == e.get('box', a), str(e.get('box', a))))
for nm, f in (('add', operators.operator_shifted_add), ('AL', operators.operator_AL), ('R', operators.operator_R)):
    q('alg', 'box_apply_' + nm, 'n smu0 n', (lambda f: lambda e, n, mu, m: f(n)(f(m)(mu)))(f))
q('tabval', 'tab_more', 'tab n n', lambda e, t, i, j: (e.get('tab', t).contains_box(i, j), e.get('tab', t).is_shifted_column_superstandard()))
q('tabval', 'tab_word', 'rwd', lambda e, w: T.from_row_reading_word(tuple(w)))
q('tabval', 'tab_decode', 'tab', lambda e, t: T.decode_string_input(rowtext(t)))
q('tabval', 'tab_unprime', 'tab', lambda e, t: I.unprime_diagonal(e.get('tab', t)))
q('tabval', 'tab_act', 'perm tab', lambda e, w, t: e.get('perm', w) * e.get('tab', t))
q('vst', 'vst_pred', 'vst n', lambda e, t, i: (e.get('vst', t).is_highest_weight(), e.get('vst', t).diagonal_primes(), e.get('vst', t).primed_diagonal_cells(i), e.get('vst', t).primed_groups(i),
                                                  e.get('vst', t).singletons(), e.get('vst', t).diagonal_singletons(i)))
q('vst', 'vst_groups', 'vst n n', lambda e, t, i, j: (e.get('vst', t).is_singleton(i, j), e.get('vst', t).is_group_end(i, j), e.get('vst', t).is_group_start(i, j), e.get('vst', t).in_same_group(i, j, i, j + 1)))
q('vst', 'vst_eq', 'vst vst', lambda e, t, u: (e.get('vst', t) == e.get('vst', u), hash(e.get('vst', t)) == hash(e.get('vst', u))))
for f in ('tex', 'cycle_repr', 'is_fpf_grassmannian', 'is_unsigned'):
    q('perm', 'p_' + f, 'perm', (lambda f: lambda e, w: attr(e.get('perm', w), f))(f))
    if f != 'is_unsigned':
        q('fpf', 'f_' + f, 'fpf', (lambda f: lambda e, w: attr(e.get('perm', w), f))(f))
for f in ('print_rothe_diagram', 'print_involution_rothe_diagram', 'print_fpf_rothe_diagram'):
    q('fpf', f, 'fpf', (lambda f: lambda e, w: printed(getattr(e.get('perm', w), f)))(f))
q('perm', 'cycle', 'perm', lambda e, w: Permutation.cycle(*[abs(a) for a in w[:3]]))
q('perm', 'little_remove', 'rword i', lambda e, w, i: Permutation.little_bump(w, Permutation.from_word(w[:i % len(w)] + w[i % len(w) + 1:])) if w else ())
q('perm', 'little_swap', 'rword n n', lambda e, w, i, j: Permutation.little_bump(w, i, i + j))
q('perm', 'little_push', 'rword i', lambda e, w, i: Permutation.little_push(w, i % len(w)) if w else ())
q('inv', 'ilittle', 'inv i n n', lambda e, w, i, a, b: [(lambda v: (Permutation.involution_little_bump(v, a, a + b), Permutation.involution_little_push(v, i % len(v)) if v else ()))(e.get('perm', w).get_involution_word())])
q('fpf', 'flittle', 'fpf i n n', lambda e, w, i, a, b: [(lambda v: (Permutation.fpf_involution_little_bump(v, a, a + b), Permutation.fpf_involution_little_push(v, i % len(v)) if v else ()))(e.get('perm', w).get_fpf_involution_word())])
q('part', 'part_complement', 'n mu0', lambda e, n, mu: Partition.complement(n + 3, mu))
q('part', 'part_merge', 'smu0 smu0', lambda e, a, b: Partition.merge_shifted(a, Partition.shifted_shape(b)))
q('part', 'part_from_shape', 'mu0', lambda e, a: Partition.from_shape(Partition.shape(a)))
for f in ('involution_wiring_diagram', 'fpf_involution_wiring_diagram', 'right_weakly_unimodal_zeta', 'left_weakly_unimodal_zeta', 'weakly_decreasing_zeta'):
    q('word', f, 'word', (lambda f: lambda e, w: getattr(Word, f)(w))(f))
q('word', 'quasi_more', 'word', lambda e, w: (Word.quasisymmetrize(w, Word.weakly_increasing_zeta), Word.quasisymmetrize(w, Word.right_weakly_unimodal_zeta), Word.quasisymmetrize(w, Word.left_weakly_unimodal_zeta)))


def rowtext(t):
    rows = {}
    for i, j, v in sorted(t):
        rows.setdefault(i, []).append(','.join(str(-x) + "'" if x < 0 else str(x) for x in v))
    return ';'.join(' '.join(rows[i]) for i in sorted(rows))


def printed(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = f()
    return out.getvalue() + repr(r)


def lim(l):
    return 5 if l is None else l


def crystal(c):
    els = [canon(x) for x in c.elements]
    return [tuple((els[x], els[y], i)) for x, y, i in c.edges] + [tuple(sorted(els[x] for x in comp)) for comp in c.components]


def attr(x, f):
    v = getattr(x, f)
    v = v() if callable(v) and not isinstance(v, Permutation) else v
    return v


def weak(w, multi):
    r, c = [], 1
    for i in range(len(w)):
        if i and (w[i - 1] > w[i] if multi else w[i - 1] <= w[i]):
            c += 1
        r.append(c)
    return tuple(r)


# enumerations that can be left unfinished: name -> (argument kinds, generator function, reference listing or None for the same)
GENS = [
    ('hecke_words', 'n lb5 ab', lambda e, n, l, a: Permutation.hecke_words(n, l, a)),
    ('symplectic_hecke_words', 'n12 lb5 ab', lambda e, n, l, a: Permutation.symplectic_hecke_words(2 * n, l, a)),
    ('involution_hecke_words', 'n lb5 ab', lambda e, n, l, a: Permutation.involution_hecke_words(n, l, a)),
    ('get_hecke_words', 'perm lb5 ab', lambda e, w, l, a: e.get('perm', w).get_hecke_words(l, a)),
    ('get_involution_hecke_words', 'inv lb5 ab', lambda e, w, l, a: e.get('perm', w).get_involution_hecke_words(l, a)),
    ('get_symplectic_hecke_words', 'fpf lb5 ab', lambda e, w, l, a: e.get('perm', w).get_symplectic_hecke_words(l, a)),
    ('slevels', 'n12 lb5 ab bool', lambda e, n, l, a, b: (w for lv in Permutation.symplectic_hecke_levels(2 * n, l, a, b) for w in lv)),
    ('ilevels', 'n lb5 ab bool', lambda e, n, l, a, b: (w for lv in Permutation.involution_hecke_levels(n, l, a, b) for w in lv)),
    ('reduced', 'perm', lambda e, w: e.get('perm', w).get_reduced_words()),
    ('invwords', 'inv', lambda e, w: e.get('perm', w).get_involution_words()),
    ('fpfwords', 'fpf', lambda e, w: e.get('perm', w).get_fpf_involution_words()),
    ('subpartitions', 'mu nu bool', lambda e, mu, nu, b: Partition.subpartitions(mu, nu, b)),
    ('generate', 'n bool', lambda e, n, b: Partition.generate(n + 3, strict=b)),
    ('semistandard', 'n mu nu', lambda e, n, mu, nu: T.semistandard(n, mu, nu)),
    ('shifted', 'n smu snu bool', lambda e, n, mu, nu, b: T.semistandard_shifted_marked(n, mu, nu, b)),
    ('shifted_rpp', 'n smu snu bool', lambda e, n, mu, nu, b: T.semistandard_marked_rpp(n, mu, nu, b)),
    ('standard', 'mu nu', lambda e, mu, nu: T.standard(mu, nu)),
    ('KOG', 'n smu0', lambda e, n, mu: T.KOG(n, mu)),
    ('vst', 'n vmu vnu bool', lambda e, n, mu, nu, b: V.all(n, mu, nu, b)),
    ('allperms', 'n bool', lambda e, n, b: Permutation.all(n, b)),
    ('invols', 'n bool', lambda e, n, b: Permutation.involutions(n, b)),
    ('rims', 'smu0 n03', lambda e, mu, b: Partition.rims(mu, b)),
    ('covers', 'perm', lambda e, w: e.get('perm', w).bruhat_covers()),
    ('factorizations', 'word m2 bool', lambda e, w, n, b: WordCrystalGenerator.get_increasing_factorizations(w, n, b)),
]
GENS = [(a, b.split(), c) for a, b, c in GENS]
GGROUPS = {'hecke_words': 'perm', 'get_hecke_words': 'perm', 'reduced': 'perm', 'covers': 'perm', 'allperms': 'perm', 'invols': 'inv', 'involution_hecke_words': 'inv', 'get_involution_hecke_words': 'inv',
           'ilevels': 'inv', 'invwords': 'inv', 'symplectic_hecke_words': 'fpf', 'get_symplectic_hecke_words': 'fpf', 'slevels': 'fpf', 'fpfwords': 'fpf', 'subpartitions': 'part', 'generate': 'part', 'rims': 'part',
           'semistandard': 'tab', 'standard': 'tab', 'shifted': 'shtab', 'shifted_rpp': 'shtab', 'KOG': 'kog', 'vst': 'vst', 'factorizations': 'word'}


# ---- arguments: a session draws them from a small theme, so that queries meet in the caches ----
def skewpair(rng, strict, hi):
    size = rng.randrange(1, 9)
    mu = tuple(shapes.random_partition(rng, size, strict))
    while True:
        nu = tuple(shapes.random_sub(rng, mu, strict)) if rng.random() < .7 or sum(mu) > hi else ()
        if sum(mu) - sum(nu) <= hi:
            return mu, nu


def walkperm(rng, n, k, signed=False):
    o = list(range(1, n + 1))
    for _ in range(k):
        i = rng.randrange(0 if signed else 1, n)
        if i == 0:
            o[0] = -o[0]
        elif o[i - 1] < o[i]:
            o[i - 1], o[i] = o[i], o[i - 1]
    return o


def invol(rng, n, k, fpf, signed=False):
    z = list(range(n + 1))
    if fpf:
        z = [0] + [i + 1 if i % 2 else i - 1 for i in range(1, n + 1)]
    for _ in range(k):
        i = rng.randrange(1, n)
        if z[i] < z[i + 1]:
            if z[i] == i and z[i + 1] == i + 1:
                z[i], z[i + 1] = i + 1, i
            else:
                sw = {i: i + 1, i + 1: i}
                y = z[:]
                for k in range(1, n + 1):
                    y[sw.get(k, k)] = sw.get(z[k], z[k])
                z = y
    z = z[1:]
    if signed:
        z = [-a if a == i + 1 and rng.random() < .5 else a for i, a in enumerate(z)]
    return z


def ribbonpair(rng):
    while True:
        nu = tuple(shapes.random_partition(rng, rng.randrange(2, 9), True))
        mu = tuple(shapes.random_sub(rng, nu, True))
        B = {(i, j) for i in range(len(nu)) for j in range(i + (mu[i] if i < len(mu) else 0), i + nu[i])}
        if len(B) <= 5 and not any((i + 1, j + 1) in B for i, j in B):
            return nu, mu


class Theme:
    def __init__(self, rng):
        from drivers import c19
        self.rng = rng
        self.n = rng.choice([1, 2, 2, 2, 3])
        hi = {1: 5, 2: 4, 3: 3}[self.n]
        self.mus = [skewpair(rng, False, hi) for _ in range(2)]
        self.smus = [skewpair(rng, True, hi) for _ in range(2)]
        # neighbours: another inner shape, the straight shape, a shorter outer shape
        for L, st in ((self.mus, False), (self.smus, True)):
            mu, nu = L[0]
            if sum(mu) <= hi:
                L.append((mu, ()))
            L.append((mu, mu))
            if nu:
                L.append((nu, ()) if sum(nu) <= hi else (nu, nu))
        self.vmus = [skewpair(rng, True, 3) for _ in range(2)]
        self.small = [tuple(m) for m in rng.sample(list(shapes.upto(4)), 3)]
        self.ssmall = [tuple(m) for m in rng.sample(list(shapes.strict_upto(5)), 3)]
        self.tiny = [tuple(m) for m in rng.sample(list(shapes.upto(3)), 3)]
        self.stiny = [tuple(m) for m in rng.sample(list(shapes.strict_upto(3)), 3)]
        k = rng.choice([2, 3, 4, 4])
        self.perms = [walkperm(rng, k, rng.randrange(0, 5)) for _ in range(3)] + [walkperm(rng, 3, 3, True)]
        self.perms.append(self.perms[0] + [len(self.perms[0]) + 1])
        self.invs = [invol(rng, k, rng.randrange(0, 5), False) for _ in range(3)] + [invol(rng, 3, 2, False, True)]
        self.fpfs = [invol(rng, rng.choice([2, 4, 4, 6]), rng.randrange(0, 4), True) for _ in range(3)]
        self.fpfs.append(self.fpfs[0] + [len(self.fpfs[0]) + 2, len(self.fpfs[0]) + 1])
        self.words = [tuple(rng.randrange(1, 5) for _ in range(rng.randrange(0, 6))) for _ in range(4)]
        self.words.append(self.words[0] + (2,))
        import instab
        self.swords = [instab.walk('sp', rng, 4, rng.randrange(0, 6)) for _ in range(3)]
        self.ribbons = [ribbonpair(rng) for _ in range(3)]
        self.tabs = [self.tab() for _ in range(3)]
        self.vsts = [v for v in (self.vst() for _ in range(3))]
        self.vecs = [self.vec() for _ in range(3)]
        self.polys = [self.poly() for _ in range(4)]
        self.syms = []
        for _ in range(3):
            d = {tuple(m): rng.choice([-2, -1, 1, 2]) for m in rng.sample(self.tiny, 2) if len(m) <= self.n}
            self.syms.append([self.n, [[list(k), c] for k, c in d.items()]])
        self.boxes = [[rng.choice([0, 0, 1])] + [rng.choice([-2, -1, 0, 1, 2]) for _ in range(rng.randrange(0, 3))] for _ in range(3)]

    def tab(self):
        rng = self.rng
        from drivers import c21
        while True:
            sh = rng.random() < .5
            mu = shapes.random_partition(rng, rng.randrange(1, 6), sh)
            t = c21.fill(mu, (), sh, 3, rng, sh, rng.random() < .5)
            if t is not None:
                return [[i, j, list(v)] for i, j, v in t]

    def vst(self):
        """a random valued-set tableau made without the code under test"""
        rng = self.rng
        for _ in range(500):
            mu, nu = rng.choice(self.vmus)
            cells = [(i, j) for i in range(1, len(mu) + 1) for j in range(i + (nu[i - 1] if i <= len(nu) else 0), i + mu[i - 1])]
            v = {}
            for i, j in cells:
                low = max([1] + [v[i, j - 1] + v[i, j - 1] % 2 for _ in [0] if (i, j - 1) in v] + [v[i - 1, j] + (v[i - 1, j] % 2 == 0) for _ in [0] if (i - 1, j) in v])
                if low > 4:
                    break
                v[i, j] = rng.choice([r for r in range(low, 5)][:2])
            if len(v) == len(cells):
                out = []
                for i, j in cells:
                    near = (i, j + 1) if v[i, j] % 2 == 0 else (i - 1, j)
                    group = v.get(near) == v[i, j] and rng.random() < .6
                    out.append([i, j, v[i, j] // 2 if v[i, j] % 2 == 0 else -(v[i, j] + 1) // 2, int(group)])
                return out
        return []

    def vec(self):
        rng = self.rng
        return [[list(m), rng.choice([-2, -1, 1, 3])] for m in rng.sample(self.ssmall, rng.randrange(1, 4))]

    def poly(self):
        rng = self.rng
        out = {}
        for _ in range(rng.randrange(1, 4)):
            out[tuple((i, rng.choice([1, 2, -1])) for i in sorted(rng.sample([0, 1, 2, 3], rng.randrange(0, 3))))] = rng.choice([-2, -1, 1, 2])
        return [[[list(x) for x in m], c] for m, c in out.items()]

    def args(self, kinds):
        rng = self.rng
        pair = rng.choice(self.mus), rng.choice(self.smus), rng.choice(self.vmus)
        out = []
        for k in kinds:
            if k in ('mu', 'nu'):
                v = pair[0][k == 'nu']
            elif k in ('smu', 'snu'):
                v = pair[1][k == 'snu']
            elif k in ('vmu', 'vnu'):
                v = pair[2][k == 'vnu']
            else:
                v = {'n': lambda: rng.choice([self.n, self.n, 1, 2]), 'n2': lambda: rng.choice([1, 2, 2]), 'm2': lambda: rng.choice([1, 2]), 'n12': lambda: rng.choice([1, 2, 2, 3]),
                     'n03': lambda: rng.choice([0, 1, 1, 2, 3]), 'b01': lambda: rng.choice([0, 1]), 'len': lambda: rng.choice([1, 2, 3, 4]),
                     'i': lambda: rng.randrange(6), 'bool': lambda: rng.random() < .5, 'bd': lambda: rng.choice([None, 0, 1, 2, 3, 5]), 'db': lambda: rng.choice([2, 3, 4]),
                     'coef': lambda: rng.choice([-1, 1, 2, 3]), 'lb': lambda: rng.choice([0, 1, 2, 3, 4, 5]), 'lb5': lambda: rng.choice([1, 2, 3, 4, 5]), 'ab': lambda: rng.choice([None, None, 1, 2]),
                     'mu0': lambda: rng.choice(self.small), 'smu0': lambda: rng.choice(self.ssmall), 'tiny': lambda: rng.choice(self.tiny), 'stiny': lambda: rng.choice(self.stiny),
                     'stiny2': lambda: rng.choice([m for m in self.stiny if m] or [(1,)]), 'row': lambda: rng.choice([(), (1,), (2,)]), 'nil': lambda: (),
                     'perm': lambda: rng.choice(self.perms), 'inv': lambda: rng.choice(self.invs), 'fpf': lambda: rng.choice(self.fpfs), 'p3': lambda: rng.choice([p for p in self.perms if min(p) > 0]),
                     'word': lambda: rng.choice(self.words), 'hw': lambda: rng.choice(self.words), 'sw': lambda: rng.choice(self.swords), 'rword': lambda: self.rword(), 'rwd': lambda: list(rng.choice(self.words)),
                     'ribbon': lambda: rng.choice(self.ribbons), 'tab': lambda: rng.choice(self.tabs), 'vst': lambda: rng.choice(self.vsts), 'vec': lambda: rng.choice(self.vecs),
                     'poly': lambda: rng.choice(self.polys), 'symf': lambda: rng.choice(self.syms), 'box': lambda: rng.choice(self.boxes),
                     'matrix': lambda: tuple(tuple(rng.choice([0, 1, -1, 2]) for _ in range(3)) for _ in range(2)),
                     'array': lambda: [[[i, j], rng.choice([0, 0, 1])] for i in range(1, 3) for j in range(1, 3)]}[k]()
            out.append(v)
        return out

    def rword(self):
        w = walkperm(self.rng, 4, 6)
        word = []
        while True:
            d = [i for i in range(len(w) - 1) if w[i] > w[i + 1]]
            if not d:
                return tuple(reversed(word))
            i = d[0]
            w[i], w[i + 1] = w[i + 1], w[i]
            word.append(i + 1)


GROUPS = ['sym', 'shsym', 'exp', 'alg', 'tab', 'shtab', 'kog', 'tabval', 'ins', 'vst', 'perm', 'inv', 'fpf', 'part', 'word', 'crystal']


# functions that take the same arguments, whatever they are about
PLAIN = {'smu': 'mu', 'snu': 'nu', 'smu0': 'mu0', 'tiny': 'mu0', 'stiny': 'mu0', 'stiny2': 'mu0', 'n2': 'n', 'm2': 'n', 'n12': 'n', 'hw': 'word', 'sw': 'word',
         'inv': 'perm', 'fpf': 'perm', 'p3': 'perm'}
SAME = {'n mu nu': [], 'mu nu': [], 'n mu0': [], 'mu0': [], 'perm': [], 'word': []}
for _g in CAT.values():
    for _name, _kinds, _fn in _g:
        _plain = ' '.join(PLAIN.get(k, k) for k in _kinds)
        for _c in SAME:
            if (_plain + ' ').startswith(_c + ' ') and 'ribbon' not in _kinds:
                SAME[_c].append((_name, _kinds, _fn))


def same_args(cls, th, rng):
    if cls in ('n mu nu', 'mu nu'):
        mu, nu = rng.choice(th.smus[:1] + th.smus[2:])
        return [rng.choice([1, 2]), mu, nu] if cls[0] == 'n' else [mu, nu]
    if cls == 'n mu0':
        return [rng.choice([1, 2]), rng.choice(th.stiny)]
    if cls == 'mu0':
        return [rng.choice(th.ssmall)]
    return [rng.choice(th.fpfs)] if cls == 'perm' else [rng.choice(th.swords)]


def sessions(tier, rng):
    k = 6 if tier == 'quick' else 24
    out = [('group', g, i) for g in GROUPS for i in range(16 * k)]
    out += [('same', c, i) for c in SAME for i in range((12 if c == 'n mu nu' else 5) * k)]
    out += [('mixed', '', i) for i in range(60 * k)]
    return out


def reference(jobs):
    """Answers from processes in which nothing was asked before: one child per query."""
    out = []
    for job in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                val = job()
            except BaseException as ex:
                val = ['error', type(ex).__name__ + str(ex)[:100]]
            try:
                data = json.dumps(val).encode()
                while data:
                    data = data[os.write(w, data):]
            finally:
                os._exit(0)
        os.close(w)
        data = b''
        while True:
            c = os.read(r, 65536)
            if not c:
                break
            data += c
        os.close(r)
        os.waitpid(pid, 0)
        out.append(json.loads(data.decode()) if data else ['error', 'no answer'])
    return out


MAXITEMS = 160


def items(gen):
    out = []
    for x in gen:
        out.append(short(canon(x)))
        if len(out) > MAXITEMS:
            return ['big']
    return out


def run_session(sess, rec):
    rng = rec.rng
    mode, group, _ = sess
    th = Theme(rng)
    groups = [group] if mode == 'group' else rng.sample(GROUPS, 6)
    queries, gens, labels = [], [], set()
    if mode == 'same':
        first = same_args(group, th, rng)
        for name, kinds, fn in rng.sample(SAME[group], min(len(SAME[group]), 26)):
            a = first + th.args(kinds[len(first):])
            queries.append((name + json.dumps(a), fn, a))
            labels.add(name + json.dumps(a))
    # several variants of a few functions, so that their keys differ in one argument only
    for _ in range(60):
        if len(queries) >= 16:
            break
        name, kinds, fn = rng.choice(CAT[rng.choice(groups)])
        for _ in range(rng.choice([1, 2, 3])):
            a = th.args(kinds)
            label = name + json.dumps(a)
            if label not in labels:
                labels.add(label)
                queries.append((label, fn, a))
    pool = [g for g in GENS if mode == 'mixed' or GGROUPS[g[0]] == group]
    for _ in range(4 if pool else 0):
        name, kinds, fn = rng.choice(pool)
        a = th.args(kinds)
        label = 'gen:' + name + json.dumps(a)
        if label not in labels:
            labels.add(label)
            gens.append((label, fn, a))

    def ref(fn, a):
        def job():
            x = evaluate(lambda: fn(Env(False), *a), 10)
            return ['timeout', ''] if x is TIMED else ['ok', answer(x)]
        return job

    def genref(fn, a):
        def job():
            x = evaluate(lambda: items(fn(Env(False), *a)), 10)
            return ['raised', ''] if isinstance(x, Raised) else ['timeout', ''] if x is TIMED else ['ok', x]
        return job

    good, ggood = [], []
    for (label, fn, a), (tag, val) in zip(queries, reference([ref(fn, a) for _, fn, a in queries])):
        if tag == 'ok':
            rec.event('fresh', dict(q=label), lambda: val)
            good.append((label, fn, a))
        elif tag == 'error':
            rec.event('fresh', dict(q=label), lambda: bad(val))
    for (label, fn, a), (tag, val) in zip(gens, reference([genref(fn, a) for _, fn, a in gens])):
        if tag == 'ok' and val != ['big']:
            rec.event('freshgen', dict(q=label), lambda: val)
            ggood.append((label, fn, a))
    env = Env(True)
    held, opened = {}, {}
    for step in range(70 if mode == 'group' else 80):
        if rec.dead:
            return
        x = rng.random()
        if opened and x < .3:
            g = rng.choice(list(opened))
            gen = opened[g]
            for _ in range(rng.choice([1, 1, 2, 3, 8, 40])):
                item = next(gen, None)
                if item is None:
                    rec.note('close', g=g)
                    del opened[g]
                    break
                rec.event('take', dict(g=g), lambda: short(canon(item)))
            continue
        if ggood and x < .42 and len(opened) < 4:
            label, fn, a = rng.choice(ggood)
            g = 'g%d' % step
            rec.event('open', dict(g=g, q=label), lambda: opened.__setitem__(g, iter(fn(env, *a))), lambda r: '')
            continue
        if held and x < .55:
            h = rng.choice(list(held))
            rec.event('look', dict(h=h), lambda: short(canon(held[h])))
            continue
        if env.pool and x < .62:
            key = rng.choice(list(env.pool))
            h = short('operand ' + key[0] + key[1])
            if h not in held:
                # the value it was built with
                rec.event('hold', dict(h=h), lambda: short(canon(MAKE[key[0]](json.loads(key[1])))))
                held[h] = env.pool[key]
            continue
        if not good:
            continue
        label, fn, a = rng.choice(good)
        box = []

        def run():
            r = evaluate(lambda: fn(env, *a), 60)
            if r is TIMED:
                raise check.OpTimeout()
            box.append(r)
            return r
        rec.event('ask', dict(q=label), run, answer)
        if box and rng.random() < .3 and not isinstance(box[0], Raised) and len(held) < 12:
            h = 'answer %d %s' % (step, short(label))
            held[h] = box[0]
            rec.event('hold', dict(h=h), lambda: short(canon(box[0])))
    for h in held:
        rec.event('look', dict(h=h), lambda: short(canon(held[h])))


def bad(val):
    raise check.BadValue(val)
