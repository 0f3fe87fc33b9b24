"""Codes, Rothe diagrams, shapes, Grassmannian elements, and the generators of families of permutations."""
import contextlib
import io
import itertools
from permutations import Permutation
import enc
import shapes
from drivers.c03 import elt, rand, rand_inv

TRACE_SPEC = 'C05Trace'
MODELS = [('CodesModel', 'CodesModel.cfg', ('quick', 'thorough')), ('CodesModel', 'CodesModelDeep.cfg', ('thorough',))]
P = Permutation
ASSUMPTIONS = ['involutions(n, signed=True, fpf=True) is outside the property: its meaning is not documented.',
               'Grassmannian predicates and codes of permutations with negative entries are outside the property.']
GENS = {
    'all': (lambda n: P.all(n), range(6)), 'all_signed': (lambda n: P.all(n, signed=True), range(5)),
    'inv': (lambda n: P.involutions(n), range(8)), 'inv_signed': (lambda n: P.involutions(n, signed=True), range(6)),
    'gr': (lambda n: P.grassmannians(n), range(6)), 'invgr': (lambda n: P.inv_grassmannians(n), range(9)),
    'fpfgr': (lambda n: P.fpf_grassmannians(n), range(0, 9, 2)),
    'fpf': (lambda n: P.fpf_involutions(n), range(9)),
    'fpf2': (lambda n: P.involutions(n, fpf=True), range(9)),
}


def sessions(tier, rng):
    big = tier != 'quick'
    out = [('gen', k, n + j * (big and k in ('inv', 'fpf'))) for k in GENS for n in GENS[k][1] for j in (0, 1 if k == 'inv' else 2)[:1 + big]]
    out += [('every', i) for i in range(40)]
    out += [('random', i) for i in range(1000 if not big else 6000)]
    out += [('shapes', i) for i in range(16)]
    return out


def cost(s):
    return 30 if s[0] == 'gen' and s[1] in ('all', 'all_signed', 'inv', 'inv_signed') and s[2] >= 4 else 4


def boxes(d):
    return [[enc.need_int(a), enc.need_int(b)] for a, b in d]


def lines(s):
    if not isinstance(s, str):
        raise enc.BadValue('a picture is a string')
    return [list(t) for t in s.split('\n')] if s else []


def printed(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn()
    text = out.getvalue()
    if not text.endswith('\n'):
        raise enc.BadValue('a printed diagram ends its line')
    return text[:-1]


def facts(w, rec, rng):
    f = dict(w=list(w.oneline))
    pt = enc.part
    inv = w * w == P()
    fpf = inv and all(w(i) != i for i in range(1, w.rank + 1))
    rec.event('code', f, lambda: w.code(), pt)
    rec.event('rothe', f, lambda: w.rothe_diagram(), boxes)
    rec.event('shape', f, lambda: w.shape(), pt)
    rec.event('isgr', f, lambda: w.is_grassmannian(), enc.need_bool)
    rec.event('isfpfgr', f, lambda: w.is_fpf_grassmannian(), enc.need_bool)
    if inv:
        rec.event('icode', f, lambda: w.involution_code(), pt)
        rec.event('irothe', f, lambda: w.involution_rothe_diagram(), boxes)
        rec.event('frothe', f, rng.choice([lambda: w.involution_rothe_diagram(True), lambda: w.fpf_rothe_diagram()]), boxes)
        rec.event('ishape', f, lambda: w.involution_shape(), pt)
        rec.event('isinvgr', f, lambda: w.is_inv_grassmannian(), enc.need_bool)
    if fpf:
        rec.event('fcode', f, lambda: w.fpf_involution_code(), pt)
        rec.event('fshape', f, lambda: w.fpf_involution_shape(), pt)
    fr, sep = rng.random() < .5, rng.choice(['.', ' '])
    kw = dict(french=fr, sep=sep)
    if not fr and sep == ' ':
        kw = {}
    rec.event('print', dict(f, which='rothe', sep=sep, french=fr), lambda: printed(lambda: w.print_rothe_diagram(**kw)), lines)
    if inv:
        rec.event('print', dict(f, which='inv', sep=sep, french=fr), lambda: printed(lambda: w.print_involution_rothe_diagram(**kw)), lines)
        rec.event('print', dict(f, which='fpf', sep=sep, french=fr), lambda: printed(lambda: w.print_fpf_rothe_diagram(**kw)), lines)
    d = w.rothe_diagram()
    sep = rng.choice([' ', '.'])
    fr = rng.random() < .5
    rec.event('pic', dict(boxes=[list(b) for b in d], sep=sep, french=fr), lambda: P.print_diagram(d, french=fr, sep=sep), lines)


def grs(mu, rec):
    I = elt
    rec.event('getgr', dict(mu=list(mu)), lambda: P.get_grassmannian(*mu), I)
    if all(a > b for a, b in zip(mu, mu[1:])):
        rec.event('getinvgr', dict(mu=list(mu)), lambda: P.get_inv_grassmannian(*mu), I)
        rec.event('getfpfgr', dict(mu=list(mu)), lambda: P.get_fpf_grassmannian(*mu), I)


def run_session(sess, rec):
    rng = rec.rng
    if sess[0] == 'gen':
        which = 'fpf' if sess[1] == 'fpf2' else sess[1]
        rec.event('gen', dict(which=which, n=sess[2]), lambda: list(GENS[sess[1]][0](sess[2])), lambda L: [elt(w) for w in L])
    elif sess[0] == 'every':
        todo = [P(*w) for n in range(6) for w in itertools.permutations(range(1, n + 1)) if n < 5 or w[-1] != n]
        for j, w in enumerate(todo):
            if j % 40 == sess[1]:
                facts(w, rec, rng)
    elif sess[0] == 'shapes':
        todo = [mu for n in range(8) for mu in shapes.parts(n)] + [tuple(mu) for n in range(8, 13) for mu in shapes.strict(n)]
        for j, mu in enumerate(todo):
            if j % 16 == sess[1]:
                grs(tuple(mu), rec)
    else:
        n = rng.choice([5, 6, 7, 8, 9, 13])
        for _ in range(3):
            facts(P(*rand(rng, n, False)), rec, rng)
            facts(P(*rand_inv(rng, n, False)), rec, rng)
            facts(P(*rand_inv(rng, n - n % 2, False, True)), rec, rng)
        w = P(*rand_inv(rng, 4, True))
        rec.event('isfpfgr', dict(w=list(w.oneline)), lambda: w.is_fpf_grassmannian(), enc.need_bool)
        # Grassmannian elements and near misses
        mu = tuple(shapes.random_partition(rng, 8))
        grs(mu, rec)
        mu = tuple(sorted(set(mu), reverse=True))
        for f in (P.get_grassmannian, P.get_inv_grassmannian, P.get_fpf_grassmannian):
            w = f(*mu)
            facts(w, rec, rng)
            facts(w.star(), rec, rng)
            if w.rank < 10:
                i = rng.randrange(1, w.rank + 2)
                facts(P.s_i(i) * w * P.s_i(i), rec, rng)
