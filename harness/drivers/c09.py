"""Tableau generators against direct enumeration of fillings."""
import math
import shapes
import tabs
from tableaux import Tableau as T
from tabs import KINDS

TRACE_SPEC = 'C09Trace'
MODELS = [('TabsModel', 'TabsModel.cfg', ('quick', 'thorough')), ('TabsModel', 'TabsModelDeep.cfg', ('thorough',)),
          ('LayersModel', 'LayersModel.cfg', ('quick', 'thorough')), ('LayersModel', 'LayersModelDeep.cfg', ('thorough',))]
FORK = True
ASSUMPTIONS = ['Shapes have at most 20 boxes and listings at most a few thousand tableaux; partitions are passed as tuples without trailing zeros.']
NS = 24


def sessions(tier, rng):
    big = tier != 'quick'
    out = [('small', k, i) for k in KINDS for i in range(NS)]
    out += [('many', k, i) for k in KINDS for i in range(12)]
    out += [('tight', k, i) for k in KINDS for i in range(len(tabs.TIGHT[k]))]
    out += [('wide', k, i) for k in KINDS for i in range(150 if big else 24)]
    out += [('big', k, i) for k in KINDS for i in range(200 if big else 24)]
    out += [('random', k, i) for k in KINDS for i in range(400 if big else 80)]
    out += [('std', i) for i in range(16)]
    out += [('mixed', i) for i in range(800 if big else 150)]
    return out


def one(name, m, mu, nu, rec, rng):
    o, lists, _ = KINDS[name]
    f = rng.choice(lists)
    rec.event('gen', dict(o, kind=name, max=m, mu=list(mu), nu=list(nu)), lambda: list(f(m, mu, nu)), tabs.tabs)


def estimate(name, m, mu, nu):
    """How many tableaux to expect, only to select the cases."""
    try:
        t = KINDS[name][2][0](m, mu, nu)
        total = 0
        for lam, c in t.items():
            w = list(lam) + [0] * (m - len(lam))
            k = math.factorial(m)
            for a in set(w):
                k //= math.factorial(w.count(a))
            total += k * c
        return total
    except Exception:
        return 0


def run_session(sess, rec):
    rng = rec.rng
    if sess[0] == 'small':
        cases = list(tabs.small(sess[1]))
        mine = [c for j, c in enumerate(cases) if j % NS == sess[2]]
        rng.shuffle(mine)
        for m, mu, nu in mine:
            one(sess[1], m, mu, nu, rec, rng)
    elif sess[0] == 'many':
        for m, mu, nu in [c for j, c in enumerate(tabs.many(sess[1])) if j % 12 == sess[2]]:
            one(sess[1], m, mu, nu, rec, rng)
    elif sess[0] == 'tight':
        m, mu, nu = tabs.tight(sess[1])[sess[2]]
        one(sess[1], m, mu, nu, rec, rng)
    elif sess[0] == 'wide':
        m, mu, nu = tabs.random_case(sess[1], rng, True)
        one(sess[1], m, mu, nu, rec, rng)
    elif sess[0] == 'big':
        for _ in range(60):
            m, mu, nu = tabs.big_case(sess[1], rng)
            if not 0 < estimate(sess[1], m, mu, nu) <= 800:
                continue        # only listings of a manageable length
            one(sess[1], m, mu, nu, rec, rng)
            break
    elif sess[0] == 'random':
        for _ in range(2):
            m, mu, nu = tabs.random_case(sess[1], rng)
            one(sess[1], m, mu, nu, rec, rng)
            if rng.random() < .3:
                one(sess[1], m, mu, nu, rec, rng)
        if rng.random() < .4:
            # an inner shape that does not fit
            one(sess[1], m, mu, tuple(mu) + (1,) if not KINDS[sess[1]][0]['sh'] else (mu[0] + 1,) + tuple(mu[1:]) if mu else (1,), rec, rng)
    elif sess[0] == 'mixed':
        # related calls in one process: the same shape under every option
        sh = rng.random() < .7
        names = [k for k in KINDS if KINDS[k][0]['sh'] == sh]
        m, mu, nu = tabs.random_case('GQ' if sh else 'mksv', rng)
        for k in rng.sample(names, len(names)) * 2:
            if sum(mu) - sum(nu) <= tabs.SIZE[k].get(m, 0):
                one(k, m, mu, nu, rec, rng)
                if rng.random() < .3 and m > 0:
                    one(k, m - 1, mu, nu, rec, rng)
    else:
        todo = []
        for mu in shapes.upto(6):
            for nu in shapes.sub(mu):
                if sum(nu) == 0 or sum(mu) <= 4 or rng.random() < .15:
                    todo.append(('std', tuple(mu), tuple(nu)))
        todo += [('std', mu, ()) for mu in ((4, 3), (3, 2, 2), (2, 2, 2, 1), (3, 1, 1, 1, 1), (1,) * 9, (9,))]
        todo += [('std', mu, nu) for mu, nu in (((5, 4, 3, 2, 1), (5, 3, 2, 1)), ((4, 4, 4), (4, 3, 2)), ((6, 3, 3, 1), (4, 3, 1)))]
        todo += [('shstd', mu, nu) for mu, nu in (((4, 3, 2, 1), (4, 2)), ((7,), (3,)), ((5, 3, 1), (4, 2)), ((4, 2, 1), (2,)))]
        for mu in shapes.strict_upto(6):
            for nu in shapes.sub_strict(mu):
                if sum(mu) - sum(nu) <= 5:
                    todo.append(('shstd', tuple(mu), tuple(nu)))
        for j, (k, mu, nu) in enumerate(todo):
            if j % 16 != sess[1]:
                continue
            base = dict(max=0, mu=list(mu), nu=list(nu), setv=False, rpp=False)
            if k == 'std':
                rec.event('std', dict(base, sh=False, marked=False, diag='any'), lambda: list(T.standard(mu, nu)), tabs.tabs)
            else:
                for dp in (True, False):
                    rec.event('std', dict(base, sh=True, marked=True, diag='any' if dp else 'noprime'),
                              lambda: list(T.standard_shifted_marked(mu, nu, dp)), tabs.tabs)
