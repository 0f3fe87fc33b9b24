"""KOG and KLG tableaux and the Pieri rules they count."""
import enc
import shapes
import tabs
import utils
from check import BadValue
from drivers.c12 import quietly, vec
from partitions import Partition
from tableaux import Tableau

TRACE_SPEC = 'C18Trace'
MODELS = [('RibbonModel', 'RibbonModel.cfg', ('quick', 'thorough')), ('RibbonModel', 'RibbonModelDeep.cfg', ('thorough',))]
ASSUMPTIONS = ['Pieri products are formed in one variable more than the shape has rows, shapes of size at most 7 and products of total size at most 10.']
NS = 8


def sessions(tier, rng):
    big = tier != 'quick'
    out = [('tabs', i, 0) for i in range(NS)] + [('count', i, 0) for i in range(NS)]
    out += [('random', i, 0) for i in range(2000 if big else 300)]
    out += [('pieri', i, 1 if big else 0) for i in range(NS)] + [('copieri', i, 1 if big else 0) for i in range(NS)]
    return out


def cost(s):
    return {'tabs': 3, 'count': 3, 'random': 1, 'pieri': 4, 'copieri': 6}[s[0]]


def pairs(x, f):
    if not isinstance(x, dict):
        raise BadValue('expected a dictionary')
    return [[enc.part(k), f(v)] for k, v in x.items()]


def tablist(x):
    return [tabs.tab(t) for t in x]


def ribbon(nu, mu):
    d = [j - i for i in range(1, len(nu) + 1) for j in range(i + (mu[i - 1] if i <= len(mu) else 0), i + nu[i - 1])]
    return len(set(d)) == len(d)


def boxes(nu, mu):
    b = [(i, j) for i in range(1, len(nu) + 1) for j in range(i + (mu[i - 1] if i <= len(mu) else 0), i + nu[i - 1])]
    return sorted(b, key=lambda x: (-x[0], x[1]))


def over(rng, mu, bound):
    """random strict nu with nu / mu a ribbon"""
    for _ in range(200):
        nu, prev = [], (mu[0] if mu else 0) + bound + 1
        for i in range(len(mu) + 1):
            low = max(mu[i] if i < len(mu) else 0, 0)
            if prev - 1 < low:
                break
            a = rng.randrange(low, prev)
            nu.append(a)
            prev = a
            if not a:
                break
        nu = tuple(a for a in nu if a)
        if len(nu) >= len(mu) and len(set(nu)) == len(nu) and ribbon(nu, mu):
            return nu
    return mu


def run_session(sess, rec):
    rng = rec.rng
    mode, part, deep = sess

    def shape_events(kind, p, mu, fields=('tabs', 'byshape', 'countsby')):
        f = {'KOG': (Tableau.KOG, Tableau.KOG_by_shape, Tableau.KOG_counts_by_shape), 'KLG': (Tableau.KLG, Tableau.KLG_by_shape, Tableau.KLG_counts_by_shape)}[kind]
        base = dict(kind=kind, p=p, mu=list(mu))
        calls = [('tabs', lambda: list(f[0](p, mu)), tablist), ('byshape', lambda: f[1](p, mu), lambda x: pairs(x, tablist)),
                 ('countsby', lambda: f[2](p, mu), lambda x: pairs(x, enc.need_int))]
        calls = [c for c in calls if c[0] in fields]
        rng.shuffle(calls)
        for op, fn, e in calls:
            rec.event(op, dict(base), fn, e)

    def count(kind, nu, mu, p):
        f = Tableau.KOG_counts if kind == 'KOG' else Tableau.KLG_counts
        rec.event('count', dict(kind=kind, p=p, mu=list(mu), nu=list(nu)), lambda: f(nu, mu, p), enc.need_int)
        b = boxes(nu, mu)
        if rng.random() < .15 and b:
            arg = tuple(rng.sample(b, len(b)))
            rec.event('terminal', dict(rim=[list(x) for x in b]), lambda: Partition.rim_terminal_part(arg), lambda r: [[enc.need_int(v) for v in x] for x in r])

    if mode == 'tabs':
        jobs = [(k, p, mu) for mu in shapes.strict_upto(6) for p in range(5) for k in ('KOG', 'KLG') if p < 3 or p == 3 and sum(mu) < 5 or sum(mu) < 3]
        for i, (k, p, mu) in enumerate(jobs):
            if i % NS == part:
                shape_events(k, p, mu, ('tabs', 'byshape', 'countsby') if rng.random() < .3 else (rng.choice(['tabs', 'byshape']), 'countsby'))
    elif mode == 'count':
        jobs = [(nu, mu) for nu in shapes.strict_upto(9) for mu in shapes.sub_strict(nu) if ribbon(nu, mu)]
        for i, (nu, mu) in enumerate(jobs):
            if i % NS == part:
                k = len(boxes(nu, mu))
                for kind in ('KOG', 'KLG'):
                    for p in rng.sample(range(k + 2), min(k + 2, 2)):
                        if k <= 6 or p <= 3:
                            count(kind, nu, mu, p)
    elif mode == 'random':
        for _ in range(3):
            mu = shapes.random_partition(rng, rng.choice([3, 6, 9, 12, 15]), True)
            kind = rng.choice(['KOG', 'KLG'])
            for _ in range(3):
                nu = over(rng, mu, rng.choice([0, 1, 2, 3, 4]))
                k = len(boxes(nu, mu))
                top = {5: 5, 6: 5, 7: 4, 8: 4, 9: 3, 10: 2}.get(k, 5 if k < 5 else 0)
                if top and rng.random() < .9:
                    # the definition fixes the counts at and above the number of boxes
                    for p in {rng.randrange(0, top + 1), k if k < 7 else 0}:
                        count(kind, nu, mu, p)
        mu = shapes.random_partition(rng, rng.choice([4, 7, 10]), True)
        shape_events(kind, rng.choice([0, 1, 2, 2, 3] if len(mu) < 4 else [1, 2]), mu, (rng.choice(['tabs', 'byshape']), 'countsby'))
    elif mode == 'pieri':
        jobs = [(fam, mu, p) for mu in shapes.strict_upto(7 if deep else 6) for p in range(6 if deep else 5) for fam in ('GP', 'GQ') if sum(mu) + p <= (10 if deep else 8)]
        for i, (fam, mu, p) in enumerate(jobs):
            if i % NS == part:
                F, X = (utils.GP, utils.GP_expansion) if fam == 'GP' else (utils.GQ, utils.GQ_expansion)
                n = len(mu) + 1
                rec.event('pieri', dict(fam=fam, mu=list(mu), p=p), quietly(lambda: X(F(n, mu) * F(n, (p,) if p else ()))), vec, 60)
    else:
        jobs = [(nu, lam, dp) for nu in shapes.strict_upto(9 if deep else 8) for lam in shapes.sub_strict(nu) if ribbon(nu, lam) for dp in (True, False)]
        for i, (nu, lam, dp) in enumerate(jobs):
            if i % NS == part and (deep or sum(nu) < 6 or rng.random() < .4):
                rec.event('copieri', dict(nu=list(nu), lam=list(lam), dp=dp), lambda: Tableau.shifted_setvalued_copieri(nu, lam, dp),
                          lambda x: [[enc.need_int(k), tablist(v)] for k, v in x.items()])
        jobs = [(fam, lam, r) for lam in shapes.strict_upto(6 if deep else 5) for r in range(1, 6 if deep else 5) for fam in ('gp', 'gq') if sum(lam) + r <= (9 if deep else 8)]
        for i, (fam, lam, r) in enumerate(jobs):
            if i % NS == part:
                F, X = (utils.gp, utils.gp_expansion) if fam == 'gp' else (utils.gq, utils.gq_expansion)
                n = len(lam) + 1
                rec.event('dualpieri', dict(fam=fam, lam=list(lam), r=r), quietly(lambda: X(F(n, lam) * F(n, (r,)))), vec, 60)
