"""Weight tables of tableaux against direct enumeration of fillings."""
import tabs
import enc
from tabs import KINDS

TRACE_SPEC = 'C10Trace'
MODELS = [('TabsModel', 'TabsModel.cfg', ('quick', 'thorough')), ('TabsModel', 'TabsModelDeep.cfg', ('thorough',)),
          ('LayersModel', 'LayersModel.cfg', ('quick', 'thorough')), ('LayersModel', 'LayersModelDeep.cfg', ('thorough',))]
FORK = True
ASSUMPTIONS = ['Shapes have at most 20 boxes; the largest tables count several hundred million tableaux; partitions are passed as tuples without trailing zeros.']
NS = 24


def sessions(tier, rng):
    big = tier != 'quick'
    out = [('small', k, i) for k in KINDS for i in range(NS)]
    out += [('many', k, i) for k in KINDS for i in range(12)]
    out += [('tight', k, i) for k in KINDS for i in range(len(tabs.TIGHT[k]))]
    out += [('wide', k, i) for k in KINDS for i in range(150 if big else 24)]
    out += [('big', k, i) for k in KINDS for i in range(200 if big else 24)]
    out += [('random', k, i) for k in KINDS for i in range(400 if big else 80)]
    out += [('mixed', i) for i in range(800 if big else 150)]
    return out


def table(t):
    return [[enc.part(k), enc.need_int(t[k])] for k in list(t)]


def one(name, m, mu, nu, rec, rng):
    o, _, counts = KINDS[name]
    f = rng.choice(counts)
    e = dict(o, kind=name, max=m, mu=list(mu), nu=list(nu))
    t = rec.event('table', e, lambda: f(m, mu, nu), table)
    if t is not None and rng.random() < .25:
        # read a weight through the returned table, present or not
        w = tuple(sorted((rng.randrange(1, 4) for _ in range(rng.randrange(0, m + 1))), reverse=True))
        rec.event('lookup', dict(e, weight=list(w)), lambda: t.get(w, 0) if rng.random() < .5 else t[w] if hasattr(t, 'default_factory') else t.get(w, 0), enc.need_int)
        rec.event('table', e, lambda: f(m, mu, nu), table)


def run_session(sess, rec):
    rng = rec.rng
    if sess[0] == 'small':
        cases = list(tabs.small(sess[1]))
        mine = [c for j, c in enumerate(cases) if j % NS == sess[2]]
        rng.shuffle(mine)
        for m, mu, nu in mine:
            one(sess[1], m, mu, nu, rec, rng)
    elif sess[0] == 'many':
        mine = [c for j, c in enumerate(tabs.many(sess[1])) if j % 12 == sess[2]]
        for m, mu, nu in mine:
            one(sess[1], m, mu, nu, rec, rng)
    elif sess[0] == 'tight':
        m, mu, nu = tabs.tight(sess[1])[sess[2]]
        one(sess[1], m, mu, nu, rec, rng)
    elif sess[0] == 'wide':
        m, mu, nu = tabs.random_case(sess[1], rng, True)
        one(sess[1], m, mu, nu, rec, rng)
    elif sess[0] == 'big':
        m, mu, nu = tabs.big_case(sess[1], rng)
        one(sess[1], m, mu, nu, rec, rng)
        one(sess[1], m - 1 if rng.random() < .7 else m, mu, nu, rec, rng)
    elif sess[0] == 'random':
        for _ in range(2):
            m, mu, nu = tabs.random_case(sess[1], rng)
            one(sess[1], m, mu, nu, rec, rng)
        if rng.random() < .4:
            one(sess[1], m, mu, tuple(mu) + (1,) if not KINDS[sess[1]][0]['sh'] else (mu[0] + 1,) + tuple(mu[1:]) if mu else (1,), rec, rng)
    else:
        sh = rng.random() < .7
        names = [k for k in KINDS if KINDS[k][0]['sh'] == sh]
        m, mu, nu = tabs.random_case('GQ' if sh else 'mksv', rng)
        for k in rng.sample(names, len(names)) * 2:
            if sum(mu) - sum(nu) <= tabs.SIZE[k].get(m, 0):
                one(k, m, mu, nu, rec, rng)
                if rng.random() < .3 and m > 0:
                    one(k, m - 1, mu, nu, rec, rng)
