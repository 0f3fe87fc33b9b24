"""Valued-set tableaux and their weight-exchanging transitions."""
import enc
import shapes
from tableaux import Tableau
from vst import ValuedSetTableau as V, combine_str

TRACE_SPEC = 'C19Trace'
MODELS = [('VstModel', 'VstModel.cfg', ('quick', 'thorough')), ('VstModel', 'VstModelDeep.cfg', ('thorough',))]
BATCH = 30


def vst(t):
    if not isinstance(t, V):
        raise enc.BadValue('expected a valued-set tableau')
    if set(t.tableau.boxes) != set(t.grouping.boxes):
        raise enc.BadValue('grouping and tableau have different boxes')
    return [[enc.need_int(i), enc.need_int(j), enc.need_int(t.tableau.get(i, j)), enc.need_int(t.grouping.get(i, j))] for i, j in sorted(t.tableau.boxes)]


def make(js):
    return V(Tableau({(i, j): v for i, j, v, _ in js}), Tableau({(i, j): g for i, j, _, g in js}))


def sessions(tier, rng):
    out = []
    big = tier != 'quick'
    for mu in shapes.strict_upto(8 if big else 6):
        for nu in shapes.sub_strict(mu):
            size = sum(mu) - sum(nu)
            for dp in (True, False):
                for n, hi in ((1, 3), (2, 8 if big else 5), (3, 4 if big else 3)):
                    if size <= hi and (size or n == 1):
                        out.append(('all', n, list(mu), list(nu), dp))
    for i in range(4000 if big else 500):
        out.append(('random', i))
    return out


def cost(sess):
    return 1 + 3 ** (sum(sess[2]) - sum(sess[3])) // 20 if sess[0] == 'all' else 6


def steps(rec, n, mu, nu, dp, i, js):
    def fn():
        out = []
        for x in js:
            t = make(x)
            u = t.transition(i)
            out.append([vst(u), vst(u.transition(i)), list(t.weight(n)), list(u.weight(n)), vst(t)])
        return out
    rec.event('steps', dict(n=n, mu=mu, nu=nu, dp=dp, i=i, src=js), fn, lambda r: r)


def stages(rec, mu, nu, js):
    def fn():
        out = []
        for x in js:
            t = make(x)
            f = t.forward_transition(1)
            m = f.middle_transition(1)[0]
            out.append([vst(f), vst(m), vst(f.backward_transition(1)), enc.need_bool(f.is_interstandard()), enc.need_bool(m.is_interstandard())])
        return out
    rec.event('stages', dict(mu=mu, nu=nu, src=js), fn, lambda r: r)


def back(rec, mu, nu, js):
    def fn():
        out = []
        for x in js:
            t = make(x)
            b = t.backward_transition(1)
            m = t.middle_transition(1)[0]
            out.append([vst(b), vst(b.forward_transition(1)), vst(m), vst(m.middle_transition(1)[0])])
        return out
    rec.event('back', dict(mu=mu, nu=nu, src=js), fn, lambda r: r)


def info(rec, n, x, vals):
    def fn():
        t = make(x)
        # the hinge is only defined for one occurrence
        cells = {(i, j): abs(v) in (vals[0], vals[0] + 1) for i, j, v, _ in x}
        hinges = [i for i, j in cells if i == j and cells[i, j] and cells.get((i, i + 1)) and cells.get((i + 1, i + 1))]
        h = t.hinge(vals[0]) if len(hinges) < 2 else 0
        boxes = [(i, j) for i, j, _, _ in x]
        # boxes around the shape are asked too: they belong to no group
        around = sorted({(i + a, j + b) for i, j in boxes for a in (-1, 0, 1) for b in (-1, 0, 1)} | {(1, 1)})
        near = [(b, c) for b in around for c in around if abs(b[0] - c[0]) + abs(b[1] - c[1]) <= 3 and (b in boxes or c in boxes)]
        ab = [abs(v) for _, _, v, _ in x]
        out = dict(weight=list(t.weight(n)), dprimes=t.diagonal_primes(), ss=enc.need_bool(t.is_semistandard()),
                   inter=enc.need_bool(t.is_interstandard()) if max(ab, default=0) <= 2 else False,
                   starts=[b for b in around if enc.need_bool(t.is_group_start(*b))], ends=[b for b in around if enc.need_bool(t.is_group_end(*b))],
                   alone=[b for b in around if enc.need_bool(t.is_singleton(*b))],
                   single=t.singletons(), singlev=t.singletons(*vals), diagsingle=t.diagonal_singletons(),
                   diagprimed=t.primed_diagonal_cells(*vals), pgroups=t.primed_groups(), pgroupsv=t.primed_groups(*vals),
                   highest=enc.need_bool(t.is_highest_weight()), joined=[[b, c] for b, c in near if t.in_same_group(*(b + c))],
                   unprime=vst(t.unprime()), unprimed=vst(t.unprime_diagonal()), hor=t.get_horizontals(vals[0]), ver=t.get_verticals(-vals[0]),
                   hinge=[0] if h == 0 else [] if h is None else [h],
                   eq=[enc.need_bool(t == make(x)), hash(t) == hash(make(x)), enc.need_bool(t == t.unprime())])
        if vst(t) != x:
            raise enc.BadValue('operand changed')
        return out
    rec.event('info', dict(n=n, t=x, vals=vals), fn, lambda r: r)


def pairs(rec, js):
    """equality, hashing and printing of every two of these tableaux"""
    def fn():
        T, U = [make(x) for x in js], [make(x) for x in js]
        return [[[enc.need_bool(t == u), enc.need_bool(t != u), hash(t) == hash(u), repr(t) == repr(u)] for u in U] for t in T] + \
            [[enc.need_bool(t == t.tableau), enc.need_bool(t == 1), enc.need_bool(t != None)] for t in T]  # noqa
    rec.event('pairs', dict(src=js), fn, lambda r: r)


GLYPHS = dict(zip(' ─│┼┴┬├┤└┌┘┐', ['none', 'level', 'upright', 'cross', 'level-up', 'level-down', 'upright-right', 'upright-left', 'up-right', 'down-right', 'up-left', 'down-left']))


def picture(rec, x):
    """the drawing, cut into its lattice points, walls and entries, lowest line first"""
    def fn():
        out = repr(make(x))
        if not (out.startswith('\n\n') and out.endswith('\n\n')):
            raise enc.BadValue('drawing without its empty lines')
        n = max([j for _, j, _, _ in x], default=0)
        lines = []
        for p, line in enumerate(reversed(out[2:-2].split('\n'))):
            w, r = divmod(len(line) - n - 1, n) if n else (0, len(line) - 1)
            if w < 0 or r:
                raise enc.BadValue('drawing of uneven width')
            row, k = [], 0
            for q in range(2 * n + 1):
                size = w if q % 2 else 1
                token, k = line[k:k + size], k + size
                if p % 2 and q % 2:
                    row.append([token.rstrip(), size])
                else:
                    row.append([GLYPHS.get(token[0], 'other') if len(set(token)) == 1 else 'mixed', size])
            lines.append(row)
        return lines
    rec.event('picture', dict(t=x), fn, lambda r: r)


def side_by_side(rec, rng):
    """several drawings joined line by line"""
    texts = [[' ' * rng.randint(0, 2) + rng.choice(['', '', '1', '2 1', 'a']) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 4))]
    rec.event('combine', dict(texts=texts), lambda: combine_str(*['\n'.join(t) for t in texts]), lambda r: r.split('\n'))


def variants(x, rng):
    """the tableau, and others that differ from it in one entry or in one grouping bit"""
    out = [x]
    pos = {(i, j): (v, g) for i, j, v, g in x}
    for k, (i, j, v, g) in enumerate(x):
        nb = (i, j + 1) if v > 0 else (i - 1, j)
        if nb in pos and pos[nb][0] == v:
            out.append(x[:k] + [[i, j, v, 1 - g]] + x[k + 1:])
        left, below = pos.get((i, j - 1), (0, 0)), pos.get((i + 1, j), (0, 0))
        if not g and not (left[1] and left[0] > 0) and not (below[1] and below[0] < 0):
            out += [x[:k] + [[i, j, w, 0]] + x[k + 1:] for w in (-v, v + 1 if v > 0 else v - 1)]
    return out if len(out) <= 9 else [x] + rng.sample(out[1:], 8)


def chunks(L):
    for k in range(0, len(L), BATCH):
        yield L[k:k + BATCH]


def run_session(sess, rec):
    rng = rec.rng
    if sess[0] == 'random':
        return run_random(sess, rec, rng)
    _, n, mu, nu, dp = sess
    args = (n, tuple(mu), tuple(nu), dp)
    got = {}

    def listed(key):
        def e(r):
            got[key] = sorted(vst(t) for t in r)
            return got[key]
        return e
    call = (lambda: V.all(n, args[1], diagonal_primes=dp)) if not nu and dp else (lambda: V.all(*args))
    rec.event('all', dict(n=n, mu=mu, nu=nu, dp=dp), call, listed('all'))
    src = got.get('all', [])
    cap = 1500
    if len(src) > cap:
        src = rng.sample(src, cap)
    for i in range(1, n):
        for c in chunks(src):
            steps(rec, n, mu, nu, dp, i, c)
    if n == 2 and dp:
        for c in chunks(src):
            stages(rec, mu, nu, c)
        rec.event('inter', dict(mu=mu, nu=nu), lambda: V.all_interstandard(args[1], args[2]), listed('inter'))
        mid = got.get('inter', [])
        if len(mid) > cap:
            mid = rng.sample(mid, cap)
        for c in chunks(mid):
            back(rec, mu, nu, c)
        for x in rng.sample(mid, min(2, len(mid))):
            info(rec, 2, x, [1, 2])
    for x in rng.sample(src, min(3, len(src))):
        info(rec, n, x, rng.choice([[1], [1, 2], [2], [2, 1]]))
        picture(rec, x)
        if x:
            pairs(rec, variants(x, rng))


def fill(mu, nu, n, dp, rng):
    """a random semistandard shifted marked filling, or None"""
    t = {}
    rank = lambda v: 2 * v if v > 0 else -2 * v - 1
    val = lambda r: r // 2 if r % 2 == 0 else -(r + 1) // 2
    for i in range(1, len(mu) + 1):
        lo = (nu[i - 1] if i <= len(nu) else 0) + i
        for j in range(lo, mu[i - 1] + i):
            low = 1
            if (i, j - 1) in t:
                low = max(low, t[i, j - 1] + t[i, j - 1] % 2)
            if (i - 1, j) in t:
                low = max(low, t[i - 1, j] + (t[i - 1, j] % 2 == 0))
            ok = [r for r in range(low, 2 * n + 1) if dp or i != j or r % 2 == 0]
            if not ok:
                return None
            t[i, j] = ok[0] if rng.random() < .72 else rng.choice(ok[:3])
    ent = {b: val(r) for b, r in t.items()}
    out = []
    p = rng.choice([.2, .5, .8, .95])
    for i, j in sorted(ent):
        v = ent[i, j]
        joinable = ent.get((i, j + 1) if v > 0 else (i - 1, j)) == v
        out.append([i, j, v, int(joinable and rng.random() < p)])
    return out


def run_random(sess, rec, rng):
    for _ in range(4):
        n = rng.choice([2, 2, 2, 3, 3, 4])
        dp = rng.random() < .6
        mu = nu = None
        for _ in range(500):
            mu = shapes.random_partition(rng, rng.choice([6, 7, 8, 9, 10, 11, 12, 14]), True)
            nu = shapes.random_sub(rng, mu, True) if rng.random() < .7 else ()
            got = [x for x in (fill(mu, nu, n, dp, rng) for _ in range(12)) if x]
            if got:
                break
        else:
            continue
        uniq = []
        for x in got:
            if x and x not in uniq:
                uniq.append(x)
        mu, nu = list(mu), list(nu)
        s = rng.choice([0, 0, 0, 2, 8])         # the same tableaux over larger letters
        uniq = [[[i, j, v + s if v > 0 else v - s, g] for i, j, v, g in x] for x in uniq]
        for i in rng.sample(range(1, n), n - 1):
            steps(rec, n + s, mu, nu, dp, i + s, uniq)
        steps(rec, n + s, mu, nu, dp, 1 + s, list(reversed(uniq)))
        if n == 2 and not s:
            stages(rec, mu, nu, uniq)
        for x in uniq[:2]:
            info(rec, n + s, x, [v + s for v in rng.choice([[1], [1, 2], [2], [2, 1], [3], [1, 2, 3]])])
        pairs(rec, variants(uniq[0], rng))
        side_by_side(rec, rng)
        for x in uniq[:3]:
            picture(rec, x)
