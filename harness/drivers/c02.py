"""Inverse insertion: words and records recovered, arbitrary pairs of tableaux, and single steps undone."""
import instab
import tabs
import enc
import shapes
from instab import KINDS, FWD, BACK, STATE, T

TRACE_SPEC = 'C02Trace'
MODELS = [('InsertionModel', 'InsertionBij.cfg', ('quick', 'thorough')), ('InsertionModel', 'InsertionBijDeep.cfg', ('thorough',)), ('InsertionModel', 'InsertionBijWide.cfg', ('thorough',))]
FORK = True
ASSUMPTIONS = ['Words have at most 26 letters and letters at most 22; symplectic pairs have an insertion tableau whose reading word is a symplectic Hecke word.']
NS = 12


def sessions(tier, rng):
    big = tier != 'quick'
    out = [('small', k, i) for k in KINDS for i in range(NS)]
    for m, n in (('random', 400), ('undo', 350), ('pairs', 500)):
        out += [(m, k, i) for k in KINDS for i in range(n * (20 if big else 2))]
    return out


def back(x, kind, multi):
    w, r = BACK[kind](x[0], x[1], multi)
    return [instab.word(w), instab.word(r)]


def whole(kind, w, rec, rng, modes):
    for multi in modes:
        r = instab.record(w, multi, rng)
        rec.event('round', dict(kind=kind, word=list(w), record=list(r), multi=multi), lambda: back(FWD[kind](w, r, multi), kind, multi))
        if rng.random() < .4:
            rec.event('round', dict(kind=kind, word=list(w), record=[], multi=multi), lambda: back(FWD[kind](w, None, multi), kind, multi))


def undo(kind, w, a):
    cls = STATE[kind]
    p, q = cls.insertion_tableaux(*(w + (a,)))
    _, record = q.pop()
    s, _ = cls(p).previous(record)
    out = [s]
    while not s.is_initial() and len(out) < 60:
        s, _ = s.previous()
        out.append(s)
    end = s.previous()
    return dict(states=[instab.state(x) for x in out], stays=bool(end[0] == s and end[1] is None))


def increasing(rng, mu, sh, top):
    """A random filling with increasing rows and columns, or None."""
    t = {}
    for i, part in enumerate(mu, 1):
        for j in range(i if sh else 1, part + (i if sh else 1)):
            lo = max(t.get((i, j - 1), 0), t.get((i - 1, j), 0)) + 1
            t[i, j] = lo + (0 if rng.random() < .6 else rng.randrange(0, 3))
            if t[i, j] > top:
                return None
    return t


def row_word(t):
    return tuple(t[b] for b in sorted(t, key=lambda b: (-b[0], b[1])))


def corners(mu, sh):
    for i in range(len(mu)):
        nxt = mu[i + 1] if i + 1 < len(mu) else 0
        if i + 1 == len(mu) or (mu[i] - 1 > nxt if sh else mu[i] > nxt):
            yield i


def record_tab(rng, mu, sh, extra):
    """A random standard set-valued recording tableau with |mu| + extra entries."""
    mu = list(mu)
    k = sum(mu) + extra
    q = {}
    while k:
        i = rng.choice(list(corners(mu, sh)))
        b = (i + 1, mu[i] + (i if sh else 0))
        v = -k if sh and b[0] != b[1] and rng.random() < .5 else k
        q.setdefault(b, []).append(v)
        must = k == sum(mu)
        if must or (sum(mu) > 1 and rng.random() < .6):
            mu[i] -= 1
            if mu[i] == 0:
                mu.pop()
        k -= 1
    return q


def coarsen(rng, q, multi, sh):
    """Merge consecutive entries where the result is still a semistandard (multi)set-valued tableau with the same standardization."""
    n = sum(len(v) for v in q.values())
    r, c = {}, rng.choice([1, 1, 2])
    for k in range(1, n + 1):
        r[k] = c
        c += rng.choice([0, 0, 1])
    for _ in range(n + 2):
        f = {b: sorted((r[abs(v)] if v > 0 else -r[abs(v)]) for v in q[b]) for b in q}
        if standard(f) == {b: sorted(q[b]) for b in q} and valid(f, multi):
            return f
        k = rng.randrange(1, n + 1)
        for m in range(k, n + 1):
            r[m] += 1
    r = {k: k for k in r}
    return {b: sorted(q[b]) for b in q}


def rank(v):
    return 2 * v if v > 0 else -2 * v - 1


def valid(f, multi):
    for (i, j), v in f.items():
        if not multi and len(set(v)) < len(v):
            return False
        hi = max(map(rank, v))
        for d, odd in (((i, j + 1), 1), ((i + 1, j), 0)):
            if d in f:
                lo = min(map(rank, f[d]))
                if lo < hi or (lo == hi and lo % 2 == odd):
                    return False
    return True


def standard(f):
    entries = sorted([(v, i, j) for (i, j) in sorted(f) for v in f[i, j]], key=lambda x: (rank(x[0]), x[1] if x[0] < 0 else x[2]))
    out = {}
    for n, (v, i, j) in enumerate(entries, 1):
        out.setdefault((i, j), []).append(n if v > 0 else -n)
    return {b: sorted(out[b]) for b in out}


def run_session(sess, rec):
    rng = rec.rng
    mode, kind = sess[0], sess[1]
    if mode == 'small':
        words = list(instab.small(kind, 4, 4 if kind == 'sp' else 3))
        mine = [w for j, w in enumerate(words) if j % NS == sess[2]]
        rng.shuffle(mine)
        for w in mine:
            whole(kind, w, rec, rng, [True, False])
            x = tuple(2 * i for i in w) if kind == 'orth' else w
            if x:
                rec.event('undo', dict(kind=kind, word=list(x[:-1]), a=x[-1]), lambda: undo(kind, x[:-1], x[-1]))
    elif mode == 'random':
        w = instab.walk(kind, rng, rng.choice([3, 4, 5, 6, 8, 12]), rng.choice([4, 5, 6, 7, 8, 9, 10, 12, 14]))
        if sess[2] % 10 == 9:
            w = instab.walk(kind, rng, rng.choice([5, 8, 12, 16, 22]), rng.randrange(16, 27))
        whole(kind, w, rec, rng, [True, False])
    elif mode == 'undo':
        for _ in range(3):
            w = instab.walk(kind, rng, rng.choice([3, 4, 5, 6, 8, 13]), rng.choice([3, 5, 7, 9, 12, 12, 18]))
            if kind == 'orth':
                w = tuple(2 * i for i in w)
            rec.event('undo', dict(kind=kind, word=list(w[:-1]), a=w[-1]), lambda: undo(kind, w[:-1], w[-1]))
    else:
        sh = kind != 'hecke'
        for _ in range(3):
            mu = tuple(shapes.random_partition(rng, rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 15]), sh))
            t = None
            for _ in range(60):
                t = increasing(rng, mu, sh, rng.choice([5, 6, 8, 10, 14]))
                if t and kind == 'sp' and not instab.symplectic(row_word(t)):
                    t = {b: 2 * v for b, v in t.items()} if rng.random() < .1 else None
                if t:
                    break
            if not t:
                continue
            q = record_tab(rng, mu, sh, rng.choice([0, 0, 1, 2, 3, 4]))
            multi = rng.random() < .5
            f = coarsen(rng, q, multi, sh) if rng.random() < .7 else q
            P = T({b: v for b, v in t.items()})
            Q = T({b: tuple(f[b]) for b in f})
            rec.event('inverse', dict(kind=kind, p=tabs.tab(P), q=tabs.tab(Q), multi=multi), lambda: BACK[kind](P, Q, multi),
                      lambda x: [instab.word(x[0]), instab.word(x[1])])
