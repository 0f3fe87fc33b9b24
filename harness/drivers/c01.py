"""Hecke, orthogonal Hecke and symplectic Hecke insertion, whole words and single bumps."""
import instab
import enc
from instab import KINDS, FWD, STATE, FState, HState, T

TRACE_SPEC = 'C01Trace'
MODELS = [('InsertionModel', 'InsertionModel.cfg', ('quick', 'thorough')), ('InsertionModel', 'InsertionModelDeep.cfg', ('thorough',))]
FORK = True
ASSUMPTIONS = ['Words have at most 28 letters and letters at most 22; symplectic insertion is only used on symplectic Hecke words.']
NS = 12


def sessions(tier, rng):
    big = tier != 'quick'
    out = [('small', k, i) for k in KINDS for i in range(NS)]
    out += [('random', k, i) for k in KINDS for i in range(12000 if big else 900)]
    out += [('path', k, i) for k in KINDS for i in range(9000 if big else 700)]
    return out


def whole(kind, w, rec, rng, allmodes=False):
    for multi in ([True, False] if allmodes else [rng.random() < .5]):
        r = instab.record(w, multi, rng)
        if allmodes or rng.random() < .5:
            rec.event('insert', dict(kind=kind, word=list(w), record=[], multi=multi), lambda: FWD[kind](w, None, multi), instab.pair)
        if w:
            rec.event('insert', dict(kind=kind, word=list(w), record=list(r), multi=multi), lambda: FWD[kind](w, r, multi), instab.pair)
            bad = list(r)
            bad[rng.randrange(len(bad))] = rng.randrange(1, 6)
            bad = tuple(bad)
            if not instab.legal(w, bad, multi):
                rec.event('reject', dict(kind=kind, word=list(w), record=list(bad), multi=multi), lambda: FWD[kind](w, bad, multi), instab.pair)


def stepping(kind, w, a):
    cls = STATE[kind]
    s = cls(cls.insertion_tableaux(*w)[0])
    term = s.is_terminal()
    start = s.add(a)
    path = list(start.path())
    final, boxes = s.insert(a)
    t, v = start.pop()
    popped = cls(t)
    seen = [start] + [x for x, _ in path]
    again = [cls(x.tableau, x.outer) for x in seen]
    for x, y in zip(seen, again):
        if hash(x) != hash(y) or list(x) != list(x.tableau) or sorted(x.boxes) != sorted((i, j) for i, j, _ in x):
            raise enc.BadValue('a state hashes, lists its entries and its boxes like its tableau')
    same = [[i + 1, j + 1] for i, x in enumerate(seen) for j, y in enumerate(again) if x == y]
    inside = [[list(b) for b in [(i, j) for i in range(1, 5) for j in range(1, 5)] + ([x.outer] if x.outer else []) if b in x] for x in seen]
    return dict(same=same, inside=inside, start=instab.state(start), states=[instab.state(x) for x, _ in path], boxes=[list(b) for _, b in path], final=instab.state(final),
                inserted=[list(b) for b in boxes], flags=[start.is_initial(), start.is_terminal(), s.is_initial(), final.is_terminal() and term],
                pop=enc.need_int(v), popped=instab.state(popped))


def run_session(sess, rec):
    rng = rec.rng
    mode, kind = sess[0], sess[1]
    if mode == 'small':
        words = list(instab.small(kind, 4, 4 if kind == 'sp' else 3))
        mine = [w for j, w in enumerate(words) if j % NS == sess[2]]
        rng.shuffle(mine)
        for w in mine:
            whole(kind, w, rec, rng, len(w) < 4)
            x = tuple(2 * i for i in w) if kind == 'orth' else w
            if x:
                rec.event('path', dict(kind=kind, word=list(x[:-1]), a=x[-1]), lambda: stepping(kind, x[:-1], x[-1]))
    elif mode == 'random':
        w = instab.walk(kind, rng, rng.choice([3, 4, 5, 6, 8, 12]), rng.choice([4, 5, 6, 7, 8, 9, 10, 12, 14]))
        if sess[2] % 10 == 9:
            w = instab.walk(kind, rng, rng.choice([5, 8, 12, 16, 22]), rng.randrange(16, 27))
        whole(kind, w, rec, rng, True)
        # related words share the cached steps
        v = w[:rng.randrange(len(w))]
        whole(kind, v, rec, rng)
        x = v + instab.walk(kind, rng, 4, 2)
        if kind != 'sp' or instab.symplectic(x):
            whole(kind, x, rec, rng)
            y = tuple(2 * i for i in x) if kind == 'orth' else x
            cls = STATE[kind]
            k = rng.randrange(len(y) + 1)

            def go():
                p, q = cls.insertion_tableaux(y[:k]) if rng.random() < .5 and y[:k] else cls.insertion_tableaux(*y[:k])
                return cls.insertion_tableaux(*y[k:], p=p, q=q)
            rec.event('continue', dict(kind=kind, word=list(y), cut=k), go, instab.pair)
    else:
        for _ in range(3):
            w = instab.walk(kind, rng, rng.choice([3, 4, 5, 6, 8, 13]), rng.choice([3, 5, 7, 9, 12, 12, 18]))
            if kind == 'orth':
                w = tuple(2 * i for i in w)
            rec.event('path', dict(kind=kind, word=list(w[:-1]), a=w[-1]), lambda: stepping(kind, w[:-1], w[-1]))
