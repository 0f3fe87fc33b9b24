"""Little bumps and pushes on reduced, involution and fixed-point-free involution words."""
import itertools
from permutations import Permutation
import enc
from drivers.c03 import elt
from drivers.c04 import rand_elt, rand_inv, rand_fpf

TRACE_SPEC = 'C07Trace'
MODELS = [('LittleModel', 'LittleModel.cfg', ('quick', 'thorough')), ('LittleModel', 'LittleModelDeep.cfg', ('thorough',))]
FORK = True
P = Permutation
PUSH = {'red': P.little_push, 'inv': P.involution_little_push, 'fpf': P.fpf_involution_little_push}
BUMP = {'red': P.little_bump, 'inv': P.involution_little_bump, 'fpf': P.fpf_involution_little_bump}


def word(a):
    if not isinstance(a, tuple):
        raise enc.BadValue('a word is a tuple')
    return [enc.need_int(i) for i in a]


def value(kind, a):
    if kind == 'red':
        return P.from_word(a)
    return (P.from_involution_word if kind == 'inv' else P.from_fpf_involution_word)(a, strict=False)


def length(kind, w):
    return {'red': lambda: len(w), 'inv': lambda: w.involution_length, 'fpf': lambda: w.fpf_involution_length}[kind]()


def dele(a, i):
    return a[:i] + a[i + 1:]


def reduced(kind, a):
    return length(kind, value(kind, a)) == len(a)


def words(kind, w):
    return list({'red': w.get_reduced_words, 'inv': w.get_involution_words, 'fpf': w.get_fpf_involution_words}[kind]())


def sessions(tier, rng):
    big = tier != 'quick'
    out = [('small', k, i) for k in PUSH for i in range(16)]
    out += [('random', k, i) for k in PUSH for i in range(3000 if big else 350)]
    out += [('family', k, i) for k in PUSH for i in range(1200 if big else 150)]
    out += [('long', k, i) for k in PUSH for i in range(400 if big else 40)]
    return out


def ftrim(w):
    o = w.oneline
    while len(o) > 1 and o[-2] == len(o) and o[-1] == len(o) - 1:
        o = o[:-2]
    return list(P(*o).oneline)


def below(kind, a, rec, rng, n):
    f = dict(kind=kind, word=list(a))
    for i in range(len(a)):
        d = dele(a, i)
        if not reduced(kind, d):
            continue
        rec.event('push', dict(f, i=i + 1), lambda: PUSH[kind](a, i), lambda r: [word(r[0]), 0 if r[1] is None else r[1] + 1])
        y = value(kind, d)
        yy = ftrim(y) if kind == 'fpf' else list(y.oneline)
        rec.event('bump', dict(f, y=yy), lambda: BUMP[kind](a, y), word)
    for _ in range(n):
        top = (max(a) if a else 1) + 1
        j = rng.randrange(1, top + 1)
        k = rng.randrange(j + 1, top + 2)
        rec.event('bump2', dict(f, j=j, k=k), lambda: BUMP[kind](a, j, k), word)
    # an element that no deletion of one letter reaches: the word stays as it is
    y = pick(kind, rng, rng.choice([3, 4]), 4)
    if not any(ftrim_if(kind, value(kind, dele(a, i))) == ftrim_if(kind, y) for i in range(len(a))):
        rec.event('bump', dict(f, y=ftrim_if(kind, y)), lambda: BUMP[kind](a, y), word)


def pick(kind, rng, top, maxlen):
    if kind == 'red':
        return rand_elt(rng, top, maxlen)
    if kind == 'inv':
        return rand_inv(rng, top, maxlen)
    return rand_fpf(rng, top + top % 2, maxlen)


def walk(kind, rng, top, m):
    """One reduced word, grown letter by letter from either side."""
    a = ()
    for _ in range(4 * m):
        i = rng.randrange(1, top)
        b = a + (i,) if kind != 'red' or rng.random() < .5 else (i,) + a
        if len(b) <= m and reduced(kind, b):
            a = b
    return a


def run_session(sess, rec):
    rng = rec.rng
    kind = sess[1]
    if sess[0] == 'small':
        todo = [a for m in range(5) for a in itertools.product(range(1, 4), repeat=m) if reduced(kind, a)]
        for j, a in enumerate(todo):
            if j % 16 == sess[2]:
                below(kind, a, rec, rng, 3)
    elif sess[0] == 'random':
        for _ in range(2):
            a = walk(kind, rng, rng.choice([3, 4, 5, 6]), rng.choice([4, 5, 6, 7]))
            s = rng.choice([0, 0, 0, 2, 4, 6])
            below(kind, tuple(i + s for i in a), rec, rng, 4)
    elif sess[0] == 'long':
        a = walk(kind, rng, rng.choice([5, 6, 7]), rng.choice([9, 11, 12]))
        f = dict(kind=kind, word=list(a))
        cand = [i for i in range(len(a)) if reduced(kind, dele(a, i))]
        for i in rng.sample(cand, min(3, len(cand))):
            y = value(kind, dele(a, i))
            if kind == 'fpf':
                rec.event('push', dict(f, i=i + 1), lambda: PUSH[kind](a, i), lambda r: [word(r[0]), 0 if r[1] is None else r[1] + 1])
            rec.event('bump', dict(f, y=ftrim_if(kind, y)), lambda: BUMP[kind](a, y), word)
    else:
        # all words of all elements just above one element y
        y = pick(kind, rng, rng.choice([3, 4] if kind != 'inv' else [3, 4]), 4)
        n = y.rank + (2 if kind == 'fpf' else 1)
        ups = set()
        base = P(*(list(y.oneline) + [y.rank + 2, y.rank + 1])) if kind == 'fpf' else y
        for a in words(kind, y)[:40]:
            for i in range(len(a) + 1):
                for x in range(1, n + 1):
                    b = a[:i] + (x,) + a[i:]
                    if reduced(kind, b):
                        ups.add(value(kind, b))
        ws = []
        for w in sorted(ups, key=lambda t: t.oneline)[:6]:
            ws += words(kind, w)
        ws = [a for a in dict.fromkeys(ws) if any(reduced(kind, dele(a, i)) and ftrim_if(kind, value(kind, dele(a, i))) == ftrim_if(kind, y) for i in range(len(a)))]
        ws = sorted(ws)[:60]
        rec.event('family', dict(kind=kind, y=ftrim_if(kind, y), words=[list(a) for a in ws]), lambda: [(a, BUMP[kind](a, y)) for a in ws],
                  lambda L: [[word(a), word(b)] for a, b in L])


def ftrim_if(kind, w):
    return ftrim(w) if kind == 'fpf' else list(w.oneline)
