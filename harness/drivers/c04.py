"""Word enumerators: every element of small rank, length and statistic bounds, interleaved and abandoned enumerations."""
import itertools
from permutations import Permutation
import enc

TRACE_SPEC = 'C04Trace'
MODELS = [('HeckeWordsModel', 'HeckeWordsModel.cfg', ('quick', 'thorough')), ('LevelCache', 'LevelCache.cfg', ('quick', 'thorough')),
          ('HeckeWordsModel', 'HeckeWordsModelDeep.cfg', ('thorough',))]
FORK = True
P = Permutation
ASSUMPTIONS = ['Elements have rank at most 8 (14 when they have at most six letters) and enumerations at most about 2000 words per event.']


def words(ws):
    out = []
    for w in ws:
        if not isinstance(w, tuple):
            raise enc.BadValue('a word is a tuple')
        out.append([enc.need_int(i) for i in w])
    return out


def elts(n, kind):
    if kind in ('red', 'hecke'):
        return [P(*w) for w in itertools.permutations(range(1, n + 1))]
    if kind == 'inv':
        return [w for w in map(lambda t: P(*t), itertools.permutations(range(1, n + 1))) if w * w == P()]
    return [w for w in (P(*t) for t in itertools.permutations(range(1, n + 1))) if w * w == P() and all(w(i) != i for i in range(1, n + 1))]


def signed_elts(n):
    return [P(*[a * b for a, b in zip(p, s)]) for p in itertools.permutations(range(1, n + 1)) for s in itertools.product([1, -1], repeat=n)]


def rand_elt(rng, n, maxlen, signed=False):
    """A random walk keeps the number of words manageable."""
    w = P()
    for _ in range(rng.randrange(maxlen + 1)):
        s = P.s_i(rng.randrange(0 if signed else 1, n))
        if len(w * s) > len(w):
            w = w * s
    return w


def rand_inv(rng, n, maxlen, signed=False):
    z = P()
    for _ in range(rng.randrange(maxlen + 1)):
        s = P.s_i(rng.randrange(0 if signed else 1, n))
        if len(z * s) > len(z):
            z = s % z % s
    return z


def rand_fpf(rng, n, maxlen):
    z = P(*[i + 1 if i % 2 else i - 1 for i in range(1, n + 1)])
    for _ in range(rng.randrange(maxlen + 1)):
        i = rng.randrange(1, n)
        if z(i) < z(i + 1):
            z = P.s_i(i) * z * P.s_i(i)
    return z


def sessions(tier, rng):
    k = 5 if tier == 'quick' else 30
    out = [('reduced', i) for i in range(70 * k)]
    out += [('bounded', i) for i in range(60 * k)]
    out += [('interleave', i) for i in range(140 * k)]
    out += [('again', i) for i in range(40 * k)]
    out += [('eval', i) for i in range(40 * k)]
    out += [('small', i) for i in range(24)]
    return out


def req(kind, w, n=None, bound=-1, stat=-1, all=False, hecke=True):
    return dict(kind=kind, w=list(w.oneline) if w is not None else [], n=w.rank if n is None else n, bound=bound, stat=stat, all=all, hecke=hecke)


def open_gen(kind, w, n, bound, stat):
    b = None if bound < 0 else bound
    s = None if stat < 0 else stat
    if w is None:
        return {'hecke': P.hecke_words, 'shecke': P.symplectic_hecke_words, 'ihecke': P.involution_hecke_words}[kind](n, b, s)
    if kind == 'red':
        return w.get_reduced_words()
    if kind == 'inv':
        return w.get_involution_words()
    if kind == 'fpf':
        return iter(w.get_fpf_involution_words())
    return {'hecke': w.get_hecke_words, 'shecke': w.get_symplectic_hecke_words, 'ihecke': w.get_involution_hecke_words}[kind](b, s)


def get_list(kind, w, bound=-1, stat=-1, prop=False):
    if prop and kind == 'red':
        return lambda: list(w.reduced_words)
    if prop and kind == 'inv':
        return lambda: list(w.involution_words)
    if prop and kind == 'fpf':
        return lambda: list(w.fpf_involution_words)
    return lambda: list(open_gen(kind, w, 0, bound, stat))


def one(kind, w, rec, rng):
    r = req(kind, w)
    f = {'red': [lambda: w.get_reduced_word(), lambda: w.reduced_word], 'inv': [lambda: w.get_involution_word(), lambda: w.involution_word],
         'fpf': [lambda: w.get_fpf_involution_word(), lambda: w.fpf_involution_word]}[kind]
    rec.event('one', r, rng.choice(f), lambda t: words([t])[0])


def pick(rng, kind):
    """A random element with a moderate number of words of this kind."""
    if kind in ('red', 'inv', 'fpf') and rng.random() < .15:
        # large letters, few words
        n = rng.choice([10, 12, 14])
        if kind == 'red':
            return rand_elt(rng, n, 6)
        return rand_inv(rng, n, 5) if kind == 'inv' else rand_fpf(rng, n, 5)
    if kind == 'red':
        s = rng.random() < .4
        return rand_elt(rng, rng.choice([2, 3, 4] if s else [3, 4, 5, 6, 7]), 7, s)
    if kind == 'inv':
        s = rng.random() < .4
        return rand_inv(rng, rng.choice([2, 3, 4] if s else [3, 4, 5, 6, 7]), 6, s)
    if kind == 'fpf':
        return rand_fpf(rng, rng.choice([2, 4, 6, 8]), 6)
    if kind == 'hecke':
        return rand_elt(rng, rng.choice([2, 3, 3, 4]), 5)
    if kind == 'ihecke':
        return rand_inv(rng, rng.choice([2, 3, 3]), 4, rng.random() < .5)
    return rand_fpf(rng, rng.choice([2, 4, 4]), 4)


LIM = {'hecke': {0: 3, 1: 3, 2: 7, 3: 6, 4: 5}, 'ihecke': {0: 3, 1: 6, 2: 6, 3: 5, 4: 4}, 'shecke': {0: 2, 2: 3, 4: 6}}


def bounds(rng, kind, n):
    lim = LIM[kind].get(n, 3)
    c = rng.randrange(4)
    if c == 0:
        return -1, rng.choice([1, 2] if kind != 'ihecke' else [0, 1] if n > 2 else [0, 1, 2])
    b = rng.randrange(lim + 1)
    if c == 1:
        return b, -1
    return b, rng.choice([1, 2, 3])


def run_session(sess, rec):
    rng = rec.rng
    I = words
    if sess[0] == 'small':
        todo = [('red', w) for n in range(4) for w in elts(n, 'red')] + [('red', w) for n in range(3) for w in signed_elts(n)]
        todo += [('inv', w) for n in range(5) for w in elts(n, 'inv')] + [('inv', w) for n in range(4) for w in signed_elts(n) if w * w == P()]
        todo += [('fpf', w) for n in (0, 2, 4, 6) for w in elts(n, 'fpf')]
        for j, (kind, w) in enumerate(todo):
            if j % 24 == sess[1]:
                rec.event('list', req(kind, w), get_list(kind, w), I)
                one(kind, w, rec, rng)
                rec.event('list', req(kind, w), get_list(kind, w, prop=True), I)
    elif sess[0] == 'reduced':
        for _ in range(6):
            kind = rng.choice(['red', 'inv', 'fpf'])
            w = pick(rng, kind)
            rec.event('list', req(kind, w), get_list(kind, w), I)
            one(kind, w, rec, rng)
            # an element below it, after the caches have been filled by the larger one, and the same one again
            s = rng.randrange(2)
            rec.event('list', req(kind, w), get_list(kind, w, prop=True), I)
        if sess[1] == 0:
            rec.event('list', req('red', P(5, 4, 3, 2, 1)), get_list('red', P(5, 4, 3, 2, 1)), I)
            rec.event('list', req('inv', P(5, 4, 3, 2, 1)), get_list('inv', P(5, 4, 3, 2, 1)), I)
            rec.event('list', req('fpf', P(6, 5, 4, 3, 2, 1)), get_list('fpf', P(6, 5, 4, 3, 2, 1)), I)
        if sess[1] == 1:
            rec.event('list', req('red', P(-1, -2, -3)), get_list('red', P(-1, -2, -3)), I)
            rec.event('list', req('inv', P(-1, -2, -3)), get_list('inv', P(-1, -2, -3)), I)
            rec.event('list', req('fpf', P(4, 6, 8, 1, 7, 2, 5, 3)), get_list('fpf', P(4, 6, 8, 1, 7, 2, 5, 3)), I)
    elif sess[0] == 'bounded':
        if sess[1] % 6 == 0:
            # one word of large letters: the enumeration walks through every short word of the rank
            kind = ['hecke', 'ihecke', 'shecke'][sess[1] // 6 % 3]
            n = rng.choice([8, 10, 12])
            w = rand_elt(rng, n, 2) if kind == 'hecke' else rand_inv(rng, n, 2) if kind == 'ihecke' else rand_fpf(rng, n, 2)
            if kind == 'shecke' or w.rank:
                rec.event('list', req(kind, w, bound=2), get_list(kind, w, 2), I)
        for _ in range(5):
            kind = rng.choice(['hecke', 'ihecke', 'shecke'])
            if rng.random() < .6:
                w = pick(rng, kind)
                b, s = bounds(rng, kind, w.rank)
                rec.event('list', req(kind, w, bound=b, stat=s), get_list(kind, w, b, s), I)
            else:
                n = rng.choice([0, 2, 4] if kind == 'shecke' else [0, 1, 2, 3])
                b, s = bounds(rng, kind, n)
                he = rng.random() < .6
                if kind != 'hecke' and (not he or rng.random() < .5):
                    f = P.symplectic_hecke_levels if kind == 'shecke' else P.involution_hecke_levels
                    g = lambda: list(f(n, None if b < 0 else b, None if s < 0 else s, he))
                    rec.event('levels', req(kind, None, n, b, s, hecke=he), g,
                              lambda Ls: [[[list(p.oneline), words([w])[0]] for p, w in L] for L in Ls])
                    if kind == 'shecke' and not he:
                        rec.event('all', req(kind, None, n, b, s, hecke=he),
                                  lambda: list(P.symplectic_hecke_words(n, None if b < 0 else b, None if s < 0 else s, False)), I)
                else:
                    rec.event('all', req(kind, None, n, b, s), lambda: list(open_gen(kind, None, n, b, s)), I)
                    if kind == 'hecke':
                        rec.event('levels', req(kind, None, n, b, s), lambda: list(P.hecke_levels(n, None if b < 0 else b, None if s < 0 else s)),
                                  lambda Ls: [[[list(p.oneline), words([w])[0]] for p, w in L] for L in Ls])
    elif sess[0] == 'again':
        # the same rank again and again: with and without the words of the Hecke monoid, other bounds, other statistics
        kind = ['ihecke', 'shecke'][sess[1] % 2]
        n = rng.choice([2, 4, 4] if kind == 'shecke' else [2, 3])
        stat = rng.choice([-1, rng.choice([1, 2, 3])])
        for _ in range(6):
            b = rng.randrange(1, LIM[kind][n])
            s = stat if rng.random() < .75 else rng.choice([-1, 1, 2])
            he = rng.random() < .5
            f = P.symplectic_hecke_levels if kind == 'shecke' else P.involution_hecke_levels
            g = lambda: list(f(n, b, None if s < 0 else s, he))
            c = rng.randrange(3)
            if c == 0:
                w = pick(rng, kind)
                while w.rank > n:
                    w = pick(rng, kind)
                rec.event('list', req(kind, w, bound=b, stat=s), get_list(kind, w, b, s), I)
            elif c == 1 and kind == 'shecke':
                rec.event('all', req(kind, None, n, b, s, hecke=he), lambda: list(P.symplectic_hecke_words(n, b, None if s < 0 else s, he)), I)
            else:
                rec.event('levels', req(kind, None, n, b, s, hecke=he), g, lambda Ls: [[[list(p.oneline), words([w])[0]] for p, w in L] for L in Ls])
    elif sess[0] == 'eval':
        for _ in range(12):
            n = rng.choice([2, 3, 4, 5, 6])
            kind = rng.choice(['inv', 'inv', 'fpf'])
            lo = rng.choice([0, 1]) if kind == 'inv' else 1
            w = tuple(rng.randrange(lo, n) for _ in range(rng.randrange(0, 8)))
            if rng.random() < .5 and kind == 'inv':
                w = w[:4]
            if rng.random() < .5 and kind == 'fpf' and w:
                w = rand_fpf(rng, n + n % 2, 6).get_fpf_involution_word() + ((rng.randrange(1, n),) if rng.random() < .5 else ())
            f = P.from_involution_word if kind == 'inv' else P.from_fpf_involution_word
            v = list(w) if rng.random() < .3 else w
            for strict in (True, False):
                if kind == 'inv' and not strict and 0 in w:
                    continue
                g = (lambda: f(v)) if strict and rng.random() < .5 else (lambda: f(v, strict=strict))
                rec.event('eval', dict(kind=kind, word=list(w), strict=strict), g, lambda r: [0] if r is None else list(r.oneline))
    else:
        # several enumerations opened, advanced, abandoned and restarted in any order
        fam = rng.choice([['hecke'], ['ihecke'], ['shecke'], ['red', 'inv'], ['fpf', 'inv', 'red'], ['hecke', 'shecke', 'ihecke']])
        live = {}
        pool = []
        for _ in range(3):
            kind = rng.choice(fam)
            if kind in ('red', 'inv', 'fpf') or rng.random() < .4:
                w = pick(rng, kind)
                n = w.rank
            else:
                w, n = None, rng.choice([2, 4, 4] if kind == 'shecke' else [2, 3])
            if kind in ('red', 'inv', 'fpf'):
                b, s = -1, -1
            else:
                b, s = bounds(rng, kind, n)
            pool.append((kind, w, n, b, s))
        for _ in range(40):
            if len(live) < 2 or (len(live) < 4 and rng.random() < .15):
                g = rng.choice([i for i in range(1, 5) if i not in live])
                kind, w, n, b, s = rng.choice(pool)
                if b >= 0 and rng.random() < .3:
                    b = max(0, b - 1)
                r = req(kind, w, n, b, s, all=w is None)
                r['g'] = g
                box = []
                rec.event('open', r, lambda: box.append(open_gen(kind, w, n, b, s)), lambda x: '')
                if box:
                    live[g] = box[0]
                continue
            g = rng.choice(sorted(live))
            burst = rng.choice([1, 1, 2, 3, 8, 30, 100])
            for _ in range(burst):
                st = {}

                def step():
                    try:
                        return next(live[g])
                    except StopIteration:
                        st['done'] = True
                        return ()
                # "done" is a field of the event, so run first and log after
                val, exc = None, None
                try:
                    val = step()
                except Exception as ex:
                    exc = ex

                def replay():
                    if exc is not None:
                        raise exc
                    return val
                rec.event('next', dict(g=g, done=bool(st.get('done'))), replay, lambda t: words([t])[0])
                if st.get('done') or exc is not None or rec.dead:
                    del live[g]
                    break
            if rec.dead:
                break
            if g in live and rng.random() < .1:
                del live[g]      # abandoned half-way
