"""Word statistics, sums over cuts of a word into blocks, wiring diagrams."""
import itertools
from words import Word
from vectors import Vector
import enc

TRACE_SPEC = 'C22Trace'
MODELS = [('WordsModel', 'WordsModel.cfg', ('quick', 'thorough')), ('WordsModel', 'WordsModelDeep.cfg', ('thorough',))]
ASSUMPTIONS = ['Words have at most 14 letters (block sums at most 8); the caps below the strands of a fixed-point-free diagram are not specified.']
Z = dict(inc=Word.increasing_zeta, dec=Word.decreasing_zeta, winc=Word.weakly_increasing_zeta, wdec=Word.weakly_decreasing_zeta,
         uni=Word.unimodal_zeta, runi=Word.right_weakly_unimodal_zeta, luni=Word.left_weakly_unimodal_zeta, wuni=Word.weakly_unimodal_zeta)
ANY = dict(Z, span=lambda a: a[0] - 2 * a[-1] + len(a) if a else 0, one=lambda a: 1)
CHARS = {'\u2502': '|', '\u2588': '#', '\u2572': '\\', '\u2571': '/', '\u2573': 'X', '\u2570': '(', '\u2500': '-', '\u256f': ')'}
NS = 16


def sessions(tier, rng):
    big = tier != 'quick'
    return [('small', i) for i in range(NS)] + [('random', i) for i in range(10000 if big else 2000)] + [('draw', i) for i in range(6000 if big else 1000)]


def cuts(v):
    if not isinstance(v, Vector):
        raise enc.BadValue('expected a vector')
    return [[enc.part(k), enc.need_int(c)] for k, c in v.items()]


def stats(w, rec, rng, full):
    f = dict(word=list(w))
    rec.event('descents', f, lambda: Word.descent_set(w), lambda s: sorted(enc.need_int(i) for i in s))
    rec.event('ascents', f, lambda: Word.ascents(w), enc.need_int)
    rec.event('peaks', f, lambda: Word.peaks(w), enc.need_int)
    for z in Z if full else rng.sample(sorted(Z), 4):
        rec.event('zeta', dict(f, zeta=z), lambda: Z[z](w), enc.need_int)
    if len(w) > 8:
        # few cuts: blocks must be strictly monotone
        for z, up in (('inc', True), ('dec', False)):
            if sum((a < b) if up else (a > b) for a, b in zip(w, w[1:])) <= 7:
                rec.event('cuts', dict(f, zeta=z), lambda: Word.quasisymmetrize(w, ANY[z]), cuts)
    if len(w) <= 8:
        for z in rng.sample(sorted(ANY), 2):
            if len(w) <= 6 or z not in ('one', 'span'):
                rec.event('cuts', dict(f, zeta=z), lambda: Word.quasisymmetrize(w, ANY[z]), cuts)


def lines(s):
    if not isinstance(s, str):
        raise enc.BadValue('a diagram is a string')
    return [''.join(CHARS.get(c, c) for c in x) for x in s.split('\n')]


def draw(w, rec, rng):
    lab = None
    if w and rng.random() < .4:
        lab = [str(rng.randrange(10, 99)) for _ in w]
    arg = None if lab is None else dict(enumerate(lab, 1)) if rng.random() < .5 else [''] + lab
    f = dict(labels=lab or [])
    holes = tuple(i if rng.random() < .8 else None for i in w) if rng.random() < .4 else w
    if any(i is not None for i in holes) or not holes:
        rec.event('wiring', dict(f, word=[i or 0 for i in holes]), lambda: Word.wiring_diagram(holes, arg), lines)
    rec.event('iwiring', dict(f, word=list(w)), lambda: Word.involution_wiring_diagram(w, arg), lines)
    rec.event('fwiring', dict(f, word=list(w)), lambda: Word.fpf_involution_wiring_diagram(w, arg), lines)


def run_session(sess, rec):
    rng = rec.rng
    if sess[0] == 'small':
        todo = [w for m in range(5) for w in itertools.product(range(1, 4), repeat=m)]
        for j, w in enumerate(todo):
            if j % NS == sess[1]:
                stats(w, rec, rng, True)
                if len(w) < 4:
                    draw(w, rec, rng)
    elif sess[0] == 'random':
        for _ in range(3):
            lo = rng.choice([1, 1, -3, 0])
            k = rng.choice([5, 6, 7, 8, 9, 14])
            w = tuple(rng.randrange(lo, lo + rng.choice([2, 3, 4, 9])) for _ in range(k))
            mode = rng.random()
            if mode < .25:
                w = tuple(sorted(w))
            elif mode < .5:
                w = tuple(sorted(w, reverse=True))
            elif mode < .75:
                j = rng.randrange(k + 1)
                w = tuple(sorted(w[:j], reverse=True)) + tuple(sorted(w[j:]))
            stats(w, rec, rng, True)
    else:
        top = rng.choice([2, 3, 4, 5, 9, 11])
        draw(tuple(rng.randrange(1, top + 1) for _ in range(rng.randrange(1, 8 if rng.random() < .8 else 14))), rec, rng)
