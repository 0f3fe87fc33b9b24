"""Crystal operators on tuples of words and on tableaux, and the crystal graphs."""
import ast
import glob
import itertools
import os
import re
import shutil
import tempfile
from words import Word
from permutations import Permutation
from crystals import TableauCrystalGenerator, WordCrystalGenerator, ShiftedCrystalGenerator, OrthogonalSetvaluedShiftedCrystalGenerator, URTShiftedCrystalGenerator, MRTShiftedCrystalGenerator, MRT_Symplectic_ShiftedCrystalGenerator
import tabs
import enc
import instab
import shapes
from tabs import T
from drivers.c04 import rand_elt

TRACE_SPEC = 'C08Trace'
MODELS = [('CrystalsModel', 'CrystalsModel.cfg', ('quick', 'thorough')), ('CrystalsModel', 'CrystalsModelDeep.cfg', ('thorough',))]
FORK = True
ASSUMPTIONS = ['Crystal graphs have at most 150 vertices; drawings are judged by the edges in the dot files, with a stand-in for the dot program.']
NS = 16
WCG = WordCrystalGenerator
FIXED = dict(urt=URTShiftedCrystalGenerator, mrt=MRTShiftedCrystalGenerator, mrtsp=MRT_Symplectic_ShiftedCrystalGenerator)


def sessions(tier, rng):
    big = tier != 'quick'
    out = [('words', i) for i in range(NS)] + [('fixed', c) for c in FIXED]
    for m, n in (('rwords', 100), ('tabs', 160), ('factor', 60), ('tgraph', 40), ('wgraph', 40), ('sgraph', 40)):
        out += [(m, i) for i in range(n * (20 if big else 4))]
    return out


def words(t):
    if t is None:
        return []
    if not isinstance(t, tuple) or not t:
        raise enc.BadValue('expected a nonempty tuple of words')
    return [instab.word(a) for a in t]


def flat(t):
    if t is None:
        return []
    w = instab.word(t)
    if not w:
        raise enc.BadValue('expected a nonempty word')
    return w


def onwords(i, t, rec, unpack):
    f = dict(i=i, words=[list(a) for a in t], unpack=unpack)
    kw = {} if unpack else dict(unpack=False)
    code = flat if unpack and len(t) <= 1 else words
    rec.event('wf', f, lambda: Word.f_crystal_operator(i, *t, **kw), code)
    rec.event('we', f, lambda: Word.e_crystal_operator(i, *t, **kw), code)


def split(w, rng):
    cut = sorted(rng.randrange(len(w) + 1) for _ in range(rng.choice([0, 0, 1, 2, 3])))
    cut = [0] + cut + [len(w)]
    return tuple(w[a:b] for a, b in zip(cut, cut[1:]))


def random_tab(rng, multi, mu, n, nu=()):
    """A random semistandard (multi)set-valued filling of mu/nu with entries at most n (if it fits), else None."""
    t = {}
    for i, part in enumerate(mu, 1):
        for j in range((nu[i - 1] if i <= len(nu) else 0) + 1, part + 1):
            lo = max(max(t.get((i, j - 1), (1,))), max(t.get((i - 1, j), (0,))) + 1)
            top = n - (len([r for r in range(i, len(mu)) if mu[r] >= j]))
            if lo > top:
                return None
            v = [lo + (0 if rng.random() < .55 else rng.randrange(0, top - lo + 1))]
            while rng.random() < .4 and len(v) < 4:
                v.append(min(top, v[-1] + rng.choice([0, 1, 1, 2])))
            t[i, j] = tuple(sorted(v)) if multi else tuple(sorted(set(v)))
    return T(t)


def maybe(t):
    if t is None:
        return []
    x = tabs.tab(t)
    if not x:
        raise enc.BadValue('an operator returned the empty tableau')
    return x


EDGE = re.compile(r'"([^"]*)"\s*->\s*"([^"]*)"\s*\[label="([^"]*)"\]', re.S)


def by_printed(g):
    """index of the element with a given printed form; every element must have its own"""
    out = {str(x): k for k, x in enumerate(g.elements)}
    if len(out) != len(g.elements):
        raise enc.BadValue('two elements are printed alike')
    return lambda s: out[s]


def by_array(g):
    out = {str(x): k for k, x in enumerate(g.arrays)}
    if len(out) != len(g.arrays):
        raise enc.BadValue('two elements are printed alike')
    return lambda s: out[s]


def by_blocks(g):
    out = {(tuple(w), tuple(i)): k for k, (w, i) in enumerate(g.elements)}

    def index(s):
        blocks = [ast.literal_eval(x) for x in re.findall(r'\([^()]*\)', s)]
        if len(blocks) != g.num_factors or ''.join(str(x) for x in blocks).replace(' ', '') != s.replace(' ', ''):
            raise enc.BadValue('label %r' % s[:40])
        return out[sum(blocks, ()), sum((len(x) * (k + 1,) for k, x in enumerate(blocks)), ())]
    return index


def drawn(g, label):
    """what generate() writes: for every dot file the edges it draws, and whether the dot program was run on it"""
    if len(g.components) > 9:
        return dict(drawn=False, files=[])
    d = tempfile.mkdtemp(prefix='dots.')
    try:
        os.mkdir(d + '/bin')
        with open(d + '/bin/dot', 'w') as f:
            f.write('#!/bin/sh\nwhile [ $# -gt 0 ]; do case "$1" in -o) out="$2"; shift;; -*) ;; *) in="$1";; esac; shift; done\ncp "$in" "$out"\n')
        os.chmod(d + '/bin/dot', 0o755)
        os.environ['PATH'] = d + '/bin:' + os.environ.get('PATH', '')
        for a in ('dot', 'png'):
            for b in ('sets', 'multisets'):
                for c in ('orthogonal', 'symplectic'):
                    os.makedirs('%s/%s/%s/%s' % (d, a, b, c))
        for cls in (TableauCrystalGenerator, WordCrystalGenerator, ShiftedCrystalGenerator):
            cls.DIRECTORY = d + '/'
        g.generate()
        files = []
        read = lambda kind: [open(x).read() for x in sorted(glob.glob(d + '/%s/**/*.%s' % (kind, kind), recursive=True))]
        pngs = read('png')
        index = label(g)
        for text in read('dot'):
            lines = EDGE.findall(text)
            if text.count('->') != len(lines) or not re.fullmatch(r'digraph\s*\w*\s*\{.*\}\s*', text, re.S):
                raise enc.BadValue('a dot file is malformed')
            files.append([[index(x), index(y), int(i)] for x, y, i in lines])
            if text not in pngs:
                raise enc.BadValue('a dot file was not rendered')
            pngs.remove(text)
        if pngs:
            raise enc.BadValue('rendered something else')
        return dict(drawn=True, files=files)
    finally:
        shutil.rmtree(d)


def graph(g, elements, label):
    return dict(drawn(g, label), elements=elements(g), edges=[[enc.need_int(a) for a in x] for x in g.edges], comps=[sorted(c) for c in g.components],
                strings=[[[enc.need_int(a) for a in s] for s in g.istrings(i)] for i in range(1, g.rank)])


def run_session(sess, rec):
    rng = rec.rng
    mode = sess[0]
    if mode == 'words':
        todo = [w for m in range(6) for w in itertools.product(range(1, 4), repeat=m)]
        for j, w in enumerate(todo):
            if j % NS == sess[1]:
                for i in (1, 2):
                    onwords(i, split(w, rng), rec, rng.random() < .5)
    elif mode == 'fixed':
        for mu, k, x in (((2,), 2, 0), ((2, 1), 3, 0), ((2,), 2, 1)):
            rec.event('fixedtab', dict(cls=sess[1], mu=list(mu), rank=k, excess=x), lambda: FIXED[sess[1]](mu, k, x), lambda g: tabs.tabs(g.elements))
    elif mode == 'rwords':
        for _ in range(3):
            lo = rng.choice([1, 1, 1, -2, 0, 8])
            k = rng.choice([2, 3, 4])
            w = tuple(rng.randrange(lo, lo + k) for _ in range(rng.choice([6, 8, 10, 14, 20])))
            for i in range(lo, lo + k):
                onwords(i, split(w, rng) if rng.random() < .7 else (w,), rec, rng.random() < .5)
    elif mode == 'tabs':
        for _ in range(4):
            multi = rng.random() < .5
            sh = tuple(shapes.random_partition(rng, rng.choice([1, 2, 3, 4, 5, 6, 8, 11, 14]), False))
            nu = ()
            if not multi and rng.random() < .25:
                nu = tuple(rng.choice([x for x in map(tuple, shapes.sub(sh))]))
            n = rng.choice([2, 3, 4, 5, 7])
            t = random_tab(rng, multi, sh, n, nu)
            if t is None or not t.boxes:
                continue
            s = rng.choice([0, 0, 0, 3, 7, 9])
            t = T({b: tuple(v + s for v in t.boxes[b]) for b in t.boxes})
            f = dict(t=tabs.tab(t), multi=multi)
            for i in range(max(1, s), s + n):
                mode_kw = {} if multi and rng.random() < .5 else dict(multisetvalued=multi)
                rec.event('tf', dict(f, i=i), lambda: t.f_crystal_operator(i, **mode_kw), maybe)
                rec.event('te', dict(f, i=i), lambda: t.e_crystal_operator(i, **mode_kw), maybe)
            if multi:
                r = rec.event('read', dict(t=f['t']), lambda: t.crystal_reading_word(), lambda c: [instab.word(a) for a in c])
                if r is not None:
                    rec.event('unread', dict(t=f['t']), lambda: T.from_crystal_reading_word(r), tabs.tab)
    elif mode == 'factor':
        for _ in range(3):
            top = rng.choice([2, 3, 5])
            s = rng.choice([0, 0, 7])
            w = tuple(s + rng.randrange(1, top + 1) for _ in range(rng.randrange(0, 8)))
            if rng.random() < .3:
                w = tuple(sorted(w, reverse=rng.random() < .5))
            k = rng.randrange(0, 5)
            dec = rng.random() < .5
            kw = dict(decreasing=dec) if dec or rng.random() < .5 else {}
            rec.event('factor', dict(word=list(w), k=k, dec=dec), lambda: list(WCG.get_increasing_factorizations(w, k, **kw)),
                      lambda L: [[instab.word(a) for a in t] for t in L])
            t = split(w, rng)
            rec.event('array', dict(words=[list(a) for a in t]), lambda: WCG.factorization_tuple_to_array(t), lambda x: [instab.word(x[0]), instab.word(x[1])])
    elif mode == 'tgraph':
        name = rng.choice(['ss', 'sv', 'sv'])
        n = rng.choice([1, 2, 2, 3, 3, 4])
        lim = {'ss': {1: 5, 2: 6, 3: 5, 4: 4}, 'sv': {1: 5, 2: 5, 3: 3, 4: 2}}[name][n]
        mu = tuple(rng.choice(list(map(tuple, shapes.upto(lim)))))
        rec.event('tgraph', dict(mu=list(mu), max=n, setv=name == 'sv'),
                  lambda: TableauCrystalGenerator(mu, n, **({} if name == 'sv' else dict(setvalued=False))), lambda g: graph(g, lambda g: tabs.tabs(g.elements), by_printed), 120)
    elif mode == 'wgraph':
        if sess[1] % 8 == 7:
            w = rand_elt(rng, rng.choice([6, 12]), 2)
            ell = 2
        else:
            w = rand_elt(rng, rng.choice([3, 4]), rng.choice([2, 3, 4]))
            ell = len(w) + rng.choice([0, 0, 1])
        k = rng.choice([2, 3, 3, 4])
        dec = rng.random() < .5
        ws = [a for a in w.get_hecke_words(length_bound=ell) if len(a) == ell]
        if len(ws) * k ** min(ell, 3) > 700:
            return
        rec.event('wgraph', dict(w=list(w.oneline), rank=max(w.rank, 1), k=k, length=ell, dec=dec), lambda: WCG(tuple(w.oneline), k, ell, dec),
                  lambda g: graph(g, lambda g: [[instab.word(a), instab.word(b)] for a, b in g.elements], by_blocks), 120)
    else:
        mu = rng.choice([(1,), (2,), (3,), (2, 1), (1,), (2,), (3,), (3, 1)])
        sp = rng.random() < .5
        multi = rng.random() < .5
        excess = rng.choice([0, 0, 1]) if sum(mu) > 2 else rng.choice([0, 1, 2])
        k = rng.choice([2, 3]) if sum(mu) + excess > 2 else rng.choice([2, 3, 4])
        z = Permutation.get_fpf_grassmannian(*mu) if sp else Permutation.get_inv_grassmannian(*mu)
        ell = (z.fpf_involution_length if sp else z.involution_length) + excess
        one = list(z.oneline)
        args = (mu, k, excess, multi, sp)

        def make():
            if multi and not sp and rng.random() < .5:
                return ShiftedCrystalGenerator(mu, k, excess)
            if not multi and not sp and rng.random() < .5:
                return OrthogonalSetvaluedShiftedCrystalGenerator(mu, k, excess)
            return ShiftedCrystalGenerator(*args)
        rec.event('sgraph', dict(w=one, rank=len(one), k=k, length=ell, multi=multi, sp=sp), make,
                  lambda g: dict(graph(g, lambda g: tabs.tabs(g.elements), by_array), p=tabs.tab(g.insertion_tableau),
                                 arrays=[[[a.get(2, j) for j in range(1, ell + 1)], [a.get(1, j) for j in range(1, ell + 1)]] for a in g.arrays]), 120)
