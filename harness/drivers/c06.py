"""Atoms, Bruhat covers, covering operations and transition sets."""
import itertools
from permutations import Permutation
import enc
from drivers.c03 import elt, rand, rand_inv
from drivers import c04

TRACE_SPEC = 'C06Trace'
MODELS = [('AtomsModel', 'AtomsModel.cfg', ('quick', 'thorough')), ('AtomsModel', 'AtomsModelDeep.cfg', ('thorough',))]
FORK = True
P = Permutation
ASSUMPTIONS = ['Transition sets are those with the other index inside the window of the element (rank, or rank + 2 for fpf upper transitions).']


def elts(L):
    return [elt(w) for w in L]


def ints(L):
    return [enc.need_int(i) for i in L]


def sessions(tier, rng):
    big = tier != 'quick'
    out = [('inv', i) for i in range(40)] + [('signed', i) for i in range(32)] + [('fpf', i) for i in range(32)]
    out += [('perm', i) for i in range(32)]
    out += [('random', i) for i in range(5000 if big else 600)]
    out += [('many', i) for i in range(80 if big else 16)]
    out += [('sparse', i) for i in range(1500 if big else 240)]
    return out


def inv_facts(w, rec, rng, trans=True):
    f = dict(w=list(w.oneline))
    fl = lambda op, g: rec.event(op, f, g, elts)
    fl('atoms', lambda: w.get_atoms())
    rec.event('minatom', f, lambda: w.get_min_atom(), elt)
    fl('icovers', lambda: list(w.involution_bruhat_covers()))
    if rng.random() < .2:
        fl('atoms', lambda: w.get_atoms())
    if all(i > 0 for i in w.oneline) and trans:
        n = w.rank
        for i in range(1, n + 2):
            for j in range(i + 1, n + 3):
                rec.event('tau', dict(f, i=i, j=j), lambda: w.tau(i, j), elt)
        for r in range(1, n + 2):
            rec.event('iup', dict(f, r=r), lambda: list(w.upper_involution_transitions(r)), ints)
            rec.event('idown', dict(f, r=r), lambda: list(w.lower_involution_transitions(r)), ints)
    if sum(1 for i in w.oneline if i < 0) % 2 == 0:
        fl('datoms', lambda: w.get_atoms_d())


def fpf_facts(w, rec, rng):
    f = dict(w=list(w.oneline))
    fl = lambda op, g: rec.event(op, f, g, elts)
    fl('fatoms', lambda: w.get_fpf_atoms())
    fl('fcovers', lambda: list(w.fpf_involution_bruhat_covers()))
    for r in range(1, w.rank + 1):
        rec.event('fup', dict(f, r=r), lambda: list(w.upper_fpf_involution_transitions(r)), ints)
        rec.event('fdown', dict(f, r=r), lambda: list(w.lower_fpf_involution_transitions(r)), ints)
    if rng.random() < .3:
        fl('fatoms', lambda: w.get_fpf_atoms())


def perm_facts(w, rec, rng, some=None):
    f = dict(w=list(w.oneline))
    rec.event('covers', f, lambda: list(w.bruhat_covers()), elts)
    if all(i > 0 for i in w.oneline):
        for r in range(1, w.rank + 1) if some is None else [rng.randrange(1, w.rank + 1) for _ in range(some) if w.rank]:
            rec.event('up', dict(f, r=r), lambda: list(w.upper_transitions(r)), ints)
            rec.event('down', dict(f, r=r), lambda: list(w.lower_transitions(r)), ints)


def signed(n):
    return [P(*[a * b for a, b in zip(p, s)]) for p in itertools.permutations(range(1, n + 1)) for s in itertools.product([1, -1], repeat=n)]


def run_session(sess, rec):
    rng = rec.rng
    k = sess[1]
    part = lambda L, m: [w for j, w in enumerate(L) if j % m == k]
    unsigned = lambda n: [P(*w) for m in range(n + 1) for w in itertools.permutations(range(1, m + 1)) if m == 0 or w[-1] != m]
    if sess[0] == 'inv':
        for w in part([w for w in unsigned(5) if w * w == P()], 40):
            inv_facts(w, rec, rng, True)
    elif sess[0] == 'signed':
        for w in part([w for w in signed(3) if w * w == P()], 32):
            inv_facts(w, rec, rng)
        for w in part([w for w in signed(4) if w * w == P() and w.rank == 4], 32):
            f = dict(w=list(w.oneline))
            rec.event('atoms', f, lambda: w.get_atoms(), elts)
            rec.event('minatom', f, lambda: w.get_min_atom(), elt)
    elif sess[0] == 'fpf':
        for w in part([w for n in (0, 2, 4, 6) for w in (P(*x) for x in itertools.permutations(range(1, n + 1))) if w.rank == n and w * w == P()
                       and all(w(i) != i for i in range(1, n + 1))], 32):
            fpf_facts(w, rec, rng)
    elif sess[0] == 'perm':
        for w in part(unsigned(4) + signed(2) + rng.sample(signed(3), 24), 32):
            perm_facts(w, rec, rng)
    elif sess[0] == 'many':
        # near the longest element: many atoms
        n = 8 if k == 0 else 7
        w = P(*range(n, 0, -1))
        for _ in range(0 if k < 2 else rng.randrange(1, 6)):
            i = rng.choice(sorted(w.right_descent_set))
            s = P.s_i(i)
            w = w * s if s * w == w * s else s * w * s
        rec.event('atoms', dict(w=list(w.oneline)), lambda: w.get_atoms(), elts)
        rec.event('minatom', dict(w=list(w.oneline)), lambda: w.get_min_atom(), elt)
        z = P(*range(8, 0, -1))
        for _ in range(rng.randrange(0, 4) if k else 0):
            i = rng.choice([i for i in z.right_descent_set if z(i) != i + 1])
            z = P.s_i(i) * z * P.s_i(i)
        rec.event('fatoms', dict(w=list(z.oneline)), lambda: z.get_fpf_atoms(), elts)
    elif sess[0] == 'sparse':
        # few letters, large window
        n = rng.choice([8, 9, 10, 11])
        perm_facts(c04.rand_elt(rng, n, 5), rec, rng, 3)
        perm_facts(c04.rand_elt(rng, 6, 8, True), rec, rng)
        w = c04.rand_inv(rng, n, 4)
        f = dict(w=list(w.oneline))
        rec.event('atoms', f, lambda: w.get_atoms(), elts)
        rec.event('minatom', f, lambda: w.get_min_atom(), elt)
        for _ in range(6):
            i = rng.randrange(1, n)
            j = rng.randrange(i + 1, n + 2)
            rec.event('tau', dict(f, i=i, j=j), lambda: w.tau(i, j), elt)
        w = c04.rand_inv(rng, rng.choice([7, 8]), 6)
        f = dict(w=list(w.oneline))
        rec.event('icovers', f, lambda: list(w.involution_bruhat_covers()), elts)
        for r in rng.sample(range(1, w.rank + 1), min(2, w.rank)):
            rec.event('iup', dict(f, r=r), lambda: list(w.upper_involution_transitions(r)), ints)
            rec.event('idown', dict(f, r=r), lambda: list(w.lower_involution_transitions(r)), ints)
        z = c04.rand_fpf(rng, 10, 4)
        rec.event('fatoms', dict(w=list(z.oneline)), lambda: z.get_fpf_atoms(), elts)
        z = c04.rand_fpf(rng, 8, 6)
        f = dict(w=list(z.oneline))
        rec.event('fcovers', f, lambda: list(z.fpf_involution_bruhat_covers()), elts)
        for r in rng.sample(range(1, z.rank + 1), min(2, z.rank)):
            rec.event('fup', dict(f, r=r), lambda: list(z.upper_fpf_involution_transitions(r)), ints)
            rec.event('fdown', dict(f, r=r), lambda: list(z.lower_fpf_involution_transitions(r)), ints)
    else:
        perm_facts(P(*rand(rng, rng.choice([5, 6]), False)), rec, rng)
        perm_facts(P(*rand(rng, rng.choice([3, 4]), True)), rec, rng)
        if k % 3 == 0:
            inv_facts(P(*rand_inv(rng, rng.choice([4, 5, 6]), False)), rec, rng, rng.random() < .5)
        elif k % 3 == 1:
            w = P(*rand_inv(rng, 4, True))
            rec.event('atoms', dict(w=list(w.oneline)), lambda: w.get_atoms(), elts)
            if sum(1 for i in w.oneline if i < 0) % 2 == 0:
                rec.event('datoms', dict(w=list(w.oneline)), lambda: w.get_atoms_d(), elts)
        else:
            w = P()
            z = P(2, 1, 4, 3, 6, 5, 8, 7)
            for _ in range(rng.randrange(7)):
                i = rng.randrange(1, 8)
                if z(i) < z(i + 1):
                    z = P.s_i(i) * z * P.s_i(i)
            rec.event('fatoms', dict(w=list(z.oneline)), lambda: z.get_fpf_atoms(), elts)
            r = rng.randrange(1, z.rank + 1)
            rec.event('fup', dict(w=list(z.oneline), r=r), lambda: list(z.upper_fpf_involution_transitions(r)), ints)
            rec.event('fdown', dict(w=list(z.oneline), r=r), lambda: list(z.lower_fpf_involution_transitions(r)), ints)
