"""Common part of the insertion drivers: words, records and tableau pairs made without the code under test."""
import itertools
import tabs
import enc
from tableaux import Tableau as T
from insertion import InsertionAlgorithm as I, HState, FState

KINDS = ('hecke', 'orth', 'sp')
FWD = {'hecke': lambda w, r, m: I.hecke(w, r, m), 'orth': lambda w, r, m: I.orthogonal_hecke(w, r, m), 'sp': lambda w, r, m: I.symplectic_hecke(w, r, m)}
BACK = {'hecke': lambda p, q, m: I.inverse_hecke(p, q, m), 'orth': lambda p, q, m: I.inverse_orthogonal_hecke(p, q, m),
        'sp': lambda p, q, m: I.inverse_symplectic_hecke(p, q, m)}
STATE = {'hecke': HState, 'orth': FState, 'sp': FState}


def symplectic(w):
    n = (max(w) if w else 1) + 2
    n += n % 2
    z = [0] + [i + 1 if i % 2 else i - 1 for i in range(1, n + 1)]
    for i in w:
        if z[i] == i + 1:
            return False
        if z[i] < z[i + 1]:
            a, b = z[i], z[i + 1]
            z[i], z[i + 1] = b, a
            z[a], z[b] = i + 1, i
    return True


def walk(kind, rng, top, m):
    """A random word in the domain of the kind."""
    w = ()
    while len(w) < m:
        mode = rng.random()
        if w and mode < .15:
            a = w[-1]
        elif w and mode < .5:
            a = max(1, min(top, w[-1] + rng.choice([-2, -1, 1, 2])))
        else:
            a = rng.randrange(1, top + 1)
        if kind != 'sp' or symplectic(w + (a,)):
            w += (a,)
        elif kind == 'sp' and not w:
            w = (2 * rng.randrange(1, top // 2 + 1),)
    return w


def record(w, multi, rng):
    r, c = [], rng.choice([1, 1, 1, 2, 3])
    for i in range(len(w)):
        if i:
            strict = w[i - 1] > w[i] if multi else w[i - 1] <= w[i]
            c += rng.choice([1, 1, 2, 4]) if strict else rng.choice([0, 0, 0, 1, 2])
        r.append(c)
    return tuple(r)


def legal(w, r, multi):
    return all(a <= b for a, b in zip(r, r[1:])) and all(r[i] < r[i + 1] for i in range(len(w) - 1) if (w[i] > w[i + 1] if multi else w[i] <= w[i + 1]))


def small(kind, m, top):
    for k in range(m + 1):
        for w in itertools.product(range(1, top + 1), repeat=k):
            if kind != 'sp' or symplectic(w):
                yield w


def word(w):
    if not isinstance(w, tuple):
        raise enc.BadValue('a word is a tuple')
    return [enc.need_int(i) for i in w]


def pair(x):
    p, q = x
    return [tabs.tab(p), tabs.tab(q)]


def state(s):
    return dict(t=tabs.tab(s.tableau), outer=[] if s.outer is None else [enc.need_int(i) for i in s.outer])
