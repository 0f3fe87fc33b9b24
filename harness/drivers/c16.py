"""Partition operations: exhaustive for small shapes, random for larger ones, and walks in (shifted) Young's lattice."""
from partitions import Partition
import enc
import shapes

TRACE_SPEC = 'C16Trace'
MODELS = [('ShapesModel', 'ShapesModel.cfg', ('quick', 'thorough')), ('ShapesModel', 'ShapesModelDeep.cfg', ('thorough',))]
P = Partition


def sessions(tier, rng):
    big = tier != 'quick'
    out = []
    for mu in shapes.upto(9 if big else 7):
        out.append(('ordinary', mu))
    for mu in shapes.strict_upto(15 if big else 11):
        out.append(('strict', mu))
    for i in range(2000 if big else 600):
        out.append(('random', i))
        out.append(('walk', i))
    for n in range(0, 12 if big else 11):
        out.append(('generate', n))
    return out


def lst(x):
    return [enc.part(p) for p in x]


def boxes(x):
    return [[enc.need_int(a), enc.need_int(b)] for a, b in x]


def opt(rng, **kw):
    """keyword arguments; those that have their default value may be left out"""
    default = dict(shifted=False, strict=False, even_parts=False, max_part=None, max_row=None, nu=(), first_row_bound=1, trim=False)
    return {k: v for k, v in kw.items() if v != default[k] or rng.random() < .5}


def maybe(fn):
    def g():
        try:
            r = fn()
        except Exception:
            return []
        return [] if r is None else [enc.part(r)]
    return g


def common(rec, mu, sh):
    """queries that make sense for both kinds of shapes"""
    E = rec.event
    m = list(mu)
    E('shape', dict(mu=m, sh=sh), lambda: P.shifted_shape(mu) if sh else P.shape(mu), boxes)
    E('from_shape', dict(mu=m), lambda: P.from_shape(P.shifted_shape(mu) if sh else P.shape(mu)), enc.part)
    for i in range(0, len(mu) + 3):
        E('get', dict(mu=m, i=i), lambda: P.get(mu, i), enc.need_int)
        for j in range(0, (mu[0] if mu else 0) + 3):
            E('isin', dict(mu=m, i=i, j=j, sh=sh), (lambda: P.isin_shifted(mu, i, j)) if sh else (lambda: P.isin(mu, i, j)), enc.need_bool)
    for z in range(3):
        w = mu + z * (0,)
        E('trim', dict(mu=list(w)), lambda: P.trim(w), enc.part)
        E('is_partition', dict(mu=list(w)), lambda: P.is_partition(w), enc.need_bool)
    E('is_strict', dict(mu=m), lambda: P.is_strict(mu), enc.need_bool)
    E('is_strict', dict(mu=m), lambda: P.is_strict_partition(mu), enc.need_bool)
    E('successors', dict(mu=m, strict=sh), lambda: list(P.successors(mu, **opt(rec.rng, strict=sh))), lst)


def pair(rec, mu, nu, sh):
    E = rec.event
    m, n = list(mu), list(nu)
    E('skew', dict(mu=m, nu=n, sh=sh), lambda: P.skew(mu, nu, **opt(rec.rng, shifted=sh)), boxes)
    if sh:
        E('shifted_skew', dict(mu=m, nu=n), lambda: P.shifted_shape(mu, nu), boxes)
        E('merge_shifted', dict(mu=n, boxes=[list(b) for b in sorted(P.shifted_shape(mu, nu))]),
          lambda: P.merge_shifted(nu, P.shifted_shape(mu) - P.shifted_shape(nu)), enc.part)
    E('from_skew', dict(mu=m, nu=n, sh=sh), lambda: P.from_skew(P.skew(mu, nu, sh), **opt(rec.rng, shifted=sh)), lambda r: [enc.part(r[0]), enc.part(r[1])])
    if sum(mu) <= 20 or sum(mu) - sum(nu) <= 6:
        E('subpartitions', dict(mu=m, nu=n, strict=sh), lambda: list(P.subpartitions(mu, **opt(rec.rng, nu=nu, strict=sh))), lst)
    E('union', dict(mu=m, nu=n), lambda: P.union(mu, nu), enc.part)
    E('contains', dict(mu=m, nu=n), lambda: P.contains(mu, nu), enc.need_bool)
    E('contains', dict(mu=n, nu=m), lambda: P.contains(nu, mu), enc.need_bool)
    padded = nu + (len(mu) - len(nu)) * (0,)
    E('contains', dict(mu=m, nu=list(padded)), lambda: P.contains(mu, padded), enc.need_bool)
    keys(rec, mu, nu, sh)
    picture(rec, mu, nu, sh)


def moved(rng, mu, nu):
    """another pair whose skew shape resembles the one of (mu, nu): columns put in front, rows put on top, a part changed"""
    nu = tuple(nu) + (0,) * (len(mu) - len(nu))
    a, b = list(mu), list(nu)
    how = rng.randrange(5)
    if how in (0, 2) and a:
        c = rng.randrange(1, 3)
        a, b = [x + c for x in a], [x + c for x in b]
    if how in (1, 2, 4):
        t = (a[0] if a else 0) + rng.randrange(0, 3) + 1
        a, b = [t] + a, [t] + b
    if how == 3 and a:
        a[0] += 1
        b[0] += rng.randrange(0, 2)
    if how == 4 and len(a) > 1:
        b[1] += 1
        a[1] += 1
    return a, b


def keys(rec, mu, nu, sh):
    rng = rec.rng
    for _ in range(2):
        a, b = moved(rng, mu, nu)
        while b and not b[-1]:
            b.pop()
        good = lambda p: all(p[i] > p[i + 1] if sh else p[i] >= p[i + 1] for i in range(len(p) - 1))
        if not (good(a) and good(b) and all(x <= y for x, y in zip(b, a))):
            continue
        a, b = tuple(a), tuple(b)
        rec.event('skewkey', dict(mu=list(mu), nu=list(nu), la=list(a), ka=list(b), sh=sh),
                  lambda: P.skew_key(mu, nu, **opt(rec.rng, shifted=sh)) == P.skew_key(a, b, **opt(rec.rng, shifted=sh)), enc.need_bool)


def picture(rec, mu, nu, sh):
    rec.event('printable', dict(mu=list(mu), nu=list(nu), sh=sh, french=bool(P.FRENCH)),
              lambda: P.printable(mu, nu if nu or len(mu) % 2 else None, **opt(rec.rng, shifted=sh)), lambda s: [list(t) for t in s.split('\n')] if s else [])


def pictures(rec, mus, sh):
    mus = [mu for mu in mus if mu]
    rec.event('printables', dict(mus=[list(mu) for mu in mus], sh=sh, french=bool(P.FRENCH)),
              lambda: (P.shifted_printables if sh else P.printables)(*mus), lambda s: [list(t) for t in s.split('\n')] if s else [])


def strict_ops(rec, mu, big=True):
    E = rec.event
    m, rng = list(mu), rec.rng
    E('remove_shifted_inner_corners', dict(mu=m), lambda: list(P.remove_shifted_inner_corners(mu)), lst)
    E('ribbon_complements', dict(mu=m), lambda: list(P.shifted_ribbon_complements(mu)), lst)
    E('by_rims', dict(mu=m), lambda: P.decompose_shifted_shape_by_rims(mu), lst)
    E('by_vertical_strips', dict(mu=m), lambda: P.decompose_shifted_shape_by_vertical_strips(mu), lst)
    E('decrement_strict', dict(mu=m), lambda: P.decrement_strict(mu), enc.part)
    if mu:
        E('decrement_one', dict(mu=m), lambda: P.decrement_one(mu), enc.part)
    for i in range(1, len(mu) + 2):
        E('remove_shifted_inner_corner', dict(mu=m, i=i), maybe(lambda: P.remove_shifted_inner_corner(mu, i)))
    for d in range(0, (mu[0] if mu else 0) + 3):
        E('outer_corner', dict(mu=m, d=d), lambda: P.find_shifted_outer_corner(mu, d), lambda r: 0 if r is None else enc.need_int(r))
        E('inner_corner', dict(mu=m, d=d), lambda: P.find_shifted_inner_corner(mu, d), lambda r: 0 if r is None else enc.need_int(r))
    for n in range((max(mu) if mu else 0), (max(mu) if mu else 0) + 3):
        E('complement', dict(mu=m, n=n), lambda: P.complement(n, mu), enc.part)
    for bound in [0, 1, 2, 3]:
        r = E('rims', dict(mu=m, bound=bound), lambda: list(P.rims(mu, **opt(rng, first_row_bound=bound))), lambda r: [boxes(x) for x in r])
        if bound in (1, 2):
            for rim in r or []:
                t = sorted(rim, key=lambda b: (-b[0], b[1]))
                E('rim_terminal', dict(rim=[list(b) for b in t]), lambda: P.rim_terminal_part(rim), boxes)


def run_session(sess, rec):
    E = rec.event
    rng = rec.rng
    kind, arg = sess
    if kind == 'ordinary':
        mu, m = arg, list(arg)
        common(rec, mu, False)
        E('transpose', dict(mu=m), lambda: P.transpose(mu), enc.part)
        E('remove_inner_corners', dict(mu=m), lambda: list(P.remove_inner_corners(mu)), lst)
        for i in range(1, len(mu) + 2):
            E('remove_inner_corner', dict(mu=m, i=i), maybe(lambda: P.remove_inner_corner(mu, i)))
        subs = list(shapes.sub(mu))
        if sum(mu) > 6:
            subs = rng.sample(subs, min(len(subs), 12))
        for nu in subs:
            pair(rec, mu, nu, False)
        # strict partitions inside a shape that need not be strict
        E('subpartitions', dict(mu=m, nu=[], strict=True), lambda: list(P.subpartitions(mu, (), True)), lst)
        for nu in rng.sample(list(shapes.upto(6)), 6):
            E('contains', dict(mu=m, nu=list(nu)), lambda: P.contains(mu, nu), enc.need_bool)
            E('union', dict(mu=m, nu=list(nu)), lambda: P.union(mu, nu), enc.part)
        w = list(mu) + rng.choice([[], [0], [3, 0], [1, 5]])
        rng.shuffle(w)
        for tr in (False, True):
            E('sort', dict(mu=w, trim=tr), lambda: P.sort(w, **opt(rng, trim=tr)), enc.part)
        w = tuple(w)
        E('is_partition', dict(mu=list(w)), lambda: P.is_partition(w), enc.need_bool)
        for v in (w[::-1], mu + (-1,), tuple(x - 1 for x in mu) + (0,), tuple(x - 2 for x in mu)):
            E('is_partition', dict(mu=list(v)), lambda: P.is_partition(v), enc.need_bool)
        pictures(rec, [mu] + [p for p in rng.sample(list(shapes.upto(6)), 2) if p], False)
    elif kind == 'strict':
        mu = arg
        common(rec, mu, True)
        strict_ops(rec, mu)
        pictures(rec, rng.sample(list(shapes.strict_upto(7)), 2) + [mu], True)
        subs = list(shapes.sub_strict(mu))
        if len(subs) > 24:
            subs = rng.sample(subs, 24)
        for nu in subs:
            pair(rec, mu, nu, True)
    elif kind == 'random':
        for sh in (False, True):
            mu = shapes.random_partition(rng, rng.randrange(10, 19 if sh else 15), sh)
            common(rec, mu, sh)
            for _ in range(2):
                pair(rec, mu, shapes.random_sub(rng, mu, sh), sh)
            wide = shapes.random_partition(rng, rng.randrange(20, 45), sh, rng.choice([4, 9, 15, 22]))
            pair(rec, wide, shapes.random_sub(rng, wide, sh), sh)
            for i in range(1, len(wide) + 2):
                if sh:
                    E('remove_shifted_inner_corner', dict(mu=list(wide), i=i), maybe(lambda: P.remove_shifted_inner_corner(wide, i)))
                else:
                    E('remove_inner_corner', dict(mu=list(wide), i=i), maybe(lambda: P.remove_inner_corner(wide, i)))
            E('successors', dict(mu=list(wide), strict=sh), lambda: list(P.successors(wide, strict=sh)), lst)
            if not sh:
                E('transpose', dict(mu=list(wide)), lambda: P.transpose(wide), enc.part)
            if sh:
                strict_ops(rec, mu)
            else:
                E('transpose', dict(mu=list(mu)), lambda: P.transpose(mu), enc.part)
                E('remove_inner_corners', dict(mu=list(mu)), lambda: list(P.remove_inner_corners(mu)), lst)
                for i in range(1, len(mu) + 2):
                    E('remove_inner_corner', dict(mu=list(mu), i=i), maybe(lambda: P.remove_inner_corner(mu, i)))
    elif kind == 'generate':
        n = arg
        for mp in [None] + list(range(0, n + 2)):
            for mr in [None] + list(range(0, n + 2)):
                for strict in (False, True):
                    for even in (False, True):
                        if n > 7 and rng.random() > (.1 if n > 8 else .3):
                            continue
                        f = dict(n=n, mp=-1 if mp is None else mp, mr=-1 if mr is None else mr, strict=strict, even=even)
                        E('generate', f, lambda: list(P.generate(n, **opt(rng, max_part=mp, max_row=mr, strict=strict, even_parts=even))), lst)
                        if (mp is None or mp in (1, 3)) and (mr is None or mr in (0, 2)) or rng.random() < .04:
                            it = P.all(n, max_part=mp, max_row=mr, strict=strict, even_parts=even)
                            next(it, None)      # a half-consumed enumeration is left behind
                            E('all', f, lambda: list(P.all(n, **opt(rng, max_part=mp, max_row=mr, strict=strict, even_parts=even))), lst)
                            E('generate', f, lambda: list(P.generate(n, max_part=mp, max_row=mr, strict=strict, even_parts=even)), lst)
        if n > 9:
            return
        E('compositions', dict(n=n), lambda: P.compositions(n), lst)
        E('peak_compositions', dict(n=n), lambda: P.peak_compositions(n), lst)
        if n <= 6:
            E('shifted_ribbons', dict(n=n), lambda: list(P.shifted_ribbons(n)), lambda r: [[enc.part(a), enc.part(b)] for a, b in r])
        for a in P.compositions(n) if n < 7 else []:
            if a:
                E('shifted_ribbon', dict(a=list(a)), lambda: P.shifted_ribbon(a), lambda r: [enc.part(x) for x in r])
        for mu in shapes.parts(n):
            for nu in shapes.parts(min(n, 4)):
                E('contains', dict(mu=list(mu), nu=list(nu)), lambda: P.contains(mu, nu), enc.need_bool)
    elif kind == 'walk':
        sh = arg % 2 == 0
        cur = ()
        ok = lambda p: all(p[i] > p[i + 1] for i in range(len(p) - 1)) if sh else all(p[i] >= p[i + 1] for i in range(len(p) - 1))

        def up(p, i):
            q = list(p) + [0]
            q[i - 1] += 1
            return tuple(x for x in q if x)
        for _ in range(24 if arg % 8 else 70):
            adds = [i for i in range(1, len(cur) + 2) if ok(up(cur, i))]
            if cur and rng.random() < .3:
                downs = []
                for i in range(1, len(cur) + 1):
                    q = list(cur)
                    q[i - 1] -= 1
                    if ok(tuple(q)) and (q[i - 1] > 0 or i == len(q)):
                        downs.append(i)
                i = rng.choice(downs)
                fn = (lambda: P.remove_shifted_inner_corner(cur, i)) if sh else (lambda: P.remove_inner_corner(cur, i))
                new = E('walk_remove', dict(i=i), fn, enc.part)
            else:
                i = rng.choice(adds)
                how = rng.randrange(3)
                if how == 0:
                    new = E('walk_add', dict(i=i), lambda: P.add(cur, i), enc.part)
                elif how == 1:
                    new = E('walk_add_row', dict(i=i), lambda: P.add_box_to_row(cur, i), enc.part)
                else:
                    j = (cur[i - 1] if i <= len(cur) else 0) + 1 + (i - 1 if sh else 0)
                    new = E('walk_add_col', dict(j=j, sh=sh), lambda: P.add_box_to_column(cur, j, sh), enc.part)
            if new is None or not ok(new) or any(x <= 0 for x in new):
                break
            cur = tuple(new)
