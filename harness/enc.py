"""Encoders from the library's public values to JSON values (the projection used by the trace specifications)."""
from check import BadValue
from polynomials import Polynomial

BIG = 900001


def idx(i):
    if i == Polynomial.MAX_INT:
        return BIG
    if i == Polynomial.MIN_INT:
        return -BIG
    return i


def unidx(i):
    return Polynomial.MAX_INT if i == BIG else Polynomial.MIN_INT if i == -BIG else i


def need_int(x):
    if type(x) is not int:
        raise BadValue('expected an integer, got %s' % type(x).__name__)
    return x


def need_bool(x):
    if type(x) is not bool:
        raise BadValue('expected a boolean, got %s' % type(x).__name__)
    return x


def mono(m):
    return [[idx(need_int(i)), need_int(m[i])] for i in sorted(m)]


def poly(p):
    """Polynomial (or int) -> [[ [[var, exp], ...], coeff ], ...] in the order the value stores them."""
    if type(p) is int:
        return [[[], p]] if p else []
    if not isinstance(p, Polynomial):
        raise BadValue('expected a polynomial, got %s' % type(p).__name__)
    return [[mono(m), need_int(p.coeffs[m])] for m in p.coeffs]


def unpoly(js):
    from polynomials import HashableDict
    return Polynomial({HashableDict({unidx(i): e for i, e in m}): c for m, c in js})


def part(mu):
    if not isinstance(mu, (tuple, list)):
        raise BadValue('expected a partition, got %s' % type(mu).__name__)
    return [need_int(a) for a in mu]
