#!/usr/bin/env python3
"""Writes /verif/known_findings.json: genuine defects recorded (status known) or repaired (status fixed)."""
import json
import os
F = []


def known(id, prop, what, clause, **fields):
    F.append(dict(id=id, property=prop, status='known', what=what, match=dict(clause=clause, fields=fields)))


def fixed(prop, commit, what):
    F.append(dict(id='fixed-%s-%s' % (prop.lower(), commit), property=prop, status='fixed',
                  line='fixed: property=%s %s %s' % (prop, commit, what), what=what))


known('upper-transitions-empty', 'C06',
      'Permutation.upper_transitions(r) returns no transition although covers exist: it tests the length of t*w*t instead of w*t',
      'missing_upper_transition', op='up', res=[])
known('lower-transitions-empty', 'C06',
      'Permutation.lower_transitions(r) returns no transition although covers exist: it tests the length of t*w*t instead of w*t',
      'missing_lower_transition', op='down', res=[])
for c, n in (('urt', 'URTShiftedCrystalGenerator'), ('mrt', 'MRTShiftedCrystalGenerator'), ('mrtsp', 'MRT_Symplectic_ShiftedCrystalGenerator')):
    known('crystal-%s-not-constructible' % c, 'C08', n + ' cannot be constructed: its tableaux property has no setter, so the base class raises AttributeError',
          'raised_in_fixedtab', op='fixedtab', cls=c)
known('printed-tableau-does-not-decode', 'C21',
      'Tableau(str(t)) turns a tableau of several rows upside down: printing lists rows bottom-up (FRENCH), the string decoder reads them top-down '
      '(the repository test test_from_string asserts equality and fails)',
      'printed_string_does_not_decode', op='reparse', res=[[1, 1, [3]], [2, 1, [1]], [2, 2, [2]]])
known('unprime-repeats-a-letter', 'C24',
      'unprime_diagonal puts the letter 3\' twice into one box: a primed letter entering a box that already holds it displaces the next larger entry',
      'letter_repeated_in_a_box', op='probe', name='repeat', res=[[[1, 1, [-1]], [1, 2, [1]], [1, 3, [-3, -3]], [1, 4, [3]], [2, 2, [2]]]])
known('unprime-row-grows-by-two', 'C24',
      'unprime_diagonal adds two boxes to the second row (the repository test asserts at most one on its instances)',
      'row_grows_by_more_than_one_box', op='probe', name='jump',
      res=[[[1, 1, [1]], [1, 2, [1]], [1, 3, [1, 2]], [1, 4, [-3]], [1, 5, [3]], [2, 2, [2]], [2, 3, [-3, 3]], [2, 4, [3]]]])
known('unprime-collision', 'C24',
      'unprime_diagonal sends two tableaux of shape (4,2) to the same set-valued tableau',
      'two_tableaux_with_one_image', op='probe', name='collide',
      res=[[[1, 1, [1]], [1, 2, [1]], [1, 3, [1]], [1, 4, [-2, 2]], [1, 5, [-3, 2]], [2, 2, [2]], [2, 3, [2]], [2, 4, [-3]]]] * 2)
fixed('C14', '5c71883', 'Polynomial.monomial negative powers dropped the sign of the coefficient')
fixed('C14', 'c0a3f6d', 'equal polynomials printed and hashed differently depending on the order of their terms')
fixed('C14', '76a397b', 'Polynomial.divide_linear raised NameError (undefined function x)')
fixed('C14', '726c379', 'a constant Polynomial equals an integer but hashed differently, so equal SymmetricPolynomials with int and constant Polynomial coefficients hashed differently')
fixed('C13', '726c379', 'equal SymmetricPolynomials with int and constant Polynomial coefficients hashed differently')
fixed('C16', '37e84c5', 'Partition.from_skew looped forever on the empty set of positions')
fixed('C16', '30b0bfa', 'Partition.printables passed its shifted flag as another argument')
fixed('C16', '98a4ed3', 'Partition.shifted_ribbons returned inner shapes shorter than the outer shape requires')
fixed('C03', 'd690459', 'Permutation ** 0 returned the permutation itself')
fixed('C05', '0d50468', 'is_fpf_grassmannian raised or accepted elements that are not unsigned fixed-point-free involutions')
fixed('C06', '8486c87', 'involution_bruhat_covers and fpf_involution_bruhat_covers raised AttributeError on non-reduced subwords')
fixed('C04', '2c9742e', 'interleaved word enumerations skipped levels and corrupted the shared level cache')
fixed('C10', '4bb20da', 'reading an absent weight of a returned count table added an entry to the cached table and to all later answers')
fixed('C08', '61d6556', 'istrings of a set-valued tableau crystal used the multiset rule to find string starts and lost vertices')
fixed('C13', '2745afc', 'SymmetricMonomial - int, int - SymmetricMonomial and SymmetricMonomial == nonzero int raised TypeError')
fixed('C11', '52de0d3', 'gs and js of a skew shape whose inner partition has more rows than the outer one were 1 instead of 0')
fixed('C11', 'e736c26', 'the README names schur, schur_P, schur_Q, schur_S and dual_grothendieck, _P, _Q did not exist in utils')
fixed('C12', '9b35007', 'gp_free_expansion raised AttributeError on functions with a constant term')
fixed('C19', 'f324804', 'in_same_group of two vertically adjacent boxes read the join of the upper box instead of the lower one')
fixed('C19', '2009f54', 'valued-set transitions failed (assertion or no involution) when a diagonal neighbour held a third value')
fixed('C20', '33772fd', 'operator_shifted_row_remove and operator_shifted_column_remove dropped the coefficients of the combination they act on')
fixed('C20', 'af3b8a8', 'shape operators returned the integer 0 instead of the zero vector, so composing after a vanishing step raised AttributeError')
fixed('C20', '0a196bc', 'BoxOperator.commutator(n) raised AssertionError for every n (X(-1))')
EXTRA = []
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
json.dump(F, open(path, 'w'), indent=1)
