#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one source for ids, titles and statements)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


prop('C01', 'Hecke, orthogonal and symplectic insertion follow the published rules',
     'Inserting any word of positive integers (with any compatible record, set-valued or multiset-valued) by Hecke, '
     'orthogonal-Hecke or symplectic-Hecke insertion returns exactly the insertion and recording tableaux defined by the '
     'bumping rules, and the stepwise insertion states pass through exactly the intermediate states those rules prescribe. '
     'The insertion tableau is increasing along rows and columns and its reading word is equivalent to the input word; the '
     'recording tableau has the same shape and holds each recorded letter once.',
     ['inputs', 'programs'], 'every word, every compatible record, every letter size; symplectic insertion over symplectic Hecke words',
     'Tests compare a handful of words or check word equivalence classes on small sizes; the bumping rules have many cases '
     '(row/column passage, diagonal, blocked boxes) that need particular longer words to arise together.',
     ['insertion.py', 'tableaux.py'],
     [('insertion state', 'tableau plus the box outside it that is being inserted', 'HState/FState in insertion.py')],
     [('bumping transitions', 'HState.next, FState.next in insertion.py'), ('entry points', 'InsertionAlgorithm.hecke / orthogonal_hecke / symplectic_hecke')],
     ['return values of the insertion entry points', 'the sequence of states yielded by stepping an insertion state'])

prop('C02', 'Insertion is invertible and loses nothing',
     'Applying the inverse insertion to the pair of tableaux produced from any word and record returns exactly that word and '
     'that record, for Hecke, orthogonal-Hecke and symplectic-Hecke insertion, in set-valued and multiset-valued form. '
     'Conversely every valid pair of tableaux of one shape is the image of the word and record that the inverse returns, and '
     'undoing one insertion step restores the previous state exactly.',
     ['inputs'], 'every word and compatible record; every pair (increasing tableau, set- or multiset-valued recording tableau) of the same shape',
     'Tests round-trip small alphabets only; an inverse rule that is wrong for one configuration needs a specific tableau pair.',
     ['insertion.py', 'tableaux.py'],
     [('insertion state', 'tableau plus pending box', 'HState/FState in insertion.py')],
     [('inverse transitions', 'HState.previous, FState.previous in insertion.py'), ('inverse entry points', 'InsertionAlgorithm.inverse_*')],
     ['return values of inverse insertion', 'previous() after next()'])

prop('C03', 'Signed permutations form a group with the 0-Hecke product',
     'Signed permutation composition, inverse, integer powers, lengths, descent sets, signs and cycles agree with the action on signed '
     'integers, whatever the ranks of the operands and however a value was obtained; equal actions compare and hash equal. '
     'The Demazure (0-Hecke) product is associative, agrees with composition exactly when lengths add, and every word '
     'evaluates under it to the element that reading the word left to right gives. A permutation applied to a tableau acts on its entries.',
     ['inputs', 'histories'], 'all pairs and triples of signed permutations, all words of generators, any sequence of operations on shared values',
     'Tests fix a few permutations of rank at most 4 or 5 and never mix ranks, signs and powers.',
     ['permutations.py'],
     [('one-line word', 'trimmed sequence of signed images', 'Permutation.oneline')],
     [('product', 'Permutation.__mul__'), ('Demazure product', 'Permutation.__mod__'), ('words', 'Permutation.from_word')],
     ['return values of the Permutation operators and statistics'])

prop('C04', 'Word enumerators list each word of an element exactly once',
     'For every permutation, the reduced-word, Hecke-word, involution-word, involution-Hecke-word, fixed-point-free involution-word and '
     'symplectic-Hecke-word enumerators return exactly the words (up to the requested length) that evaluate to that permutation '
     'under the corresponding action, each one once; signed permutations likewise for reduced and signed involution words. '
     'Counting functions agree with the number of words listed, and the answer does not depend on earlier or partial enumerations.',
     ['inputs', 'histories'], 'all permutations and length bounds; all interleavings of full and partially consumed enumerations',
     'Tests enumerate S_3..S_5 once in one order; shared caches filled by partially consumed generators make the answer depend on history.',
     ['permutations.py'],
     [('word caches', 'module-level tables of words found so far', 'HECKE_CACHE and relatives in permutations.py')],
     [('level-by-level generation', 'Permutation.hecke_levels and relatives'), ('descent recursion', 'Permutation.get_reduced_words and relatives')],
     ['sets and multiplicities of words returned'])

prop('C05', 'Involutions, Grassmannian elements, codes and shapes are classified exactly',
     'The generators of all permutations, involutions, fixed-point-free involutions and (involution/fpf) Grassmannian elements list exactly '
     'the elements with the defining property once each (the Grassmannian generators: one element for each partition, strict partition or strict partition inside the staircase of the rank), and the matching predicates accept exactly the elements with the property. '
     'Codes, involution codes, Rothe diagrams and shapes satisfy their defining conditions, determine the element, and get_*_grassmannian of a '
     'partition is the element with that shape. The printed diagrams mark exactly the boxes of the diagram.',
     ['inputs', 'configurations'], 'all permutations of every rank, all partitions, each signedness flag',
     'Tests only check counts or a few examples; predicates are evaluated on elements already known to satisfy them.',
     ['permutations.py'],
     [('one-line word', 'trimmed sequence of signed images', 'Permutation.oneline')],
     [('generators', 'Permutation.all / involutions / grassmannians'), ('codes and shapes', 'Permutation.code / shape / involution_shape / fpf_involution_shape')],
     ['returned elements, codes, diagrams, shapes and predicate values'])

prop('C06', 'Atoms, Bruhat covers and transition formulas match their definitions',
     'The atoms of an involution (ordinary and fixed-point-free) are exactly the minimal-length permutations whose conjugation product gives it; '
     'cover enumerators return exactly the covers of the element obtained by transpositions within its window. '
     'The involution covering operation is the one of the definition, and the transition sets at an index list exactly the covers with one index there, so that they balance the corresponding word counts.',
     ['inputs'], 'all permutations and (fpf-)involutions of every rank, all index pairs',
     'Tests check word counts on small rank for a subset of the enumerators.',
     ['permutations.py'],
     [('one-line word', 'trimmed sequence of signed images', 'Permutation.oneline')],
     [('atoms', 'Permutation.get_atoms / get_fpf_atoms / get_min_atom'), ('covers', 'Permutation.bruhat_covers and relatives, tau operators')],
     ['returned sets of permutations and index pairs'])

prop('C07', 'Little bumps are word-preserving bijections',
     'Pushing and bumping a reduced, involution or fpf-involution word terminates with a reduced word of the corresponding kind of the same length and the same '
     'descent set, whose element is the one obtained from the original by the corresponding pair of Bruhat moves. '
     'Bumps are injective on the words of a fixed element, and bumping at a transposition that does not occur in the word changes nothing.',
     ['inputs'], 'all reduced/involution/fpf words and all legal crossing pairs',
     'Tests bump a few words; termination and injectivity quantify over every word.',
     ['permutations.py'],
     [('nearly reduced word', 'word with one marked letter', 'Permutation.little_push and relatives')],
     [('bump loop', 'Permutation.little_bump / involution_little_bump / fpf_little_bump')],
     ['returned words'])

prop('C08', 'Crystal operators are partial inverses given by the signature rule',
     'On tuples of words, factorizations and semistandard (set- or multiset-valued) tableaux, each raising/lowering operator pair acts as '
     'the signature rule says, is mutually inverse where defined, moves the weight by one simple root and is undefined exactly at the ends of a string. '
     'The crystal graphs built from them contain every object of the family once, with exactly those edges and with well-formed components, and the generated dot files draw each component and the whole graph.',
     ['inputs'], 'all tuples of words, all tableaux of every shape and maximum entry, all operator indices',
     'Tests check isolated strings or shapes; bracket matching errors need particular patterns of equal letters.',
     ['words.py', 'tableaux.py', 'crystals.py'],
     [('signature', 'sequence of brackets read from the object', 'Word.f_crystal_operator, Tableau.f_crystal_operator')],
     [('signature rule', 'words.py'), ('tableau operators', 'tableaux.py'), ('graphs', 'crystals.py')],
     ['operator results', 'edges and components of the crystal graphs'])

prop('C09', 'Tableau generators list exactly the tableaux of their kind',
     'For every skew or straight shape, maximum entry and option, each tableau generator (semistandard, set-valued, marked, shifted, reverse plane '
     'partition and their combinations, standard ones) returns exactly the fillings meeting the definition, each once. '
     'Repeated and interleaved calls give the same answer.',
     ['inputs', 'configurations', 'histories'], 'all partitions mu containing nu, all maximum entries, all diagonal/set-size options, any call order',
     'Tests compare against counts of the same code or a few lists; skew shifted shapes, diagonal options and larger alphabets are not reached.',
     ['tableaux.py', 'partitions.py'],
     [('partial filling', 'shape filled with entries up to some value', 'Tableau.semistandard* in tableaux.py')],
     [('strip-by-strip generation', 'Tableau.semistandard* and relatives'), ('strips', 'Tableau strip helpers')],
     ['returned sets of tableaux'])

prop('C10', 'Tableau counts are the weight enumerators of the tableaux',
     'For every shape, variable count and option, each count_semistandard* table gives for each partition weight exactly the number of tableaux '
     'of that weight of the kind counted, with no other entries.',
     ['inputs', 'configurations'], 'all partitions mu containing nu, all numbers of variables, all options',
     'Tests only compare counts with generators of the same file on a few shapes.',
     ['tableaux.py', 'partitions.py'],
     [('weight table', 'partition weight to number of tableaux', 'Tableau.count_semistandard*')],
     [('peeling off the largest entry', 'Tableau.count_semistandard* in tableaux.py')],
     ['returned tables'])

prop('C11', 'Schur-type and K-theoretic functions have the defining coefficients',
     'In any number of variables and for every partition or skew shape, each constructor of Schur, Schur-P/Q/S, (shifted) stable Grothendieck, their doubled-skew and sign variants, and the dual '
     'functions returns the symmetric polynomial whose coefficients enumerate the defining tableaux with the right power of the K-theory parameter, up to the '
     'requested degree. The Grothendieck functions of permutations and involutions enumerate the factorizations of the corresponding Hecke words.',
     ['inputs', 'configurations'], 'all (skew, strict) partitions, numbers of variables, degree bounds; all permutations',
     'Tests check identities between functions on a few shapes, so consistent errors in both sides are invisible.',
     ['symmetric.py', 'tableaux.py', 'permutations.py', 'utils.py'],
     [('symmetric polynomial', 'monomial-symmetric basis table over polynomials in beta', 'SymmetricPolynomial in symmetric.py')],
     [('constructors', 'SymmetricPolynomial.schur .. dual_stable_grothendieck_s'), ('from Hecke words', 'Permutation.stable_grothendieck and relatives')],
     ['coefficients of the returned symmetric polynomials'])

prop('C12', 'Basis expansions are exact and reconstruct the function',
     'Expanding a symmetric polynomial in any offered basis returns coefficients whose linear combination of the corresponding basis functions is the '
     'original polynomial in the given number of variables; for the families that are bases (Schur, P, Q, G, GP, GQ, g, gp, gq, j, jp, jq and their sign variants) expanding a known combination returns exactly its coefficients. '
     'For the families that are not bases (S, GS, gs, js) this is promised for combinations of one-row functions; the free expansion in one-row gp functions reconstructs the function.',
     ['inputs'], 'all finite combinations of basis elements, all bases, all numbers of variables large enough to hold them',
     'Tests expand single products; cancellation, mixed degree and coefficients in beta are not systematically reached.',
     ['symmetric.py', 'vectors.py'],
     [('remainder', 'the part of the function not yet expanded', 'SymmetricPolynomial.*_expansion in symmetric.py')],
     [('leading-term peeling', 'SymmetricPolynomial expansion routines')],
     ['expansion vectors'])

prop('C13', 'Symmetric polynomial arithmetic agrees with ordinary polynomials',
     'Sums, products, scalar multiples, powers, truncation and degree parts of symmetric polynomials correspond, after expansion in variables, to the same operations on ordinary polynomials; '
     'products of monomial symmetric functions have exactly the coefficients of the polynomial product. '
     'Equal values compare equal, hash equal and print the same, monomials are ordered by their exponents, and operands are unchanged.',
     ['inputs', 'histories'], 'all monomial symmetric functions, coefficients in beta, and operation sequences on shared values',
     'Tests multiply a few small monomials.',
     ['symmetric.py', 'vectors.py', 'polynomials.py'],
     [('symmetric polynomial', 'monomial-symmetric basis table', 'SymmetricPolynomial')],
     [('product', 'SymmetricMonomial multiplication')],
     ['coefficients of results', 'operands after the operation'])

prop('C14', 'Laurent polynomials form a commutative ring with faithful equality',
     'Sums, differences, products, powers, scalar operations, the K-theoretic sum, coefficient extraction, truncation, substitution and evaluation of multivariate Laurent polynomials are exactly those of the ring of integer Laurent polynomials, '
     'in whatever order a value is built and without changing operands. Equal polynomials compare equal, hash equal and print the same, and a constant polynomial equals and hashes like its integer; p < q holds exactly when every coefficient of q - p is nonnegative; a polynomial that is not a monomial with coefficient 1 or -1 has no negative power (None).',
     ['inputs', 'histories'], 'all sequences of operations on all polynomials, with positive and negative variable indices and exponents',
     'Tests add and multiply a few polynomials; equality, hashing and printing depend on construction history.',
     ['polynomials.py'],
     [('coefficient table', 'exponent map to integer coefficient', 'Polynomial.coeffs')],
     [('arithmetic', 'Polynomial.__add__, __mul__, __pow__'), ('printing and hashing', 'Polynomial.__repr__, __hash__')],
     ['values, strings and hashes of results', 'operands after the operation'])

prop('C15', 'Formal linear combinations behave as a free module',
     'Sums, differences, scalar multiples, products, powers and negation of vectors are those of formal linear combinations over the key set, never keep zero coefficients, and leave operands unchanged; the result of a sum, difference, multiple or product carries the product rule and the printer of its operands. '
     'Row reduction of an integer matrix preserves the rational row space in echelon form, and a vector is reported expressible exactly when it lies in the rational span of the others.',
     ['inputs', 'histories'], 'all vectors and matrices over the integers, all operation sequences',
     'Tests use tiny hand-written vectors.',
     ['vectors.py'],
     [('coefficient table', 'key to non-zero coefficient', 'Vector.dictionary')],
     [('arithmetic', 'Vector operators'), ('row reduction', 'Vector.rref, Vector.is_expressable')],
     ['coefficients of results', 'reduced matrices and verdicts'])

prop('C16', 'Partition operations match their diagram definitions',
     'Generation, containment, transposition, complement, skew diagrams and their keys and pictures, corners, successors, strips, ribbons, rims, compositions and box addition/removal on partitions and strict partitions return exactly what the Young (or shifted) diagram definition gives, each object once, '
     'for every partition, including the empty one.',
     ['inputs', 'configurations'], 'all partitions, skew pairs, bounds and strict/even options',
     'Tests check a few shapes; boundary cases (first row, diagonal, empty inner shape) are sampled once.',
     ['partitions.py'],
     [('partition', 'weakly decreasing sequence of positive parts', 'tuples in partitions.py')],
     [('diagram operations', 'Partition class methods')],
     ['returned partitions and sets'])

prop('C17', 'Growth diagrams obey the local rules and encode insertion',
     'Every cell of a growth diagram satisfies the local rule relating its four corners, for the ordinary diagram of any array of nonnegative integers and the shifted diagram of any word; '
     'the boundary chains of the ordinary diagram are those of RSK and the tableaux read off the shifted diagram are those of orthogonal Hecke insertion.',
     ['inputs'], 'all arrays of nonnegative integers and all words',
     'Tests compare with insertion for short words only.',
     ['partitions.py', 'tableaux.py'],
     [('growth table', 'partition at each grid point with edge labels', 'Partition.growth_diagram, Partition.shifted_growth_diagram')],
     [('local rules', 'Partition.growth_diagram / shifted_growth_diagram'), ('reading off', 'Tableau.from_shifted_growth_diagram')],
     ['returned tables and tableaux'])

prop('C18', 'KOG and KLG tableaux give the Pieri and coproduct coefficients',
     'The KOG and KLG generators return exactly the fillings of shifted ribbons satisfying the defining conditions, once each, and their count tables agree with them for every shape, number and grouping. '
     'Those counts are the structure constants of multiplying GP and GQ by a one-row function, and the one-letter shifted tableau counts of the coproduct rule are those of multiplying gp and gq.',
     ['inputs'], 'all strict partitions and row sizes',
     'Tests check the identities on small shapes with both sides from the same code.',
     ['tableaux.py', 'partitions.py', 'symmetric.py'],
     [('partial filling', 'ribbon boxes filled so far', 'Tableau.KOG / KLG')],
     [('generators and counts', 'Tableau.KOG*, KLG*')],
     ['returned tableaux and tables'])

prop('C19', 'The valued-set tableau transition is a weight-swapping involution',
     'For every shifted skew shape and index, the transition map on valued-set tableaux sends each tableau to a tableau of the same shape and class with the two adjacent weights exchanged, '
     'and applying it twice returns the original; each of its stages leads to the class of objects it is meant to reach and back. The enumerations of semistandard, standard and intermediate valued-set tableaux list each exactly once, '
     'and the predicates and grouping queries (group starts, ends, members, singletons, weights) agree with the definitions. Two valued-set tableaux are equal, and print alike, exactly when entries and groups agree.',
     ['inputs'], 'all valued-set tableaux of every skew shape, all indices',
     'Tests visit a few small shapes.',
     ['vst.py'],
     [('valued-set tableau', 'shifted marked filling with a grouping of boxes', 'ValuedSetTableau in vst.py')],
     [('three-stage transition', 'ValuedSetTableau.transition')],
     ['returned tableaux and weights'])

prop('C20', 'Shape operators act linearly by adding or removing strips',
     'The operators adding or removing boxes, rows, columns, strips on a range of diagonals and ribbons from (shifted) shapes, with their generating series, act on formal combinations linearly, with exactly the coefficients of their definition on every shape, '
     'and sums, differences, scalar multiples, compositions, filters and commutators of box operators are those of the linear maps.',
     ['inputs', 'histories'], 'all strict partitions and formal combinations, all compositions of operators',
     'Tests apply operators to single basis shapes in one order.',
     ['dualops.py', 'operators.py', 'boxes.py'],
     [('combination of shapes', 'shape to coefficient', 'Vector over partitions')],
     [('operators', 'dualops.py, operators.py, boxes.py')],
     ['coefficients of results'])

prop('C21', 'Tableau values are immutable and their transformations are exact',
     'Adding, removing, replacing, clearing and transforming boxes of a tableau returns the described tableau and never changes an existing one. '
     'Transpose, standardization, reading words, weights, descents, shapes, the sorting order and the semistandard/standard predicates agree with their definitions, and decoding the rows of the printed form or a reading word gives back the tableau.',
     ['inputs', 'histories'], 'all fillings with ordinary, marked and set-valued entries, all operation sequences on shared values',
     'Tests look at single calls on small tableaux.',
     ['tableaux.py'],
     [('box table', 'position to tuple of entries', 'Tableau.boxes')],
     [('box operations', 'Tableau.add / set / remove / replace / clear'), ('transformations', 'Tableau methods')],
     ['returned tableaux', 'operands after the operation'])

prop('C22', 'Word statistics and quasisymmetric sums match their definitions',
     'Descent sets, ascent and peak counts, block weights and wiring diagrams (ordinary, involution and, up to the caps at their foot, fixed-point-free) of words are those of the definition, and the quasisymmetric function of a word for a weight on blocks is the sum over all cuts of the word into blocks of the product of the block weights, for every offered or user-given weight.',
     ['inputs'], 'all words, all block weights',
     'Tests check a few words.',
     ['words.py', 'polynomials.py'],
     [('word', 'sequence of integers', 'Word.elements')],
     [('statistics', 'words.py')],
     ['returned sets and functions'])

prop('C23', 'Answers do not depend on call history, cache state or shared operands',
     'Every public query gives the same answer whatever queries were made before it in the same process, in whatever order, with whatever enumerations left half consumed, and no query changes the value of an object handed to or obtained from an earlier one.',
     ['histories', 'schedules'], 'all sequences and interleavings of public queries in one process',
     'Each test runs a few queries in one fixed order; module-level caches are shared across everything.',
     ['cached.py', 'permutations.py', 'tableaux.py', 'symmetric.py', 'partitions.py', 'utils.py'],
     [('caches', 'memo tables keyed by arguments', 'cached_value and module-level tables')],
     [('memoization', 'cached_value in cached.py'), ('generator caches', 'permutations.py')],
     ['results of repeated and interleaved queries'])

prop('C24', 'Unpriming the diagonal keeps weight and order',
     'For every semistandard set-valued shifted tableau with primes allowed on the diagonal, InsertionAlgorithm.unprime_diagonal returns a semistandard tableau (rows and columns of the same straight shifted form, no row added, no box lost) with the same number of letters of each absolute value, '
     'in which no diagonal box with several letters has a prime except possibly on its single largest letter; tableaux that already have such a diagonal are returned unchanged, and the argument is not modified. '
     'The displaced letters move right by column insertion of sets (rows treated from the bottom, each letter replacing the larger entries of its box or stepping below when the box to the left requires it), which determines the result wherever it stays set-valued with at most one new box per row; '
     'with letters of absolute value at most 2 it always does, and distinct tableaux then have distinct images.',
     ['inputs'], 'all semistandard set-valued shifted tableaux of straight shape',
     'The tests run the map on one shape and on three instances and assert nothing about weights; the rules for several letters entering one box need particular tableaux.',
     ['insertion.py', 'tableaux.py'],
     [('letters in flight', 'set of letters to insert in the next column', 'InsertionAlgorithm.unprime_diagonal')],
     [('splitting a diagonal box', 'InsertionAlgorithm.unprime_diagonal'), ('column insertion of a set', 'InsertionAlgorithm.setvalued_column_insert')],
     ['returned tableau', 'argument after the call'])

prop('C25', 'The function families restrict, branch and pair as their theory requires',
     'The symmetric functions of different shapes, numbers of variables and families fit together. Restricting to fewer variables keeps exactly the coefficients of partitions with fewer rows. '
     'Branching: for s, P, Q, S, g, gp, gq, gs, j, jp, jq, js and the doubled-skew G, GP, GQ, GS, the coefficient at sort(a + b) of the function of mu/nu in n + m variables is the sum over the (strict) partitions k between nu and mu '
     'of the coefficient at a of the function of k/nu in n variables times the coefficient at b of that of mu/k in m variables; likewise the Grothendieck function of a permutation or involution is the sum over its 0-Hecke factorizations u o v (v^-1 o y o v for involutions) with the power of beta fixed by the lengths. '
     'Pairing: with x in n and y in m variables, up to any degree, the sums over all (strict) shapes of s s and G g equal prod 1/(1-xy); of P Q and S s equal prod (1+xy)/(1-xy); of GP gq, GQ gp, GS g and G gs equal prod (1 - X y)/(1 - xy) with X = -x/(1+beta x); '
     'of mn_G and j of the transposed shape equal prod (1+xy); of mn_GP jq, mn_GQ jp and mn_G js equal prod (1+xy)/(1 - x y/(1 - beta x)). '
     'Structure: the coefficient of nu in the product of lam and mu in s, P, Q, G, GP, GQ is that of mu in the skew function nu/lam of the dual family s, Q, P, g, gq, gp. '
     'At beta = 0 each K-theoretic function is the Schur-type function of its shape, and Q of mu/nu is 2^(rows of mu - rows of nu) times P. Every coefficient is an integer times the power of beta given by the degrees.',
     ['inputs'], 'all shapes, numbers of variables, degrees; all permutations and involutions',
     'The tests compare single functions at a few shapes; these relations tie together values of several families, shapes and numbers of variables and reach sizes where a value cannot be recomputed from the definition.',
     ['symmetric.py', 'tableaux.py', 'vst.py', 'permutations.py', 'partitions.py', 'utils.py'],
     [('families of functions', 'tables partition to integer, one per shape and number of variables', 'SymmetricPolynomial in symmetric.py')],
     [('constructors', 'SymmetricPolynomial.schur .. slow_transposed_dual_stable_grothendieck_s'), ('doubled skew shapes', 'SymmetricPolynomial.stable_grothendieck_doublebar and relatives'),
      ('from Hecke words', 'Permutation.stable_grothendieck and relatives'), ('expansions', 'SymmetricPolynomial.schur_expansion and relatives')],
     ['coefficients of the returned symmetric polynomials and expansions'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
