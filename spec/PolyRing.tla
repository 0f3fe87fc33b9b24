------------------------------ MODULE PolyRing ------------------------------
(* The ring of integer Laurent polynomials.                                 *)
(* A monomial is the set of its <<variable, exponent>> pairs, exponent # 0. *)
(* A polynomial is a function from a finite set of monomials to non-zero    *)
(* integers, so equality of polynomials is equality of TLA+ values.         *)
EXTENDS Fold, TLC

One == [m \in {{}} |-> 1]
Zero == [m \in {} |-> 0]
PConst(c) == IF c = 0 THEN Zero ELSE [m \in {{}} |-> c]
PVar(i, e) == IF e = 0 THEN One ELSE [m \in {{<<i, e>>}} |-> 1]

PCoef(p, m) == IF m \in DOMAIN p THEN p[m] ELSE 0
Build(D, f(_)) == LET S == {m \in D : f(m) # 0} IN [m \in S |-> f(m)]

MExp(m, i) == IF \E x \in m : x[1] = i THEN (CHOOSE x \in m : x[1] = i)[2] ELSE 0
MVars(m) == {x[1] : x \in m}
MMul(a, b) == LET V == MVars(a) \cup MVars(b)
              IN {x \in {<<i, MExp(a, i) + MExp(b, i)>> : i \in V} : x[2] # 0}
MPow(a, k) == IF k = 0 THEN {} ELSE {<<x[1], k * x[2]>> : x \in a}
MDeg(m) == SumOver(m, LAMBDA x : x[2])

PAdd(p, q) == Build(DOMAIN p \cup DOMAIN q, LAMBDA m : PCoef(p, m) + PCoef(q, m))
PScale(p, c) == IF c = 0 THEN Zero ELSE [m \in DOMAIN p |-> c * p[m]]
PNeg(p) == PScale(p, -1)
PSub(p, q) == PAdd(p, PNeg(q))
(* (sum of a term times q) over the terms a of p *)
PMulTerm(q, a, c) == [m \in {MMul(a, b) : b \in DOMAIN q} |-> c * PCoef(q, MMul(m, MPow(a, -1)))]
PMul(p, q) == FoldSet(LAMBDA a, acc : PAdd(acc, PMulTerm(q, a, p[a])), Zero, DOMAIN p)
RECURSIVE PPow(_, _)
PPow(p, k) == IF k = 0 THEN One ELSE PMul(p, PPow(p, k - 1))
(* a negative power exists exactly for a single term with coefficient 1 or -1 *)
PInvertible(p) == Cardinality(DOMAIN p) = 1 /\ \A m \in DOMAIN p : p[m] \in {1, -1}
PInv(p) == [m \in {MPow(a, -1) : a \in DOMAIN p} |-> p[MPow(m, -1)]]
PPowZ(p, k) == IF k >= 0 THEN PPow(p, k) ELSE PPow(PInv(p), -k)

PTotalDegree(p) == LET D == {MDeg(m) : m \in DOMAIN p}
                   IN CHOOSE d \in D : \A x \in D : x <= d
PTruncate(p, d) == [m \in {a \in DOMAIN p : MDeg(a) <= d} |-> p[m]]
(* the coefficient of x_i^k, a polynomial in the other variables *)
PCoefficient(p, i, k) ==
    LET D == {m \in DOMAIN p : MExp(m, i) = k}
    IN [m \in {{x \in a : x[1] # i} : a \in D} |-> PCoef(p, IF k = 0 THEN m ELSE m \cup {<<i, k>>})]
(* replace x_i by the polynomial e (exponents of x_i must be >= 0 or e invertible) *)
PSubst(p, i, e) ==
    FoldSet(LAMBDA m, acc :
               LET k == MExp(m, i)
                   rest == [a \in {{x \in m : x[1] # i}} |-> p[m]]
               IN PAdd(acc, PMul(rest, PPowZ(e, k))),
            Zero, DOMAIN p)
RECURSIVE PSubstMany(_, _, _)
(* simultaneous substitution: env is a sequence of <<variable, polynomial>> *)
PEnv(env, i) == IF \E k \in DOMAIN env : env[k][1] = i
                THEN (env[CHOOSE k \in DOMAIN env : env[k][1] = i])[2] ELSE PVar(i, 1)
PMonEval(m, env) == FoldSet(LAMBDA x, acc : PMul(acc, PPowZ(PEnv(env, x[1]), x[2])), One, m)
PCall(p, env) == FoldSet(LAMBDA m, acc : PAdd(acc, PScale(PMonEval(m, env), p[m])), Zero, DOMAIN p)
PSubstMany(p, env, n) == PCall(p, env)
(* the K-theoretic sum a + b + beta a b, beta being variable 0 *)
PKSum(a, b) == PAdd(PAdd(a, b), PMul(PVar(0, 1), PMul(a, b)))

PMod(p, k) == Build(DOMAIN p, LAMBDA m : p[m] % k)
PDivisible(p, k) == \A m \in DOMAIN p : p[m] % k = 0
PFloorDiv(p, k) == Build(DOMAIN p, LAMBDA m : p[m] \div k)
PPositive(p) == \A m \in DOMAIN p : p[m] > 0

(* value at integers, for polynomials with non-negative exponents: an independent reading of a polynomial *)
RECURSIVE IPow(_, _)
IPow(a, k) == IF k = 0 THEN 1 ELSE a * IPow(a, k - 1)
MAt(m, pt) == FoldSet(LAMBDA x, acc : acc * IPow(pt[x[1]], x[2]), 1, m)
PAt(p, pt) == SumOver(DOMAIN p, LAMBDA m : p[m] * MAt(m, pt))

(* JSON form: a sequence of <<  <<<<var, exp>>, ...>>, coefficient >>; well-formed when every *)
(* monomial occurs once, no exponent and no coefficient is zero.                             *)
PWellFormed(js) ==
    /\ \A k \in DOMAIN js : js[k][2] # 0
    /\ \A k \in DOMAIN js : \A t \in DOMAIN js[k][1] : js[k][1][t][2] # 0
    /\ Cardinality({SetOf(js[k][1]) : k \in DOMAIN js}) = Len(js)
FromJson(js) ==
    LET pairs == {<<SetOf(js[k][1]), js[k][2]>> : k \in DOMAIN js}
    IN [m \in {x[1] : x \in pairs} |-> (CHOOSE x \in pairs : x[1] = m)[2]]
=============================================================================
