----------------------------- MODULE PolyModel -----------------------------
(* Design model of the polynomial register machine.  Two registers hold     *)
(* polynomials; ghost[r] tracks the integer value of each register at two   *)
(* fixed points, computed by integer arithmetic alone.  The invariants say  *)
(* the term-by-term operators are the ring operations.                      *)
EXTENDS PolyRing
CONSTANTS MaxTerms, MaxCoef, MaxDeg
VARIABLES regs, ghost
vars == <<regs, ghost>>
Pts == <<(0 :> 2 @@ 1 :> 3), (0 :> -1 @@ 1 :> 2)>>
Val(p) == [k \in 1..2 |-> PAt(p, Pts[k])]
Leaves == {PVar(0, 1), PVar(1, 1), PConst(-1), PConst(2)}
Init == /\ regs \in [1..2 -> Leaves]
        /\ ghost = [r \in 1..2 |-> Val(regs[r])]
Set(r, p, g) == /\ Cardinality(DOMAIN p) <= MaxTerms
                /\ \A m \in DOMAIN p : AbsV(p[m]) <= MaxCoef /\ MDeg(m) <= MaxDeg
                /\ regs' = [regs EXCEPT ![r] = p]
                /\ ghost' = [ghost EXCEPT ![r] = g]
Add(r, a, b) == Set(r, PAdd(regs[a], regs[b]), [k \in 1..2 |-> ghost[a][k] + ghost[b][k]])
Sub(r, a, b) == Set(r, PSub(regs[a], regs[b]), [k \in 1..2 |-> ghost[a][k] - ghost[b][k]])
Mul(r, a, b) == Set(r, PMul(regs[a], regs[b]), [k \in 1..2 |-> ghost[a][k] * ghost[b][k]])
KSum(r, a, b) == Set(r, PKSum(regs[a], regs[b]),
                     [k \in 1..2 |-> ghost[a][k] + ghost[b][k] + Pts[k][0] * ghost[a][k] * ghost[b][k]])
Pow(r, a, n) == Set(r, PPow(regs[a], n), [k \in 1..2 |-> IPow(ghost[a][k], n)])
Subst(r, a, b) == Set(r, PSubst(regs[a], 1, regs[b]),
                      [k \in 1..2 |-> PAt(regs[a], [Pts[k] EXCEPT ![1] = ghost[b][k]])])
Load(r, p) == Set(r, p, Val(p))
Next == \E r, a, b \in 1..2 :
           \/ Add(r, a, b) \/ Sub(r, a, b) \/ Mul(r, a, b) \/ KSum(r, a, b) \/ Subst(r, a, b)
           \/ Pow(r, a, b) \/ \E p \in Leaves : Load(r, p)
Spec == Init /\ [][Next]_vars

Faithful == \A r \in 1..2 : Val(regs[r]) = ghost[r]
NoZeroTerms == \A r \in 1..2 : \A m \in DOMAIN regs[r] : regs[r][m] # 0 /\ \A x \in m : x[2] # 0
RingLaws == LET a == regs[1]  b == regs[2]  c == PVar(0, 1) IN
            /\ PMul(a, b) = PMul(b, a)
            /\ PMul(a, PAdd(b, c)) = PAdd(PMul(a, b), PMul(a, c))
            /\ PAdd(PSub(a, b), b) = a
            /\ PKSum(a, b) = PKSum(b, a)
            /\ PKSum(PKSum(a, b), c) = PKSum(a, PKSum(b, c))
CoefficientsRebuild == \A r \in 1..2 :
    LET p == regs[r]
        E == {MExp(m, 1) : m \in DOMAIN p}
    IN FoldSet(LAMBDA k, acc : PAdd(acc, PMul(PCoefficient(p, 1, k), PVar(1, k))), Zero, E) = p
=============================================================================
