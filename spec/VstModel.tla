------------------------------ MODULE VstModel -------------------------------
(* Valued-set tableaux built by a nondeterministic process that adds boxes   *)
(* to a shifted shape and toggles joins; invariants relate the local group   *)
(* definitions to the connected components and check that an involution with *)
(* the stated properties can exist at all (the weight tables are symmetric). *)
EXTENDS Vst
CONSTANTS MaxBoxes, N
VARIABLES mu, nu, t
vars == <<mu, nu, t>>
ShapesUpTo == {m \in UNION {PartsOf(s, s, s) : s \in 0..MaxBoxes} : IsStrict(m)}
ShapePairs == {<<m, k>> \in ShapesUpTo \X ShapesUpTo : ContainsP(m, k)}
Init == \E p \in ShapePairs : /\ mu = p[1] /\ nu = p[2]
                              /\ t \in {u \in AllVst(N, mu, nu, TRUE) : \A k \in 1..Len(u) : u[k][4] = 0}
Toggle(k) == /\ k \in 1..Len(t) /\ Joinable(VPos(t), [m \in 1..Len(t) |-> t[m][3]], k)
             /\ t' = [t EXCEPT ![k][4] = 1 - @] /\ UNCHANGED <<mu, nu>>
Next == \E k \in 1..MaxBoxes : Toggle(k)
Spec == Init /\ [][Next]_vars
Wf == VstOk(t, mu, nu) /\ VSemistandard(t) /\ t \in AllVst(N, mu, nu, TRUE)
GroupsAreLines == \A G \in VGroups(t) : /\ (Cardinality({b[1] : b \in G}) = 1 \/ Cardinality({b[2] : b \in G}) = 1)
                                        /\ Cardinality({VEnt(t, b) : b \in G}) = 1
OneEndPerGroup == \A G \in VGroups(t) : /\ Cardinality({k \in 1..Len(t) : VPos(t)[k] \in G /\ GroupEnd(t, k)}) = 1
                                        /\ Cardinality({k \in 1..Len(t) : VPos(t)[k] \in G /\ GroupStart(t, k)}) = 1
WeightCountsGroups == VWeight(t, N) = [a \in 1..N |-> Cardinality({G \in VGroups(t) : \E b \in G : AbsV(VEnt(t, b)) = a})]
SingletonsAreGroups == \A k \in 1..Len(t) : Singleton(t, k) <=> GroupOf(t, k) = {VPos(t)[k]}
(* checked once per shape pair *)
Key(u) == <<VDiagPrimes(u), VWeight(u, N)>>
ASSUME \A p \in ShapePairs :
    LET A == AllVst(N, p[1], p[2], TRUE) T == CountTable([u \in A |-> Key(u)]) IN
    \A x \in DOMAIN T : \A i \in 1..(N - 1) : LET y == <<x[1], Exchange(x[2], i)>> IN y \in DOMAIN T /\ T[y] = T[x]
ASSUME N # 2 \/ \A p \in ShapePairs : Size(p[1]) - Size(p[2]) > 4 \/
    Cardinality(AllInter(p[1], p[2])) = Cardinality(AllVst(2, p[1], p[2], TRUE))
=============================================================================
