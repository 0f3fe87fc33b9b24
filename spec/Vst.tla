-------------------------------- MODULE Vst ---------------------------------
(* Valued-set tableaux: shifted skew fillings with one signed entry per box  *)
(* and a grouping.  A tableau is a sequence, in reading order, of records    *)
(* <<i, j, v, g>>; g = 1 joins an unprimed box to its right neighbour and a  *)
(* primed box to the box above it, which must hold the same entry.           *)
EXTENDS Tabs

VPos(t) == [k \in 1..Len(t) |-> <<t[k][1], t[k][2]>>]
VEnt(t, b) == LET k == At(VPos(t), b) IN IF k = 0 THEN 0 ELSE t[k][3]
VGrp(t, b) == LET k == At(VPos(t), b) IN IF k = 0 THEN 0 ELSE t[k][4]
Partner(v, b) == IF v > 0 THEN <<b[1], b[2] + 1>> ELSE <<b[1] - 1, b[2]>>
Joinable(B, ent, k) == LET m == At(B, Partner(ent[k], B[k])) IN m > 0 /\ ent[m] = ent[k]
VstOk(t, mu, nu) ==
    /\ VPos(t) = Boxes(mu, nu, TRUE)
    /\ \A k \in 1..Len(t) : /\ t[k][3] # 0 /\ t[k][4] \in {0, 1}
                            /\ (t[k][4] = 1 => Joinable(VPos(t), [m \in 1..Len(t) |-> t[m][3]], k))

(* the two orders in which rows and columns increase, and the exceptions on the diagonal *)
NextOk(f(_), strict(_), x, y) == f(x) < f(y) \/ (f(x) = f(y) /\ ~strict(x))
VSemistandard(t) == \A k \in 1..Len(t) :
    LET b == VPos(t)[k] r == VEnt(t, <<b[1], b[2] + 1>>) u == VEnt(t, <<b[1] - 1, b[2]>>) x == t[k][3] IN
    /\ (r # 0 => NextOk(Rank, LAMBDA z : z < 0, x, r))
    /\ (u # 0 => NextOk(Rank, LAMBDA z : z > 0, u, x))
(* middle stage of the transition from 1 to 2: the order -1 < -2 < 1 < 2 *)
IRank(v) == CASE v = -1 -> 1 [] v = -2 -> 2 [] v = 1 -> 3 [] v = 2 -> 4
Has(t, b) == VEnt(t, b) # 0
RowException(t, b) == /\ b[1] = b[2] /\ Has(t, <<b[1] + 1, b[1] + 1>>) /\ VEnt(t, b) = 1 /\ VEnt(t, <<b[1], b[1] + 1>>) = -2
    /\ (VEnt(t, <<b[1] + 1, b[1] + 1>>) = 1 \/ (VEnt(t, <<b[1] + 1, b[1] + 1>>) = -2 /\ VGrp(t, <<b[1] + 1, b[1] + 1>>) = 1))
ColException(t, b) == /\ b[1] = b[2] /\ Has(t, <<b[1] - 1, b[1] - 1>>) /\ VEnt(t, b) = -2 /\ VEnt(t, <<b[1] - 1, b[1]>>) = 1
    /\ (VEnt(t, <<b[1] - 1, b[1] - 1>>) = -2 \/ (VEnt(t, <<b[1] - 1, b[1] - 1>>) = 1 /\ VGrp(t, <<b[1] - 1, b[1] - 1>>) = 1))
VInterstandard(t) == \A k \in 1..Len(t) :
    LET b == VPos(t)[k] r == VEnt(t, <<b[1], b[2] + 1>>) u == VEnt(t, <<b[1] - 1, b[2]>>) x == t[k][3] IN
    /\ (r # 0 => RowException(t, b) \/ NextOk(IRank, LAMBDA z : z < 0, x, r))
    /\ (u # 0 => ColException(t, b) \/ NextOk(IRank, LAMBDA z : z > 0, u, x))

(* groups: a group ends in its only box with g = 0; its weight is one *)
VWeight(t, n) == [a \in 1..n |-> Cardinality({k \in 1..Len(t) : t[k][4] = 0 /\ AbsV(t[k][3]) = a})]
VDiagPrimes(t) == Cardinality({k \in 1..Len(t) : t[k][1] = t[k][2] /\ t[k][3] < 0})
GroupStart(t, k) == LET b == VPos(t)[k] p == IF t[k][3] > 0 THEN <<b[1], b[2] - 1>> ELSE <<b[1] + 1, b[2]>>
    IN ~(Has(t, p) /\ VEnt(t, p) * t[k][3] > 0 /\ VGrp(t, p) = 1)
GroupEnd(t, k) == t[k][4] = 0
Singleton(t, k) == GroupStart(t, k) /\ GroupEnd(t, k)
(* two boxes are in the same group when one is joined to the other *)
Joined(t, b, c) == (Has(t, b) /\ VGrp(t, b) = 1 /\ Partner(VEnt(t, b), b) = c) \/ (Has(t, c) /\ VGrp(t, c) = 1 /\ Partner(VEnt(t, c), c) = b)
RECURSIVE Reach(_, _)
Reach(t, S) == LET T == S \cup {VPos(t)[k] : k \in {x \in 1..Len(t) : \E b \in S : Joined(t, b, VPos(t)[x])}}
               IN IF T = S THEN S ELSE Reach(t, T)
VGroups(t) == {Reach(t, {VPos(t)[k]}) : k \in 1..Len(t)}
(* the first and last box of the group ending at box k, in the direction of its joins *)
GroupOf(t, k) == Reach(t, {VPos(t)[k]})

(* enumeration *)
VOpt(primes) == [sh |-> TRUE, marked |-> TRUE, setv |-> FALSE, diag |-> IF primes THEN "any" ELSE "noprime", rpp |-> FALSE]
WithGroups(B, ent) == {[k \in 1..Len(B) |-> <<B[k][1], B[k][2], ent[k], IF k \in S THEN 1 ELSE 0>>] : S \in SUBSET {k \in 1..Len(B) : Joinable(B, ent, k)}}
AllVst(n, mu, nu, primes) == LET B == TLCEval(Boxes(mu, nu, TRUE)) IN
    UNION {WithGroups(B, TLCEval([k \in 1..Len(B) |-> Val(MaxSet(p[k], 0))])) : p \in Fillings(VOpt(primes), n, mu, nu)}
AllInter(mu, nu) == LET B == TLCEval(Boxes(mu, nu, TRUE)) IN
    {t \in UNION {WithGroups(B, ent) : ent \in [1..Len(B) -> {-1, -2, 1, 2}]} : VInterstandard(t)}

(* what a transition at i may do: the boxes outside {i, i+1} stay, the shape and class stay, the weights of i and i + 1 are exchanged *)
Exchange(w, i) == [a \in 1..Len(w) |-> IF a = i THEN w[i + 1] ELSE IF a = i + 1 THEN w[i] ELSE w[a]]
SameOutside(t, u, i) == Len(t) = Len(u) /\ \A k \in 1..Len(t) :
    IF AbsV(t[k][3]) \in {i, i + 1} THEN u[k][1] = t[k][1] /\ u[k][2] = t[k][2] /\ AbsV(u[k][3]) \in {i, i + 1} ELSE u[k] = t[k]
=============================================================================
