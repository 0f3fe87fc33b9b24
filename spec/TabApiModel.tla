----------------------------- MODULE TabApiModel ------------------------------
(* The interface of tableaux as a state machine: any sequence of box          *)
(* operations on a small board; invariants are the algebraic laws that the     *)
(* trace specification relies on.                                              *)
EXTENDS TabApi
CONSTANTS Rows, Cols, M, MaxEntries
VARIABLES t
Pos == (1..Rows) \X (1..Cols)
Letters == ((-M)..M) \ {0}
Init == t = TEmpty
Add == \E b \in Pos, v \in Letters : /\ NumEntries(t) < MaxEntries
                                     /\ (b \in DOMAIN t => v \notin SetOf(t[b])) /\ t' = TAdd(t, b, v)
Remove == \E b \in DOMAIN t : \E v \in SetOf(t[b]) : t' = TRemove(t, b, v)
Clear == \E b \in DOMAIN t : t' = TClear(t, b)
Set == \E b \in Pos, v \in Letters : (b \in DOMAIN t \/ NumEntries(t) < MaxEntries) /\ t' = TSet(t, b, <<v>>)
Neg1 == \E s \in BOOLEAN : t' = TNegate(t, s)
Next == Add \/ Remove \/ Clear \/ Set \/ Neg1
Spec == Init /\ [][Next]_t
Straight == LET mu == TShape(t) IN IsPartition(mu) /\ DOMAIN t = Diagram(mu, FALSE)
Unprimed == \A v \in TValues(t) : v > 0

Sorted == \A b \in DOMAIN t : Len(t[b]) > 0 /\ RankUp(t[b]) = t[b]
Counting == LET w == TWeight(t, TMaxAbs(t)) IN SumOfSeq(w) = NumEntries(t) /\ Len(RowWord(t)) = NumEntries(t) /\ Len(ColWord(t)) = NumEntries(t)
Involutions == TTranspose(TTranspose(t)) = t /\ TNegate(TNegate(t, TRUE), TRUE) = t /\ TNegate(TNegate(t, FALSE), FALSE) = t
AddRemove == \A b \in Pos, v \in {1, -M} : TRemove(TAdd(t, b, v), b, v) = t
TransposeWords == /\ Rev(RowWord([b \in DOMAIN t |-> <<t[b][1]>>])) = Concat([k \in 1..Len(ByRow(t)) |-> <<t[Rev(RowWordOrder(t))[k]][1]>>])
                  /\ TShape(TTranspose(t)) = [j \in 1..TMaxCol(t) |-> Cardinality({b \in DOMAIN t : b[2] = j})]
RowWordInverse == Straight /\ Unprimed /\ SingleValued(t) /\ TSemistandard(t, TRUE) => FromRowWord(RowWord(t)) = t
NoRepeats == \A b \in DOMAIN t : Cardinality(SetOf(t[b])) = Len(t[b])
StandardizeStandard == TSemistandard(t, TRUE) /\ NoRepeats /\ Straight =>
    LET s == TStandardize(t) IN /\ OneOfEach(s) /\ DOMAIN s = DOMAIN t /\ TSemistandard(s, TRUE) /\ TStandardize(s) = s
                                /\ (\A b \in DOMAIN t : Len(s[b]) = Len(t[b]))
                                (* equal letters never straddle a descent *)
                                /\ \A a \in TDescents(s) : LET x == IF a \in TValues(s) THEN a ELSE -a IN
                                     LET y == IF a + 1 \in TValues(s) THEN a + 1 ELSE -a - 1 IN
                                     ~(x > 0 /\ y > 0 /\ SingleValued(t) /\ t[BoxOf(s, x)] = t[BoxOf(s, y)])
OrderTotal == TLess(t, t) = FALSE
PrintFaithful == \A i \in 1..TMaxRow(t), j \in 1..TMaxCol(t) : (Printed(t)[i][j] = ".") <=> (<<i, j>> \notin DOMAIN t)
=============================================================================
