------------------------------- MODULE TabApi --------------------------------
(* Tableau values: finite maps from positions <<i, j>> to nonempty sorted     *)
(* tuples of nonzero integers (-k stands for the primed letter k').  Every    *)
(* operation of the public interface is a function from values to values.     *)
EXTENDS Tabs

RankUp(s) == SortSeq(s, LAMBDA a, b : a < b)
TFromJson(js) == [b \in {<<js[k][1], js[k][2]>> : k \in 1..Len(js)} |-> LET k == CHOOSE x \in 1..Len(js) : <<js[x][1], js[x][2]>> = b IN js[k][3]]
TWellFormed(js) == /\ \A k \in 1..Len(js) : Len(js[k][3]) > 0 /\ js[k][1] > 0 /\ js[k][2] > 0
                   /\ \A k \in 1..Len(js) : \A m \in 1..(Len(js[k][3]) - 1) : js[k][3][m] <= js[k][3][m + 1]
                   /\ \A k, m \in 1..Len(js) : k # m => <<js[k][1], js[k][2]>> # <<js[m][1], js[m][2]>>
TEmpty == [b \in {} |-> <<>>]
Dom(t) == DOMAIN t
Without(t, b) == [c \in (DOMAIN t) \ {b} |-> t[c]]
With(t, b, s) == [c \in (DOMAIN t) \cup {b} |-> IF c = b THEN RankUp(s) ELSE t[c]]
RemoveAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
IndexOf(s, v) == CHOOSE k \in 1..Len(s) : s[k] = v

TAdd(t, b, v) == IF b \in DOMAIN t THEN With(t, b, Append(t[b], v)) ELSE With(t, b, <<v>>)
TSet(t, b, s) == With(t, b, s)
TClear(t, b) == Without(t, b)
TRemove(t, b, v) == LET s == RemoveAt(t[b], IndexOf(t[b], v)) IN IF s = <<>> THEN Without(t, b) ELSE With(t, b, s)
Swap2(b) == <<b[2], b[1]>>
TTranspose(t) == [b \in {Swap2(c) : c \in DOMAIN t} |-> t[Swap2(b)]]
TApply(t, F(_)) == [b \in DOMAIN t |-> RankUp([k \in 1..Len(t[b]) |-> F(t[b][k])])]
TNegate(t, skip) == [b \in DOMAIN t |-> IF skip /\ b[1] = b[2] THEN t[b] ELSE RankUp([k \in 1..Len(t[b]) |-> -t[b][k]])]
TRow(t, i, lo, hi) == [b \in {c \in DOMAIN t : c[1] = i /\ c[2] > lo /\ c[2] < hi} |-> t[b]]
TCol(t, j, lo, hi) == [b \in {c \in DOMAIN t : c[2] = j /\ c[1] > lo /\ c[1] < hi} |-> t[b]]

(* positions in a given order *)
ByRow(t) == SortSeq(FoldSet(LAMBDA b, acc : Append(acc, b), <<>>, DOMAIN t), LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
RowWordOrder(t) == SortSeq(ByRow(t), LAMBDA a, b : a[1] > b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
ColWordOrder(t) == SortSeq(ByRow(t), LAMBDA a, b : a[2] < b[2] \/ (a[2] = b[2] /\ a[1] > b[1]))
Concat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)
ReadIn(t, order) == Concat([k \in 1..Len(order) |-> t[order[k]]])
RowWord(t) == ReadIn(t, RowWordOrder(t))
ColWord(t) == ReadIn(t, ColWordOrder(t))
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Neg(s) == [k \in 1..Len(s) |-> -s[k]]
Keep(s, P(_)) == SelectSeq(s, P)
ShiftedWord(t) == Neg(Keep(Rev(ColWord(t)), LAMBDA a : a < 0)) \o Keep(RowWord(t), LAMBDA a : a > 0)
(* the word cut into maximal weakly increasing runs; the last run is the first row *)
RECURSIVE Runs(_)
Runs(w) == IF w = <<>> THEN <<>> ELSE IF Len(w) = 1 THEN <<w>>
    ELSE LET R == Runs(SubSeq(w, 2, Len(w))) IN IF w[1] <= w[2] THEN <<(<<w[1]>> \o R[1])>> \o SubSeq(R, 2, Len(R)) ELSE <<(<<w[1]>>)>> \o R
FromRowWord(w) == LET R == Runs(w) n == Len(R) IN
    [b \in UNION {{<<n + 1 - r, j>> : j \in 1..Len(R[r])} : r \in 1..n} |-> <<R[n + 1 - b[1]][b[2]]>>]

(* all entries as <<value, i, j>>, with multiplicity given by the list *)
Entries(t) == Concat([k \in 1..Len(ByRow(t)) |-> LET b == ByRow(t)[k] IN [m \in 1..Len(t[b]) |-> <<t[b][m], b[1], b[2]>>]])
NumEntries(t) == SumOver(DOMAIN t, LAMBDA b : Len(t[b]))
TValues(t) == UNION {SetOf(t[b]) : b \in DOMAIN t}
Mult(t, v) == SumOver(DOMAIN t, LAMBDA b : Cardinality({k \in 1..Len(t[b]) : t[b][k] = v}))
TWeight(t, n) == [a \in 1..n |-> Mult(t, a) + Mult(t, -a)]
TMaxAbs(t) == MaxSet({AbsV(v) : v \in TValues(t)}, 0)
TMaxRow(t) == MaxSet({b[1] : b \in DOMAIN t}, 0)
TMaxCol(t) == MaxSet({b[2] : b \in DOMAIN t}, 0)
TShape(t) == [i \in 1..TMaxRow(t) |-> Cardinality({b \in DOMAIN t : b[1] = i})]
SingleValued(t) == \A b \in DOMAIN t : Len(t[b]) = 1

(* predicates *)
TRowOk(s, r) == LET m == MaxSet({Rank(v) : v \in SetOf(s)}, 0) k == MinSet({Rank(v) : v \in SetOf(r)}, 100000) IN m < k \/ (m = k /\ m % 2 = 0)
TColOk(s, r) == LET m == MaxSet({Rank(v) : v \in SetOf(s)}, 0) k == MinSet({Rank(v) : v \in SetOf(r)}, 100000) IN m < k \/ (m = k /\ m % 2 = 1)
TSemistandard(t, dp) == \A b \in DOMAIN t :
    /\ (b[1] = b[2] /\ ~dp => \A k \in 1..Len(t[b]) : t[b][k] > 0)
    /\ (<<b[1], b[2] + 1>> \in DOMAIN t => TRowOk(t[b], t[<<b[1], b[2] + 1>>]))
    /\ (<<b[1] + 1, b[2]>> \in DOMAIN t => TColOk(t[b], t[<<b[1] + 1, b[2]>>]))
OneOfEach(t) == \A a \in 1..NumEntries(t) : Mult(t, a) + Mult(t, -a) = 1
TStandard(t) == TSemistandard(t, FALSE) /\ OneOfEach(t)
DownColumns(t) == SortSeq(ByRow(t), LAMBDA a, b : a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1]))
TSuperstandard(t) == LET o == DownColumns(t) IN \A k \in 1..Len(o) : t[o[k]] = <<k>>

(* standardization: letters in increasing order; equal unprimed letters from left to right, equal primed ones from top to bottom *)
EntryBefore(x, y) == \/ Rank(x[1]) < Rank(y[1])
                     \/ (x[1] = y[1] /\ (IF x[1] > 0 THEN x[3] < y[3] ELSE x[2] < y[2]))
TStandardize(t) == LET E == SortSeq(Entries(t), EntryBefore) IN
    FoldLeft(LAMBDA acc, k : TAdd(acc, <<E[k][2], E[k][3]>>, IF E[k][1] > 0 THEN k ELSE -k), TEmpty, [k \in 1..Len(E) |-> k])
BoxOf(t, v) == CHOOSE b \in DOMAIN t : v \in SetOf(t[b])
TDescents(t) == LET n == NumEntries(t) pos(a) == a \in TValues(t) IN
    {a \in 1..(n - 1) : \/ (pos(a) /\ ~pos(a + 1))
                        \/ (pos(a) /\ pos(a + 1) /\ BoxOf(t, a + 1)[1] > BoxOf(t, a)[1])
                        \/ (~pos(a) /\ ~pos(a + 1) /\ BoxOf(t, -a - 1)[2] > BoxOf(t, -a)[2])}

(* total preorder used for sorting: number of entries, then the ranks in reading order *)
RankWord(t) == LET w == ReadIn(t, ByRow(t)) IN [k \in 1..Len(w) |-> Rank(w[k])]
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
TLess(t, u) == NumEntries(t) < NumEntries(u) \/ (NumEntries(t) = NumEntries(u) /\ LexLess(RankWord(t), RankWord(u)))

(* the column words of the crystal structure on set-valued tableaux *)
ColBoxes(t, j) == SortSeq(ByRow(TCol(t, j, 0, 100000)), LAMBDA a, b : a[1] < b[1])
CrystalColumn(t, j) == LET B == ColBoxes(t, j) n == Len(B) IN
    [k \in 1..n |-> t[B[n + 1 - k]][1]] \o Concat([k \in 1..n |-> SubSeq(t[B[k]], 2, Len(t[B[k]]))])
CrystalWord(t) == LET J == SortSeq(FoldSet(LAMBDA j, acc : Append(acc, j), <<>>, {b[2] : b \in DOMAIN t}), LAMBDA a, b : a < b)
                  IN [k \in 1..Len(J) |-> CrystalColumn(t, J[k])]

(* printed form: rows of cells, "." for a missing box; letters by absolute value, primed before unprimed *)
RECURSIVE JoinC(_)
JoinC(s) == IF Len(s) = 0 THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o JoinC(SubSeq(s, 2, Len(s)))
Letter(v) == IF v > 0 THEN ToString(v) ELSE ToString(-v) \o "'"
Cell(s) == LET r == SortSeq(s, LAMBDA a, b : Rank(a) < Rank(b)) IN JoinC([k \in 1..Len(r) |-> Letter(r[k])])
Printed(t) == [i \in 1..TMaxRow(t) |-> [j \in 1..TMaxCol(t) |-> IF <<i, j>> \in DOMAIN t THEN Cell(t[<<i, j>>]) ELSE "."]]
=============================================================================
