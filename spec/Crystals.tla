------------------------------ MODULE Crystals ------------------------------
(* Crystal operators by the signature rule.  In a sequence of letters only   *)
(* i and i + 1 matter; an i + 1 directly followed by an i (after removing    *)
(* earlier such pairs) is matched.  f raises the last unmatched i, e lowers  *)
(* the first unmatched i + 1.                                                *)
EXTENDS Tabs
(* results are never empty, so the empty object stands for "undefined" *)
NoObj == <<>>

(* unmatched positions, scanning from the left with a stack of open i + 1's *)
RECURSIVE Scan(_, _, _, _, _)
Scan(a, i, k, open, lows) ==
    IF k > Len(a) THEN [open |-> open, lows |-> lows]
    ELSE IF a[k] = i + 1 THEN Scan(a, i, k + 1, Append(open, k), lows)
    ELSE IF a[k] = i THEN IF open = <<>> THEN Scan(a, i, k + 1, open, Append(lows, k))
                          ELSE Scan(a, i, k + 1, SubSeq(open, 1, Len(open) - 1), lows)
    ELSE Scan(a, i, k + 1, open, lows)
Free(a, i) == Scan(a, i, 1, <<>>, <<>>)
(* 0 when the operator is undefined *)
FPlace(a, i) == LET L == Free(a, i).lows IN IF L = <<>> THEN 0 ELSE L[Len(L)]
EPlace(a, i) == LET O == Free(a, i).open IN IF O = <<>> THEN 0 ELSE O[1]
Phi(a, i) == Len(Free(a, i).lows)
Eps(a, i) == Len(Free(a, i).open)
FWord(a, i) == LET k == FPlace(a, i) IN IF k = 0 THEN NoObj ELSE [a EXCEPT ![k] = i + 1]
EWord(a, i) == LET k == EPlace(a, i) IN IF k = 0 THEN NoObj ELSE [a EXCEPT ![k] = i]
(* tuples of words: the operator acts on the concatenation *)
RECURSIVE Flat(_)
Flat(t) == IF t = <<>> THEN <<>> ELSE Head(t) \o Flat(Tail(t))
RECURSIVE SplitAs(_, _)
SplitAs(t, a) == IF t = <<>> THEN <<>> ELSE <<SubSeq(a, 1, Len(t[1]))>> \o SplitAs(Tail(t), SubSeq(a, Len(t[1]) + 1, Len(a)))

(* ---- tableaux as functions from boxes to sorted sequences of entries ---- *)
BoxSeqBy(f, lt(_, _)) == SortSeq(FoldSet(LAMBDA b, acc : Append(acc, b), <<>>, DOMAIN f), lt)
Asc2(s) == SortSeq(s, LAMBDA a, b : a < b)
DropOne(s, v) == LET k == CHOOSE x \in 1..Len(s) : s[x] = v IN SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
PutIn(f, b, v) == [c \in DOMAIN f \cup {b} |-> IF c = b THEN (IF b \in DOMAIN f THEN Asc2(Append(f[b], v)) ELSE <<v>>) ELSE f[c]]
TakeOut(f, b, v) == IF Len(f[b]) = 1 THEN [c \in (DOMAIN f) \ {b} |-> f[c]] ELSE [f EXCEPT ![b] = DropOne(@, v)]
(* set-valued rule: columns left to right, each from its highest row down, boxes in decreasing order *)
SetLetters(f) == LET B == BoxSeqBy(f, LAMBDA a, b : a[2] < b[2] \/ (a[2] = b[2] /\ a[1] > b[1]))
                 IN Flat([k \in 1..Len(B) |-> [x \in 1..Len(f[B[k]]) |-> <<B[k], f[B[k]][Len(f[B[k]]) + 1 - x]>>]])
ValsOf(s) == [k \in 1..Len(s) |-> s[k][2]]
SetF(f, i) == LET s == SetLetters(f) k == FPlace(ValsOf(s), i)
              IN IF k = 0 THEN NoObj
                 ELSE LET b == s[k][1] r == <<b[1], b[2] + 1>>
                      IN IF r \in DOMAIN f /\ i \in SetOf(f[r]) THEN PutIn(TakeOut(f, r, i), b, i + 1) ELSE PutIn(TakeOut(f, b, i), b, i + 1)
SetE(f, i) == LET s == SetLetters(f) k == EPlace(ValsOf(s), i)
              IN IF k = 0 THEN NoObj
                 ELSE LET b == s[k][1] r == <<b[1], b[2] - 1>>
                      IN IF r \in DOMAIN f /\ i + 1 \in SetOf(f[r]) THEN PutIn(TakeOut(f, r, i + 1), b, i) ELSE PutIn(TakeOut(f, b, i + 1), b, i)
(* multiset-valued rule: each column read as the least entries of its boxes from the highest row down, *)
(* then the other entries from the lowest row up; the operator changes letters of that reading         *)
Cols(f) == MaxSet({b[2] : b \in DOMAIN f}, 0)
ColHeight(f, j) == MaxSet({b[1] : b \in {c \in DOMAIN f : c[2] = j}}, 0)
ColBoxes(f, j) == SortSeq(FoldSet(LAMBDA b, acc : Append(acc, b), <<>>, {c \in DOMAIN f : c[2] = j}), LAMBDA a, b : a[1] < b[1])
ColLetters(f, j) ==
    LET B == ColBoxes(f, j) n == Len(B)
    IN [k \in 1..n |-> <<B[n + 1 - k], f[B[n + 1 - k]][1]>>]
       \o Flat([k \in 1..n |-> [x \in 1..(Len(f[B[k]]) - 1) |-> <<B[k], f[B[k]][x + 1]>>]])
ColSeq(f) == LET J == {b[2] : b \in DOMAIN f} IN SortSeq(FoldSet(LAMBDA j, acc : Append(acc, j), <<>>, J), LAMBDA a, b : a < b)
ReadCols(f) == [k \in 1..Len(ColSeq(f)) |-> ValsOf(ColLetters(f, ColSeq(f)[k]))]
(* the tableau with a given column reading: the initial strictly decreasing run gives the least entries; each  *)
(* other letter goes to the highest box whose least entry is at most that letter                               *)
RunLen(c) == LET bad == {x \in 2..Len(c) : c[x - 1] <= c[x]} IN IF bad = {} THEN Len(c) ELSE MinSet(bad, 100000) - 1
FromCol(c, j) == LET n == RunLen(c)
                     row(v) == MaxSet({i \in 1..n : c[n + 1 - i] <= v}, 0)
                 IN [b \in {<<i, j>> : i \in 1..n} |-> Asc2(<<c[n + 1 - b[1]]>> \o SelectSeq(SubSeq(c, n + 1, Len(c)), LAMBDA v : row(v) = b[1]))]
RECURSIVE FromCols(_, _)
FromCols(cs, j) == IF j > Len(cs) THEN <<>> ELSE FromCol(cs[j], j) @@ FromCols(cs, j + 1)
MultF(f, i) == LET cs == ReadCols(f) a == FWord(Flat(cs), i) IN IF a = NoObj THEN NoObj ELSE FromCols(SplitAs(cs, a), 1)
MultE(f, i) == LET cs == ReadCols(f) a == EWord(Flat(cs), i) IN IF a = NoObj THEN NoObj ELSE FromCols(SplitAs(cs, a), 1)
TabF(f, i, multi) == IF multi THEN MultF(f, i) ELSE SetF(f, i)
TabE(f, i, multi) == IF multi THEN MultE(f, i) ELSE SetE(f, i)
(* semistandard with sets or multisets of positive entries on a straight shape *)
SemiOk(f, multi) == \A b \in DOMAIN f :
    /\ (~multi => Cardinality(SetOf(f[b])) = Len(f[b]))
    /\ LET r == <<b[1], b[2] + 1>> d == <<b[1] + 1, b[2]>> IN
       /\ (r \in DOMAIN f => f[b][Len(f[b])] <= f[r][1]) /\ (d \in DOMAIN f => f[b][Len(f[b])] < f[d][1])
TabWeight(f, n) == [k \in 1..n |-> SumOver(DOMAIN f, LAMBDA b : Cardinality({x \in 1..Len(f[b]) : f[b][x] = k}))]
WordWeight(a, n) == [k \in 1..n |-> Cardinality({x \in 1..Len(a) : a[x] = k})]

(* cuts of a word into k blocks that are weakly increasing (or strictly decreasing) *)
BlockOk(a, dec) == \A x \in 1..(Len(a) - 1) : IF dec THEN a[x] > a[x + 1] ELSE a[x] <= a[x + 1]
RECURSIVE Factor(_, _, _)
Factor(a, k, dec) ==
    IF k = 0 THEN IF a = <<>> THEN {<<>>} ELSE {}
    ELSE UNION {IF BlockOk(SubSeq(a, 1, i), dec) THEN {<<SubSeq(a, 1, i)>> \o t : t \in Factor(SubSeq(a, i + 1, Len(a)), k - 1, dec)} ELSE {} : i \in 0..Len(a)}
(* as two-line arrays <<word, record>> *)
RecordsOf(t) == Flat([k \in 1..Len(t) |-> [x \in 1..Len(t[k]) |-> k]])
(* components of a graph on 1..n *)
RECURSIVE Grow(_, _)
Grow(S, E) == LET T == S \cup {e[2] : e \in {x \in E : x[1] \in S}} \cup {e[1] : e \in {x \in E : x[2] \in S}} IN IF T = S THEN S ELSE Grow(T, E)
Components(V, E) == {Grow({v}, E) : v \in V}
=============================================================================
