------------------------------ MODULE Insertion ------------------------------
(* Hecke, orthogonal Hecke and symplectic Hecke insertion as a state machine.*)
(* A tableau is a function from boxes <<i, j>> to positive integers.  A      *)
(* state is [t, dir, k, v]: value v is about to enter row k (dir "row") or   *)
(* column k (dir "col") of t; dir "done" when nothing is pending.            *)
(* alg is "hecke" (straight shapes) or "sp" (shifted shapes); orthogonal     *)
(* insertion is "sp" applied to the doubled word.                            *)
EXTENDS HeckeWords

EmptyT == <<>>
RowOf(t, i) == {b \in DOMAIN t : b[1] = i}
ColOf(t, j) == {b \in DOMAIN t : b[2] = j}
MaxRow(t) == MaxSet({b[1] : b \in DOMAIN t}, 0)
MaxCol(t) == MaxSet({b[2] : b \in DOMAIN t}, 0)
Has(t, b) == b \in DOMAIN t
Put(t, b, v) == [c \in DOMAIN t \cup {b} |-> IF c = b THEN v ELSE t[c]]
Below(t, B, a) == \A b \in B : t[b] < a
AtMost(t, B, a) == \A b \in B : t[b] <= a
Fits(t, b, a) == (Has(t, b) => t[b] < a)          \* absent boxes do not restrict
Done(t) == [t |-> t, dir |-> "done", k |-> 0, v |-> 0]
Pend(t, d, k, v) == [t |-> t, dir |-> d, k |-> k, v |-> v]
StartIns(t, a) == Pend(t, "row", 1, a)

(* one bump: <<next state, box touched>> *)
RowStep(alg, s) ==
    LET t == s.t  i == s.k  a == s.v
        R == RowOf(t, i)
        first == IF alg = "hecke" THEN 1 ELSE i
    IN IF AtMost(t, R, a)
       THEN LET j == first + Cardinality(R)
            IN <<Done(IF Below(t, R, a) /\ Below(t, ColOf(t, j), a) THEN Put(t, <<i, j>>, a) ELSE t), <<i, j>>>>
       ELSE LET x == MinSet({b[2] : b \in {c \in R : t[c] > a}}, 100000)
                b == t[<<i, x>>]
                up == Fits(t, <<i - 1, x>>, a)
                new == IF Fits(t, <<i, x - 1>>, a) /\ up THEN Put(t, <<i, x>>, a) ELSE t
                changed == Fits(t, <<i, x - 1>>, a) /\ up
            IN IF alg = "hecke" THEN <<Pend(new, "row", i + 1, b), <<i, x>>>>
               ELSE IF x > i
               THEN IF ~changed /\ x = i + 1 /\ ~Has(t, <<i + 1, i + 1>>)
                    THEN <<Pend(t, "col", i + 1, b), <<i, x>>>>
                    ELSE <<Pend(new, "row", i + 1, b), <<i, x>>>>
               ELSE IF a % 2 = b % 2
                    THEN <<Pend(IF up THEN Put(t, <<i, i>>, a) ELSE t, "col", i + 1, b), <<i, i>>>>
                    ELSE <<Pend(t, "col", i + 1, b + 1), <<i, i>>>>
ColStep(s) ==
    LET t == s.t  j == s.k  a == s.v
        C == ColOf(t, j)
    IN IF AtMost(t, C, a)
       THEN LET i == Cardinality(C) + 1
                left == {b \in RowOf(t, i) : b[2] < j}
            IN <<Done(IF Below(t, left, a) /\ Below(t, C, a) THEN Put(t, <<i, j>>, a) ELSE t), <<i, j>>>>
       ELSE LET x == MinSet({b[1] : b \in {c \in C : t[c] > a}}, 100000)
                b == t[<<x, j>>]
                new == IF Fits(t, <<x, j - 1>>, a) /\ Fits(t, <<x - 1, j>>, a) THEN Put(t, <<x, j>>, a) ELSE t
            IN <<Pend(new, "col", j + 1, b), <<x, j>>>>
BumpStep(alg, s) == IF s.dir = "row" THEN RowStep(alg, s) ELSE ColStep(s)

(* the path of an insertion: sequence of <<state, box>> ending with a done state *)
RECURSIVE PathFrom(_, _)
PathFrom(alg, s) == IF s.dir = "done" THEN <<>> ELSE LET n == BumpStep(alg, s) IN <<n>> \o PathFrom(alg, n[1])
Path(alg, t, a) == PathFrom(alg, StartIns(t, a))
(* the recorded box and sign *)
RecordOf(alg, p) ==
    LET t == p[Len(p)][1].t
        c == p[Len(p)][2]
        neg == alg = "sp" /\ (\/ \E k \in 1..(Len(p) - 1) : p[k][2][1] = p[k][2][2]
                              \/ ~Has(t, c) /\ c[1] = c[2])
    IN IF Has(t, c) THEN <<c, neg>>
       ELSE IF ~neg THEN <<<<MaxSet({b[1] : b \in ColOf(t, c[2] - 1)}, 0), c[2] - 1>>, neg>>
       ELSE <<<<c[1] - 1, MaxSet({b[2] : b \in RowOf(t, c[1] - 1)}, 0)>>, neg>>
(* insertion of a word: P, and Q as the set of <<box, signed step>> *)
RECURSIVE InsertFrom(_, _, _, _, _)
InsertFrom(alg, w, k, t, Q) ==
    IF k > Len(w) THEN [p |-> t, q |-> Q]
    ELSE LET p == Path(alg, t, w[k])
             r == RecordOf(alg, p)
         IN InsertFrom(alg, w, k + 1, p[Len(p)][1].t, Q \cup {<<r[1], IF r[2] THEN -k ELSE k>>})
Insert(alg, w) == InsertFrom(alg, w, 1, EmptyT, {})

(* ---- records ---- *)
RecordOk(w, r, multi) == /\ Len(r) = Len(w)
    /\ \A i \in 1..(Len(r) - 1) : /\ r[i] <= r[i + 1]
                                  /\ ((IF multi THEN w[i] > w[i + 1] ELSE w[i] <= w[i + 1]) => r[i] < r[i + 1])
SortedVals(S, r) == SortSeq(FoldSet(LAMBDA k, acc : Append(acc, IF k < 0 THEN -r[-k] ELSE r[k]), <<>>, S), LAMBDA a, b : a < b)
QWith(Q, r) == [b \in {x[1] : x \in Q} |-> SortedVals({x[2] : x \in {y \in Q : y[1] = b}}, r)]
Flip(f) == [b \in {<<c[2], c[1]>> : c \in DOMAIN f} |-> f[<<b[2], b[1]>>]]
FlipQ(Q) == {<<<<x[1][2], x[1][1]>>, x[2]>> : x \in Q}
NegQ(Q) == {IF x[1][1] = x[1][2] THEN x ELSE <<x[1], -x[2]>> : x \in Q}
Halve(t) == [b \in DOMAIN t |-> t[b] \div 2]
Dbl(w) == [i \in 1..Len(w) |-> 2 * w[i]]
(* the public results: kind "hecke", "orth" or "sp" *)
Result(kind, w, r, multi) ==
    LET x == Insert(IF kind = "hecke" THEN "hecke" ELSE "sp", IF kind = "orth" THEN Dbl(w) ELSE w)
        P == IF kind = "orth" THEN Halve(x.p) ELSE IF kind = "hecke" /\ ~multi THEN Flip(x.p) ELSE x.p
        Q == IF multi THEN x.q ELSE IF kind = "hecke" THEN FlipQ(x.q) ELSE NegQ(x.q)
    IN <<P, QWith(Q, r)>>

(* ---- domains ---- *)
MaxSeq(w) == MaxSet(SetOf(w), 0)
EvenRank(w) == LET n == MaxSeq(w) + 1 IN IF n % 2 = 0 THEN n ELSE n + 1
IsSymplectic(w) == Value("shecke", EvenRank(w), w) # None
Increasing(t) == \A b \in DOMAIN t : Fits(t, <<b[1], b[2] - 1>>, t[b]) /\ Fits(t, <<b[1] - 1, b[2]>>, t[b])
RECURSIVE RowWord(_, _)
RowWord(t, i) == IF i = 0 THEN <<>>
                 ELSE LET J == {b[2] : b \in RowOf(t, i)} lo == MinSet(J, 1000) IN [k \in 1..Cardinality(J) |-> t[<<i, lo + k - 1>>]] \o RowWord(t, i - 1)
ReadingWord(t) == RowWord(t, MaxRow(t))
(* the class of words that insertion preserves *)
ClassOf(kind, n, w) == CASE kind = "hecke" -> HWord(w) [] kind = "orth" -> IWord(w) [] kind = "sp" -> Value("shecke", n, w)

(* recording tableaux: semistandard, with sets (multi = FALSE) or multisets of entries *)
Rk(v) == IF v > 0 THEN 2 * v ELSE -2 * v - 1
RkMax(s) == MaxSet({Rk(v) : v \in SetOf(s)}, 0)
RkMin(s) == MinSet({Rk(v) : v \in SetOf(s)}, 1000000)
ValidQ(f, multi, shifted) == \A b \in DOMAIN f :
    /\ Len(f[b]) > 0
    /\ (~multi => Cardinality(SetOf(f[b])) = Len(f[b]))
    /\ \A v \in SetOf(f[b]) : v > 0 \/ (shifted /\ b[1] # b[2])
    /\ LET r == <<b[1], b[2] + 1>> d == <<b[1] + 1, b[2]>>
       IN /\ (r \in DOMAIN f => RkMax(f[b]) < RkMin(f[r]) \/ (RkMax(f[b]) = RkMin(f[r]) /\ RkMin(f[r]) % 2 = 0))
          /\ (d \in DOMAIN f => RkMax(f[b]) < RkMin(f[d]) \/ (RkMax(f[b]) = RkMin(f[d]) /\ RkMin(f[d]) % 2 = 1))
=============================================================================
