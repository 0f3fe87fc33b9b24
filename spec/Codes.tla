------------------------------- MODULE Codes --------------------------------
(* Codes, Rothe diagrams, shapes and Grassmannian elements of permutations,  *)
(* involutions and fixed-point-free involutions.                             *)
EXTENDS Perms, Shapes

Rothe(w) == {<<i, Act(w, j)>> : i \in 1..Len(w), j \in 1..Len(w)} \cap
            UNION {{<<i, w[j]>> : j \in {k \in (i + 1)..Len(w) : w[i] > w[k]}} : i \in 1..Len(w)}
InvRothe(w) == {b \in Rothe(w) : b[1] >= b[2]}
FpfRothe(w) == {b \in Rothe(w) : b[1] > b[2]}
RowCounts(D, n) == [i \in 1..n |-> Cardinality({b \in D : b[1] = i})]
Code(w) == RowCounts(Rothe(w), Len(w))
InvCode(w) == RowCounts(InvRothe(w), Len(w))
FpfCode(w) == RowCounts(FpfRothe(w), Len(w))
SortedParts(c) == TrimZ(SortSeq(c, LAMBDA a, b : a > b))
Shape(w) == SortedParts(Code(Inv(w)))
InvShape(w) == Transpose(SortedParts(InvCode(w)))
FpfShape(w) == Transpose(SortedParts(FpfCode(w)))
(* the permutation with a given Lehmer code *)
RECURSIVE Decode(_, _)
Decode(c, avail) == IF c = <<>> THEN <<>>
    ELSE LET a == CHOOSE x \in avail : Cardinality({y \in avail : y < x}) = c[1] IN <<a>> \o Decode(Tail(c), avail \ {a})

(* Grassmannian: the inverse has code 0 < c_1 <= ... <= c_k followed by zeros *)
IsGr(w) == LET c == Code(Inv(w)) IN \E k \in 0..Len(c) : /\ \A i \in 1..k : c[i] > 0 /\ (i > 1 => c[i - 1] <= c[i])
                                                        /\ \A i \in (k + 1)..Len(c) : c[i] = 0
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Gr(mu) == Inv(TrimW(Decode(RevSeq(mu) \o [i \in 1..Part(mu, 1) |-> 0], 1..(Len(mu) + Part(mu, 1)))))
(* involution Grassmannian: 1..r are matched, in increasing order, with larger points above r; the rest is fixed *)
IsInvGr(y) == IsInv(y) /\ \E r \in 0..Len(y) : /\ \A i \in 1..r : y[i] > r /\ (i > 1 => y[i - 1] < y[i])
                                               /\ \A i \in (r + 1)..Len(y) : y[i] = i \/ y[i] <= r
Matching(C, n) == [i \in 1..n |-> LET P == {c \in C : i \in {c[1], c[2]}} IN
                    IF P = {} THEN i ELSE LET c == CHOOSE x \in P : TRUE IN IF c[1] = i THEN c[2] ELSE c[1]]
InvGr(mu) == LET r == Len(mu) IN TrimW(Matching({<<r + 1 - k, r + mu[k]>> : k \in 1..r}, r + Part(mu, 1)))
(* fpf Grassmannian: r + 1 - k is matched with r + 1 + mu_k, the other points are paired consecutively *)
RECURSIVE PairUp(_)
PairUp(S) == IF Cardinality(S) < 2 THEN {} ELSE LET a == MinSet(S, 1000000) b == MinSet(S \ {a}, 1000000) IN {<<a, b>>} \cup PairUp(S \ {a, b})
FpfGr(mu) == IF mu = <<>> THEN Id ELSE
    LET r == Len(mu) N == r + 1 + mu[1] + ((r + 1 + mu[1]) % 2)
        C == {<<r + 1 - k, r + 1 + mu[k]>> : k \in 1..r}
        used == UNION {{c[1], c[2]} : c \in C}
    IN TrimW(Matching(C \cup PairUp((1..N) \ used), N))
(* the usual fpf-Grassmannian condition: the cycles with a top between their ends form a Grassmannian involution *)
IsFpfGr(z) == /\ IsFpf(z) /\ Pos(z)
              /\ LET cyc == {<<a, z[a]>> : a \in {x \in 1..Len(z) : x < z[x]}}
                     F == {c \in cyc : \E d \in cyc : c[1] < d[2] /\ d[2] < c[2]}
                     n == MinSet({c[2] : c \in F}, 1000000) - 1
                 IN F = {} \/ (/\ {c[2] : c \in F} = (n + 1)..(n + Cardinality(F))
                               /\ \A c \in F : c[1] <= n
                               /\ \A c, d \in F : c[1] < d[1] <=> c[2] < d[2])
Stair(n, step) == LET d == [i \in 1..(n + 1) |-> IF n - 1 - step * (i - 1) > 0 THEN n - 1 - step * (i - 1) ELSE 0] IN TrimZ(d)
=============================================================================
