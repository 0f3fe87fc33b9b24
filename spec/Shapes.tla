------------------------------- MODULE Shapes -------------------------------
(* Partitions (weakly decreasing sequences of positive integers), strict     *)
(* partitions, Young diagrams and shifted diagrams as sets of boxes.         *)
EXTENDS Fold, TLC

Part(mu, i) == IF i \in 1..Len(mu) THEN mu[i] ELSE 0
IsPartition(mu) == \A i \in 1..Len(mu) : mu[i] > 0 /\ (i > 1 => mu[i - 1] >= mu[i])
IsStrict(mu) == \A i \in 1..Len(mu) : mu[i] > 0 /\ (i > 1 => mu[i - 1] > mu[i])
Size(mu) == SumOfSeq(mu)
Off(sh, i) == IF sh THEN i - 1 ELSE 0
Diagram(mu, sh) == {<<i, j + Off(sh, i)>> : i \in 1..Len(mu), j \in 1..Part(mu, 1)} \cap
                   UNION {{<<i, j + Off(sh, i)>> : j \in 1..mu[i]} : i \in 1..Len(mu)}
Skew(mu, nu, sh) == UNION {{<<i, j + Off(sh, i)>> : j \in (Part(nu, i) + 1)..mu[i]} : i \in 1..Len(mu)}
ContainsP(mu, nu) == Len(nu) <= Len(mu) /\ \A i \in 1..Len(nu) : nu[i] <= mu[i]

RECURSIVE TrimZ(_)
TrimZ(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN TrimZ(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE SortDown(_)
SortDown(s) == SortSeq(s, LAMBDA a, b : a > b)

(* all partitions of n with parts <= mx and at most rows parts *)
RECURSIVE PartsOf(_, _, _)
PartsOf(n, mx, rows) ==
    IF n = 0 THEN {<<>>}
    ELSE IF rows = 0 THEN {}
    ELSE UNION {{<<i>> \o p : p \in PartsOf(n - i, i, rows - 1)} : i \in 1..(IF mx < n THEN mx ELSE n)}
(* all partitions between nu and mu *)
RECURSIVE BetweenFrom(_, _, _, _)
BetweenFrom(mu, nu, i, prev) ==
    IF i > Len(mu) THEN {<<>>}
    ELSE UNION {{<<a>> \o r : r \in BetweenFrom(mu, nu, i + 1, a)}
                   : a \in Part(nu, i)..(IF prev < mu[i] THEN prev ELSE mu[i])}
Between(mu, nu) == {TrimZ(p) : p \in BetweenFrom(mu, nu, 1, Part(mu, 1))}
BetweenStrict(mu, nu) == {p \in Between(mu, nu) : IsStrict(p)}
(* shapes reachable by adding at most `extra' boxes to the first row, and at most one new row below, bounded by row lengths *)
FromRows(S) == LET n == MaxSet({b[1] : b \in S}, 0)
               IN [i \in 1..n |-> Cardinality({b \in S : b[1] = i})]

(* strips *)
OnePerRow(S) == \A a, b \in S : a[1] = b[1] => a = b
OnePerColumn(S) == \A a, b \in S : a[2] = b[2] => a = b
OnePerDiagonal(S) == \A a, b \in S : a[2] - a[1] = b[2] - b[1] => a = b
NoTwoAdjacent(S) == \A b \in S : <<b[1] + 1, b[2]>> \notin S /\ <<b[1], b[2] + 1>> \notin S

Transpose(mu) == [j \in 1..Part(mu, 1) |-> Cardinality({i \in 1..Len(mu) : mu[i] >= j})]
IsShape(S, sh) == LET mu == FromRows(S) IN S = Diagram(mu, sh) /\ (IF sh THEN IsStrict(mu) ELSE IsPartition(mu))
CanAdd(mu, i, sh) == LET nu == [k \in 1..(IF i > Len(mu) THEN i ELSE Len(mu)) |-> Part(mu, k) + (IF k = i THEN 1 ELSE 0)]
                     IN IF sh THEN IsStrict(nu) ELSE IsPartition(nu)
AddBox(mu, i) == [k \in 1..(IF i > Len(mu) THEN i ELSE Len(mu)) |-> Part(mu, k) + (IF k = i THEN 1 ELSE 0)]
CanRemove(mu, i, sh) == i \in 1..Len(mu) /\ LET nu == TrimZ([mu EXCEPT ![i] = @ - 1])
                                            IN IF sh THEN IsStrict(nu) ELSE IsPartition(nu)
RemoveBox(mu, i) == TrimZ([mu EXCEPT ![i] = @ - 1])
Translate(S, d) == {<<b[1], b[2] + d>> : b \in S}
RECURSIVE Comps(_)
Comps(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<i>> \o c : c \in Comps(n - i)} : i \in 1..n}
TailSum(a, i) == SumOver(i..Len(a), LAMBDA k : a[k])
UnionP(p, q) == [i \in 1..(IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)) |->
                   IF Part(p, i) > Part(q, i) THEN Part(p, i) ELSE Part(q, i)]
=============================================================================
