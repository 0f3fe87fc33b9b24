----------------------------- MODULE GrowthModel ------------------------------
(* A growth diagram filled cell by cell with the local rule.  kind "rsk" or     *)
(* "shifted"; the filled part always agrees with insertion.                     *)
EXTENDS Growth
CONSTANTS N, M, MaxEntry, MaxTotal, MaxLetter, MaxLen
VARIABLES kind, A, w, g, at
vars == <<kind, A, w, g, at>>
Arrays == {a \in [((1..N) \X (1..M)) -> 0..MaxEntry] : SumOver(DOMAIN a, LAMBDA x : a[x]) <= MaxTotal}
AsSet(a) == {<<x[1], x[2], a[x]>> : x \in {y \in DOMAIN a : a[y] > 0}}
Words == UNION {[1..k -> 0..MaxLetter] : k \in 0..MaxLen}
Blank(n, m) == [i \in 1..(n + 1) |-> [j \in 1..(m + 1) |-> <<>>]]
BlankS(n, m) == [i \in 1..(n + 1) |-> [j \in 1..(m + 1) |-> <<(<<>>), FALSE, 0>>]]
Init == /\ at = <<2, 2>>
        /\ \/ kind = "rsk" /\ A \in {AsSet(a) : a \in Arrays} /\ w = <<>> /\ g = Blank(N, M)
           \/ kind = "shifted" /\ A = {} /\ w \in Words /\ g = BlankS(MaxLetter, Len(w))
Rws == IF kind = "rsk" THEN N + 1 ELSE MaxLetter + 1
Cls == IF kind = "rsk" THEN M + 1 ELSE Len(w) + 1
Next == /\ at[1] <= Rws /\ at[2] <= Cls
        /\ LET i == at[1] j == at[2] IN
           /\ g' = [g EXCEPT ![i][j] = IF kind = "rsk" THEN LocalRule(g[i - 1][j - 1], g[i - 1][j], g[i][j - 1], EntryAt(A, i - 1, j - 1))
                                       ELSE ShiftedRule(g[i - 1][j - 1][1], g[i - 1][j][1], g[i - 1][j][2], g[i - 1][j][3], g[i][j - 1][1],
                                                        IF w[j - 1] = i - 1 THEN 1 ELSE 0)]
           /\ at' = IF j = Cls THEN <<i + 1, 2>> ELSE <<i, j + 1>>
        /\ UNCHANGED <<kind, A, w>>
Spec == Init /\ [][Next]_vars
Shape(x) == IF kind = "rsk" THEN x ELSE x[1]
HStrip(a, b) == SH!ContainsP(a, b) /\ \A k \in 1..(Len(a) - 1) : Pt(b, k) >= Pt(a, k + 1)
LastRow == IF at[2] = 2 THEN at[1] - 1 ELSE at[1]
(* neighbouring cells differ by a horizontal strip (ordinary), or by at most one box across and a strip without 2 x 2 squares up (shifted) *)
Steps == \A i \in 2..(at[1] - 1), j \in 2..Cls :
    IF kind = "rsk" THEN HStrip(g[i][j], g[i][j - 1]) /\ HStrip(g[i][j], g[i - 1][j])
    ELSE /\ SH!ContainsP(g[i][j][1], g[i][j - 1][1]) /\ SH!Size(g[i][j][1]) - SH!Size(g[i][j - 1][1]) <= 1
         /\ SH!ContainsP(g[i][j][1], g[i - 1][j][1]) /\ SH!IsStrict(g[i][j][1])
AgreesWithInsertion == at[1] > Rws => g = (IF kind = "rsk" THEN RskGrid(A, M, N) ELSE InsertionGrid(w, MaxLetter))
Total == at[1] > Rws /\ kind = "rsk" => SH!Size(g[Rws][Cls]) = SumOver(A, LAMBDA x : x[3])
(* reflecting the array reflects the diagram *)
Reflects == at[1] > Rws /\ kind = "rsk" => RskGrid({<<x[2], x[1], x[3]>> : x \in A}, N, M) = [j \in 1..(M + 1) |-> [i \in 1..(N + 1) |-> g[i][j]]]
(* symmetric arrays: the number of odd columns counts the diagonal *)
OddColumns == at[1] > Rws /\ kind = "rsk" /\ N = M /\ A = {<<x[2], x[1], x[3]>> : x \in A} =>
    Cardinality({j \in 1..Pt(g[Rws][Cls], 1) : SH!Transpose(g[Rws][Cls])[j] % 2 = 1}) = SumOver({x \in A : x[1] = x[2]}, LAMBDA x : x[3])
=============================================================================
