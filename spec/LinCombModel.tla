---------------------------- MODULE LinCombModel ----------------------------
(* Design model: elementary row operations on a small integer matrix.  The  *)
(* invariants say that rank and row space, as computed by the elimination   *)
(* operators of LinComb, are what elementary operations preserve, and agree *)
(* with a determinant computation.                                          *)
EXTENDS LinComb
CONSTANTS Bound
VARIABLES M, start
vars == <<M, start>>
Rows == [1..3 -> {-1, 0, 2}]
Init == /\ M \in [1..2 -> Rows] /\ start = M
InBound(r) == \A j \in DOMAIN r : AbsV(r[j]) <= Bound
Swap == M' = <<M[2], M[1]>>
Scale(i, c) == InBound(M'[i]) /\ M' = [M EXCEPT ![i] = [j \in 1..3 |-> c * M[i][j]]]
AddMul(i, k, c) == i # k /\ M' = [M EXCEPT ![i] = [j \in 1..3 |-> M[i][j] + c * M[k][j]]]
Next == /\ \/ Swap
           \/ \E i \in 1..2, c \in {-1, 2} : M' = [M EXCEPT ![i] = [j \in 1..3 |-> c * M[i][j]]]
           \/ \E i, k \in 1..2, c \in {-1, 1} : AddMul(i, k, c)
        /\ \A i \in 1..2 : InBound(M'[i])
        /\ start' = start
Spec == Init /\ [][Next]_vars
Minor(A, a, b) == A[1][a] * A[2][b] - A[1][b] * A[2][a]
RankByMinors(A) == IF \E a, b \in 1..3 : Minor(A, a, b) # 0 THEN 2
                   ELSE IF \E i \in 1..2 : ~IsZeroRow(A[i]) THEN 1 ELSE 0
RankOk == MatRank(M) = RankByMinors(M) /\ MatRank(start) = MatRank(M)
SpaceOk == SameRowSpace(start, M)
Cross == LET a == M[1] b == M[2] n == <<a[2]*b[3]-a[3]*b[2], a[3]*b[1]-a[1]*b[3], a[1]*b[2]-a[2]*b[1]>> IN
         \A r \in {<<1, 0, 0>>, <<1, 1, -1>>, <<0, 2, 1>>} :
            MatRank(M) = 2 => (InSpan(r, M) <=> (r[1]*n[1] + r[2]*n[2] + r[3]*n[3] = 0))
=============================================================================
