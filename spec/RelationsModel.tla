--------------------------- MODULE RelationsModel ---------------------------
(* Design model: a shape grows one box at a time and an inner shape grows    *)
(* inside it; at every pair the specification's own functions (tables of     *)
(* fillings) satisfy the relations of Relations.  The pairings and the       *)
(* coproducts are checked once per pair of families and per permutation.     *)
EXTENDS Relations
CONSTANTS MaxSize, N, M, Deg, Rk
VARIABLES kind, mu, nu, what
vars == <<kind, mu, nu, what>>
Plain == {"s", "S", "g", "gs", "j", "js"}
Strict == {"P", "Q", "gp", "gq", "jp", "jq"}
Doubled == {"G", "GP", "GQ", "GS"}
Init == \/ kind \in Plain \cup Strict \cup Doubled /\ mu = <<>> /\ nu = <<>> /\ what = "branch"
        \/ kind \in Pairs /\ mu = <<>> /\ nu = <<>> /\ what = "pair"
        \/ kind \in {"hecke", "ihecke", "shecke"} /\ mu \in Elements(kind, IF kind = "shecke" THEN Rk + (Rk % 2) ELSE Rk) /\ nu = <<>> /\ what = "split"
Sh == what = "branch" /\ FamShifted(kind)
GrowOut == what = "branch" /\ Size(mu) < MaxSize /\ \E i \in 1..(Len(mu) + 1) : CanAdd(mu, i, Sh) /\ mu' = AddBox(mu, i) /\ UNCHANGED <<kind, nu, what>>
GrowIn == what = "branch" /\ \E i \in 1..(Len(nu) + 1) : CanAdd(nu, i, Sh) /\ ContainsP(mu, AddBox(nu, i)) /\ nu' = AddBox(nu, i) /\ UNCHANGED <<kind, mu, what>>
Next == GrowOut \/ GrowIn
Spec == Init /\ [][Next]_vars
K(n, a, b) == IntTable(IF kind \in Doubled THEN DoubleBar(kind, n, a, b) ELSE Fun(kind, n, a, b))
Powers == what = "branch" =>
    LET f == IF kind \in Doubled THEN DoubleBar(kind, N + M, mu, nu) ELSE Fun(kind, N + M, mu, nu)
    IN Homogeneous(f, HomSign(kind), Size(mu) - Size(nu))
Branching == what = "branch" =>
    LET S == InBetween(kind, mu, nu)
        A == TLCEval([x \in S |-> TLCEval(K(N, x, nu))]) B == TLCEval([x \in S |-> TLCEval(K(M, mu, x))])
    IN SplitOk(K(N + M, mu, nu), A, B, N, M, -1)
(* the first factor may be the undoubled function when nothing is taken away *)
Stable == what = "branch" => LET T == TLCEval(K(N + M, mu, nu)) IN K(N, mu, nu) = [k \in {x \in DOMAIN T : Len(x) <= N} |-> T[k]]
Classical == what = "branch" /\ kind \notin {"s", "P", "Q", "S"} =>
    AtDegree(K(N, mu, nu), Size(mu) - Size(nu)) = IntTable(Fun(Classic(kind), N, mu, nu))
Doubling == what = "branch" /\ kind = "Q" => Fun("Q", N, mu, nu) = VScale(Fun("P", N, mu, nu), PConst(2 ^ (Len(mu) - Len(nu))))
F(f, n, a) == IF UnNeg(f) = f THEN Fun(f, n, a, <<>>) ELSE SNegBeta(Fun(UnNeg(f), n, a, <<>>))
Pairing == what = "pair" =>
    LET f == kind[1] h == kind[2] S == PairShapes(f, Deg)
        A == TLCEval([x \in S |-> TLCEval(IntTable(STruncate(F(f, N, x), Deg)))])
        B == TLCEval([x \in S |-> TLCEval(IntTable(F(h, M, IF Transposed(f, h) THEN Transpose(x) ELSE x)))])
    IN PairOk(PairKind(f, h), A, B, N, M, Deg)
SplitBound == ELen(kind, mu) + 2
Coproduct == what = "split" =>
    LET n == IF kind = "shecke" THEN Rk + (Rk % 2) ELSE Rk
        P == TLCEval(Factors(kind, mu, n))
        G(k, w, m) == IntTable(GPerm(k, "dec", w, m, SplitBound))
        A == TLCEval([u \in {p[1] : p \in P} |-> TLCEval(G(kind, u, N))])
        B == TLCEval([v \in {p[2] : p \in P} |-> TLCEval(G("hecke", v, M))])
    IN SplitOk(G(kind, mu, N + M), [p \in P |-> A[p[1]]], [p \in P |-> B[p[2]]], N, M, SplitBound)
=============================================================================
