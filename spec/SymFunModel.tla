---------------------------- MODULE SymFunModel -----------------------------
(* Design model: a partition grows one box at a time; at every shape the     *)
(* functions of SymFun satisfy the identities that their definitions imply.  *)
EXTENDS SymFun
CONSTANTS N, MaxSize
VARIABLES mu
vars == <<mu>>
Init == mu = <<>>
Grow == Size(mu) < MaxSize /\ \E i \in 1..(Len(mu) + 1) : CanAdd(mu, i, FALSE) /\ mu' = AddBox(mu, i)
Next == Grow
Spec == Init /\ [][Next]_vars
F(fam, m) == Fun(fam, N, m, <<>>)
SB(f, g) == SMul(N, f, g)
(* fillings are counted alike at every rearrangement of a weight *)
Symmetric ==
    \A fam \in {"s", "G", "g", "S"} \cup (IF IsStrict(mu) THEN {"P", "Q", "GP", "GQ", "gp", "gq"} ELSE {}) :
        LET T == TLCEval(CountTable(Weights(FamOpt(fam), N, mu, <<>>)))
        IN \A w \in DOMAIN T : SortDown(w) \in DOMAIN T /\ T[SortDown(w)] = T[w]
(* Schur functions are the alternants' quotients: s_mu times the Vandermonde determinant *)
Sign(w) == IF Cardinality({p \in (1..N) \X (1..N) : p[1] < p[2] /\ w[p[1]] > w[p[2]]}) % 2 = 0 THEN 1 ELSE -1
PermsN == {w \in [1..N -> 1..N] : Cardinality({w[i] : i \in 1..N}) = N}
Alt(a) == FoldSet(LAMBDA w, acc : PAdd(acc, PScale([m \in {XMon([i \in 1..N |-> a[w[i]]], 1)} |-> 1], Sign(w))), Zero, PermsN)
Alternant == Len(mu) <= N =>
    PMul(SExpand(N, F("s", mu), 1), Alt([i \in 1..N |-> N - i])) = Alt([i \in 1..N |-> Part(mu, i) + N - i])
(* Q = 2^length P, and one-row / one-column relations *)
TwoPower == IsStrict(mu) => F("Q", mu) = VScale(F("P", mu), PConst(2 ^ Len(mu)))
OneRow == Len(mu) = 1 =>
    /\ F("GQ", mu) = VAdd(VScale(F("GP", mu), PConst(2)), VScale(F("GP", <<mu[1] + 1>>), Beta))
    /\ F("g", mu) = F("s", mu)
(* setting beta to zero gives the Schur-type function *)
AtZero(f) == LET Z == {k \in DOMAIN f : {} \in DOMAIN f[k]} IN [k \in Z |-> PConst(f[k][{}])]
Classical == /\ AtZero(F("G", mu)) = F("s", mu) /\ AtZero(F("g", mu)) = F("s", mu)
             /\ AtZero(F("GS", mu)) = F("S", mu)
             /\ IsStrict(mu) => /\ AtZero(F("GP", mu)) = F("P", mu) /\ AtZero(F("GQ", mu)) = F("Q", mu)
                                /\ AtZero(F("gp", mu)) = F("P", mu) /\ AtZero(F("gq", mu)) = F("Q", mu)
                                /\ AtZero(F("jp", mu)) = F("P", mu) /\ AtZero(F("jq", mu)) = F("Q", mu)
             /\ AtZero(F("j", mu)) = F("s", mu) /\ AtZero(F("js", mu)) = F("S", mu)
(* Grassmannian permutations have the Grothendieck functions of their shapes *)
GrassOf(m) == [i \in 1..(Len(m) + Part(m, 1)) |->
                 IF i <= Len(m) THEN i + m[Len(m) + 1 - i]
                 ELSE LET used == {k + m[Len(m) + 1 - k] : k \in 1..Len(m)}
                          rest == SortSeq(FoldSet(LAMBDA x, acc : Append(acc, x), <<>>, (1..(Len(m) + Part(m, 1))) \ used), LAMBDA a, b : a < b)
                      IN rest[i - Len(m)]]
Grassmannian == Len(mu) + Part(mu, 1) <= 4 =>
    GPerm("hecke", "dec", GrassOf(mu), N, Size(mu) + 2) = STruncate(F("G", mu), Size(mu) + 2)
(* skewing by nothing, and the doubled skew shape by corners *)
SkewSame == \A fam \in {"G", "GS"} : DoubleBar(fam, N, mu, <<>>) = F(fam, mu)
(* one row: G_{m // m} = 1 + beta G_{m / (m-1)} *)
DoubleSelf == Len(mu) = 1 => DoubleBar("G", N, mu, mu) = VAdd(SOne, VScale(Fun("G", N, mu, TrimZ(<<mu[1] - 1>>)), Beta))
=============================================================================
