------------------------------- MODULE SymFun -------------------------------
(* The symmetric functions of the library, as tables partition |-> Laurent   *)
(* polynomial in beta, from the fillings of Tabs.                            *)
(*   s P Q S       Schur-type: coefficient = number of fillings              *)
(*   G GP GQ GS    set-valued: beta^(|lambda| - boxes)                       *)
(*   g gp gq gs    (marked) reverse plane partitions: (-beta)^(boxes-|lambda|)*)
(*   j jp jq js    valued-set: beta^(boxes - |lambda|)                       *)
EXTENDS Layers, SymPoly
LOCAL PR == INSTANCE Factor

Opt(sh, mk, sv, dg, rp) == [sh |-> sh, marked |-> mk, setv |-> sv, diag |-> dg, rpp |-> rp]
FamOpt(fam) ==
    CASE fam \in {"s", "j"} -> Opt(FALSE, FALSE, FALSE, "any", FALSE)
      [] fam = "G" -> Opt(FALSE, FALSE, TRUE, "any", FALSE)
      [] fam \in {"S", "js"} -> Opt(FALSE, TRUE, FALSE, "any", FALSE)
      [] fam = "GS" -> Opt(FALSE, TRUE, TRUE, "any", FALSE)
      [] fam \in {"P", "jp"} -> Opt(TRUE, TRUE, FALSE, "noprime", FALSE)
      [] fam \in {"Q", "jq"} -> Opt(TRUE, TRUE, FALSE, "any", FALSE)
      [] fam = "GP" -> Opt(TRUE, TRUE, TRUE, "noprime", FALSE)
      [] fam = "GQ" -> Opt(TRUE, TRUE, TRUE, "any", FALSE)
      [] fam = "g" -> Opt(FALSE, FALSE, FALSE, "any", TRUE)
      [] fam = "gp" -> Opt(TRUE, TRUE, FALSE, "onlyprime", TRUE)
      [] fam = "gq" -> Opt(TRUE, TRUE, FALSE, "any", TRUE)
      (* the shape moved off the diagonal *)
      [] fam = "gs" -> Opt(FALSE, TRUE, FALSE, "any", TRUE)
BPow(k, neg) == PScale(PVar(0, k), IF neg /\ k % 2 = 1 THEN -1 ELSE 1)
Boxes0(mu, nu) == Size(mu) - Size(nu)

(* valued-set tableaux: equal neighbours in a row (unprimed) or a column     *)
(* (primed) may be grouped; the weight counts groups                         *)
Lines(p, B, k) == Cardinality({B[i][1] : i \in {x \in 1..Len(B) : 2 * k \in p[x]}})
                + Cardinality({B[i][2] : i \in {x \in 1..Len(B) : 2 * k - 1 \in p[x]}})
Groupings(p, B, M, alpha) ==
    LET w == WeightOf(p, M)
    IN FoldSet(LAMBDA k, acc : acc * Choose(w[k] - Lines(p, B, k), alpha[k] - Lines(p, B, k)), 1, 1..M)
VstTable(opt, M, mu, nu) ==
    LET B == Boxes(mu, nu, opt.sh)
        F == Fillings(opt, M, mu, nu)
        cand == {lam \in UNION {PartsOf(d, d, M) : d \in 0..Len(B)} : TRUE}
        cnt == TLCEval([lam \in cand |-> SumOver(F, LAMBDA p : Groupings(p, B, M, Pad(lam, M)))])
    IN IF ~ContainsP(mu, nu) THEN <<>> ELSE [lam \in {x \in cand : cnt[x] # 0} |-> cnt[lam]]

FamTable(fam, n, mu, nu) ==
    IF ~ContainsP(mu, nu) THEN <<>>
    ELSE IF fam \in {"j", "jp", "jq", "js"} THEN VstTable(FamOpt(fam), n, mu, nu)
    ELSE PartitionTable(FamOpt(fam), n, mu, nu)
(* the same by layers, for all but the smallest diagrams *)
LOpt(fam) == LET o == FamOpt(fam) IN [sh |-> o.sh, marked |-> o.marked, setv |-> o.setv, diag |-> o.diag, rpp |-> o.rpp, grp |-> fam \in {"j", "jp", "jq", "js"}]
FunTable(fam, n, mu, nu) ==
    IF ~ContainsP(mu, nu) THEN <<>>
    ELSE IF Boxes0(mu, nu) <= 3 /\ n <= 3 /\ (Boxes0(mu, nu) <= 1 \/ n <= 1 \/ ~(LOpt(fam).marked /\ LOpt(fam).setv) \/ Boxes0(mu, nu) + n <= 4) THEN FamTable(fam, n, mu, nu)
    ELSE LayerTable(LOpt(fam), n, mu, nu)
FamCoef(fam, d) == CASE fam \in {"s", "P", "Q", "S"} -> One                 \* d = |lambda| - boxes
                     [] fam \in {"G", "GP", "GQ", "GS"} -> BPow(d, FALSE)
                     [] fam \in {"g", "gp", "gq", "gs"} -> BPow(-d, TRUE)
                     [] fam \in {"j", "jp", "jq", "js"} -> BPow(-d, FALSE)
Fun(fam, n, mu, nu) ==
    LET T == TLCEval(FunTable(fam, n, mu, nu))
    IN [lam \in DOMAIN T |-> PScale(FamCoef(fam, Size(lam) - Boxes0(mu, nu)), T[lam])]
NegFun(fam, n, mu, nu) == SNegBeta(Fun(fam, n, mu, nu))
FamShifted(fam) == FamOpt(fam).sh
(* inner corners removed from nu in all ways *)
Corners(nu, sh) == {i \in 1..Len(nu) : CanRemove(nu, i, sh)}
CutCorners(nu, S) == TrimZ([i \in 1..Len(nu) |-> IF i \in S THEN nu[i] - 1 ELSE nu[i]])
DoubleBar(fam, n, mu, nu) ==
    IF ~ContainsP(mu, nu) THEN VZero
    ELSE FoldSet(LAMBDA S, acc : VAdd(acc, VScale(Fun(fam, n, mu, CutCorners(nu, S)), BPow(Cardinality(S), FALSE))),
                 VZero, SUBSET Corners(nu, FamShifted(fam)))
(* diagonal absolute values, box by box from (1,1) *)
DiagVec(p, B) == LET D == {i \in 1..Len(B) : B[i][1] = B[i][2]}
                     k == CHOOSE k \in 0..Len(B) : /\ \A i \in 1..k : At(B, <<i, i>>) # 0
                                                   /\ At(B, <<k + 1, k + 1>>) = 0
                 IN [i \in 1..k |-> AbsOf(CHOOSE r \in p[At(B, <<i, i>>)] : TRUE)]
Refined(fam, n, mu, nu) ==
    LET opt == FamOpt(fam) B == Boxes(mu, nu, opt.sh)
        W == TLCEval(Weights(opt, n, mu, nu))
        D == TLCEval([p \in DOMAIN W |-> DiagVec(p, B)])
        part(v) == FoldSet(LAMBDA p, T : IF D[p] = v /\ IsWeakDown(W[p]) THEN Bump1(T, TrimZ(W[p])) ELSE T, <<>>, DOMAIN W)
        tab == TLCEval([v \in {D[p] : p \in DOMAIN W} |-> part(v)])
    IN [v \in {x \in DOMAIN tab : tab[x] # <<>>} |->
           [lam \in DOMAIN tab[v] |-> PScale(FamCoef(fam, Size(lam) - Boxes0(mu, nu)), tab[v][lam])]]

(* Grothendieck functions of (signed) permutations and involutions *)
GPerm(kind, style, w, n, bound) ==
    LET F == PR!Factorizations(kind, style, Len(w), w, n, bound)
        ell == PR!MinLen(kind, w)
    IN [lam \in {f[1] : f \in F} |-> PScale(BPow(Size(lam) - ell, FALSE), (CHOOSE f \in F : f[1] = lam)[2])]
RibbonOuter(a) == [i \in 1..Len(a) |-> TailSum(a, i)]
RibbonInner(a) == [i \in 1..(Len(a) - 1) |-> TailSum(a, i + 1)]
=============================================================================
