------------------------------ MODULE RibbonModel -----------------------------
(* Labelling a ribbon box by box.  The labellings reached are exactly the       *)
(* fillings defined box against box, and their numbers are the structure        *)
(* constants of multiplying by the function of a row.                           *)
EXTENDS Ribbons
CONSTANTS MaxMu, MaxP, NVars, PieriMu, PieriP, DualMu, DualP
VARIABLES kind, mu, nu, p, f
vars == <<kind, mu, nu, p, f>>
StrictUpTo(d) == {k \in UNION {PartsOf(x, x, x) : x \in 0..d} : IsStrict(k)}
B == RibbonSeq(Skew(nu, mu, TRUE))
Init == /\ kind \in {"KOG", "KLG"} /\ p \in 0..MaxP /\ mu \in StrictUpTo(MaxMu) /\ f = <<>>
        /\ nu \in RibbonsOver(mu, p + 2)
Next == /\ Len(f) < Len(B)
        /\ \E v \in NextLabels(kind, p, B, f) : f' = Append(f, v)
        /\ UNCHANGED <<kind, mu, nu, p>>
Spec == Init /\ [][Next]_vars
(* what is reached satisfies the definition, apart from using every letter *)
Sound == Defined(kind, Cardinality({AbsLab(kind, v) : v \in SetOf(f)}), SubSeq(B, 1, Len(f)), [i \in 1..Len(f) |->
            LET S == {AbsLab(kind, v) : v \in SetOf(f)} a == AbsLab(kind, f[i]) k == Cardinality({x \in S : x <= a})
            IN IF kind = "KOG" THEN k ELSE 2 * k - (f[i] % 2)])
(* nothing is lost: at the start, all fillings satisfying the definition are reachable *)
Complete == f = <<>> /\ Len(B) <= 4 /\ p <= 2 =>
    {g \in [1..Len(B) -> Lab(kind, p)] : Defined(kind, p, B, g)} = RibbonTabs(kind, p, B)
(* long first rows carry no tableaux *)
Bounded == f = <<>> /\ nu \notin Reach(kind, p, mu) => RibbonTabs(kind, p, B) = {}
ASSUME \A fam \in {"GP", "GQ"} : \A m \in StrictUpTo(PieriMu) : \A q \in 0..PieriP :
    Len(m) < NVars =>
    SMul(NVars, Fun(fam, NVars, m, <<>>), Fun(fam, NVars, IF q = 0 THEN <<>> ELSE <<q>>, <<>>)) =
    VApply(PieriVector(fam, m, q), LAMBDA k : Fun(fam, NVars, k, <<>>))
ASSUME \A fam \in {"gp", "gq"} : \A m \in StrictUpTo(DualMu) : \A q \in 1..DualP :
    Len(m) < NVars =>
    SMul(NVars, Fun(fam, NVars, m, <<>>), Fun(fam, NVars, <<q>>, <<>>)) =
    VApply(DualPieriVector(fam, m, q), LAMBDA k : Fun(fam, NVars, k, <<>>))
=============================================================================
