-------------------------------- MODULE Ribbons -------------------------------
(* KOG and KLG tableaux: fillings of shifted ribbons (one box per diagonal),   *)
(* labelled box by box from south-west to north-east.                          *)
(*   KOG: labels 1..p; rows and columns strictly increase; each box is <= all  *)
(*        boxes south-west of it or >= all of them.                            *)
(*   KLG: ranks 1 < 2 < .. of 1' < 1 < 2' < 2 ..; rows and columns strictly    *)
(*        increase; a primed box is <= all boxes south-west of it, an unprimed *)
(*        box is >= all of them; no primes on the diagonal.                    *)
(* All of 1..p occur.                                                          *)
EXTENDS SymFun

RibbonSeq(S) == SortSeq(FoldSet(LAMBDA b, acc : Append(acc, b), <<>>, S), LAMBDA a, b : a[1] > b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
(* strict shapes la with la / mu a ribbon with at most bound boxes in its first row *)
RibbonsOver(mu, bound) ==
    {p \in BetweenStrict([i \in 1..(Len(mu) + 1) |-> IF i = 1 THEN Part(mu, 1) + bound ELSE Part(mu, i - 1)], mu) : OnePerDiagonal(Skew(p, mu, TRUE))}
LowOf(f) == MinSet(SetOf(f), 1000)
HighOf(f) == MaxSet(SetOf(f), 0)
(* the labels that box B[k], k = Len(f) + 1, can take after the labels f *)
Lab(kind, p) == IF kind = "KOG" THEN 1..p ELSE 1..(2 * p)
CanLabel(kind, B, f, v) ==
    LET k == Len(f) + 1 b == B[k] IN
    /\ k > 1 /\ B[k - 1] = <<b[1], b[2] - 1>> => v > f[k - 1]
    /\ k > 1 /\ B[k - 1] = <<b[1] + 1, b[2]>> => v < f[k - 1]
    /\ IF kind = "KOG" THEN v <= LowOf(f) \/ v >= HighOf(f)
       ELSE IF v % 2 = 1 THEN b[1] # b[2] /\ v <= LowOf(f) ELSE v >= HighOf(f)
NextLabels(kind, p, B, f) == {v \in Lab(kind, p) : CanLabel(kind, B, f, v)}
AbsLab(kind, v) == IF kind = "KOG" THEN v ELSE AbsOf(v)
RECURSIVE LabelFrom(_, _, _, _, _)
LabelFrom(kind, p, B, F, k) == IF k > Len(B) THEN F
                               ELSE LabelFrom(kind, p, B, UNION {{Append(f, v) : v \in NextLabels(kind, p, B, f)} : f \in F}, k + 1)
FullContent(kind, p, f) == {AbsLab(kind, v) : v \in SetOf(f)} = 1..p
RibbonTabs(kind, p, B) == IF Len(B) < p THEN {} ELSE {f \in LabelFrom(kind, p, B, {<<>>}, 1) : FullContent(kind, p, f)}
(* as sets of <<row, column, value>> *)
ShowLab(kind, v) == IF kind = "KOG" THEN v ELSE Val(v)
AsCells(kind, B, f) == {<<B[k][1], B[k][2], ShowLab(kind, f[k])>> : k \in 1..Len(B)}
TabsOf(kind, p, nu, mu) == LET B == RibbonSeq(Skew(nu, mu, TRUE)) IN {AsCells(kind, B, f) : f \in RibbonTabs(kind, p, B)}
CountOf(kind, p, nu, mu) == Cardinality(RibbonTabs(kind, p, RibbonSeq(Skew(nu, mu, TRUE))))
Reach(kind, p, mu) == RibbonsOver(mu, IF kind = "KOG" THEN p ELSE p + 1)
(* the definitions, box against box *)
Defined(kind, p, B, f) ==
    /\ \A i, j \in 1..Len(B) : (B[j] = <<B[i][1], B[i][2] + 1>> \/ B[j] = <<B[i][1] + 1, B[i][2]>>) => f[i] < f[j]
    /\ \A i \in 1..Len(B) : LET W == {j \in 1..Len(B) : j # i /\ B[j][1] >= B[i][1] /\ B[j][2] <= B[i][2]} IN
        IF kind = "KOG" THEN (\A j \in W : f[i] <= f[j]) \/ (\A j \in W : f[i] >= f[j])
        ELSE IF f[i] % 2 = 1 THEN B[i][1] # B[i][2] /\ \A j \in W : f[i] <= f[j] ELSE \A j \in W : f[i] >= f[j]
    /\ FullContent(kind, p, f)

(* Pieri rules: multiplying by the function of one row *)
PieriVector(fam, mu, p) ==
    LET kind == IF fam = "GP" THEN "KOG" ELSE "KLG"
        S == Reach(kind, p, mu)
        c == TLCEval([nu \in S |-> CountOf(kind, p, nu, mu)])
    IN [nu \in {x \in S : c[x] > 0} |-> PScale(BPow(Size(nu) - Size(mu) - p, FALSE), c[nu])]
(* dual rules: one-letter set-valued fillings of nu / (lam without some removable corners), by number of letters *)
CutsOf(lam) == {CutCorners(lam, S) : S \in SUBSET Corners(lam, TRUE)}
CopieriTabs(nu, lam, dp) ==
    LET opt == FamOpt(IF dp THEN "GQ" ELSE "GP") IN
    UNION {LET B == Boxes(nu, k, TRUE) IN {<<WeightOf(f, 1)[1], {<<B[i][1], B[i][2], {Val(r) : r \in f[i]}>> : i \in 1..Len(B)}>> : f \in Fillings(opt, 1, nu, k)} : k \in CutsOf(lam)}
CopieriCount(nu, lam, r, dp) == Cardinality({x \in CopieriTabs(nu, lam, dp) : x[1] = r})
(* coefficients over the functions of one row: GP_(r) = x^r, GQ_(r) = 2 x^r + beta x^(r+1) in one variable x *)
RECURSIVE RowCoef(_, _, _, _)
RowCoef(nu, lam, r, dp) ==
    LET a == CopieriCount(nu, lam, r, dp) IN
    IF ~dp \/ r = 0 THEN a ELSE (a - (IF r = 1 THEN 0 ELSE RowCoef(nu, lam, r - 1, dp))) \div 2
(* all nu that can occur: ribbons over lam, first row at most r longer *)
DualPieriVector(fam, lam, r) ==
    LET S == {k \in RibbonsOver(lam, r) : Size(k) <= Size(lam) + r}
        c == TLCEval([nu \in S |-> RowCoef(nu, lam, r, fam = "gp")])
    IN [nu \in {x \in S : c[x] # 0} |-> PScale(BPow(Size(lam) + r - Size(nu), FALSE), c[nu])]
(* the last boxes of a ribbon that are connected, at most three *)
Touching(a, b) == a[1] = b[1] \/ a[2] = b[2]
Terminal(B) == LET n == Len(B)
                   k == MinSet({i \in {x \in (n - 2)..n : x >= 1} : \A x \in i..(n - 1) : Touching(B[x], B[x + 1])}, n + 1)
               IN SubSeq(B, k, n)
=============================================================================
