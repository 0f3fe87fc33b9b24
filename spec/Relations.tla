----------------------------- MODULE Relations ------------------------------
(* How the families of symmetric functions are tied to each other.           *)
(* Every coefficient is an integer times a power of beta that is forced by   *)
(* the degrees, so a function is read as a table partition |-> integer:      *)
(*   branching    the function in n + m variables, by shapes in between      *)
(*   coproduct    the function of a permutation, by Demazure factorizations  *)
(*   pairing      sums of products over all shapes are product kernels       *)
(*   structure    products in one family are skew functions of its dual      *)
(*   classical    beta = 0 gives the Schur-type function                     *)
(*   doubling     Q is a power of two times P                                *)
EXTENDS SymFun
LOCAL HW == INSTANCE HeckeWords
Sel(p, I) == LET s == SortSeq(FoldSet(LAMBDA i, acc : Append(acc, i), <<>>, I), LAMBDA i, k : i < k) IN [i \in 1..Len(s) |-> p[s[i]]]

(* the exponent of beta at lam, for a function of the given number of boxes *)
HomSign(fam) == CASE fam \in {"s", "P", "Q", "S"} -> 0
                  [] fam \in {"G", "GP", "GQ", "GS"} -> 1
                  [] OTHER -> -1
BMon(k) == IF k = 0 THEN {} ELSE {<<0, k>>}
Range == 20000
Homogeneous(f, sg, boxes) ==
    \A k \in DOMAIN f : /\ DOMAIN f[k] = {BMon(sg * (Size(k) - boxes))}
                        /\ IF sg = 0 THEN Size(k) = boxes ELSE sg * (Size(k) - boxes) >= 0
Moderate(f) == \A k \in DOMAIN f : \A m \in DOMAIN f[k] : f[k][m] \in (-Range)..Range      \* sums of products stay machine integers
IntTable(f) == [k \in DOMAIN f |-> f[k][CHOOSE m \in DOMAIN f[k] : TRUE]]
At0(T, k) == IF k \in DOMAIN T THEN T[k] ELSE 0
Splits(p, n, m) == {<<Sel(p, I), Sel(p, (1..Len(p)) \ I)>> : I \in {J \in SUBSET (1..Len(p)) : Cardinality(J) <= n /\ Len(p) - Cardinality(J) <= m}}

(* ---- splitting the variables ---- *)
(* full: table in n + m variables; A, B: families of tables in n and in m variables with the same index set *)
SplitOk(full, A, B, n, m, bound) ==
    LET KA == UNION {DOMAIN A[x] : x \in DOMAIN A}
        KB == UNION {DOMAIN B[x] : x \in DOMAIN B}
        idx == TLCEval([a \in KA |-> {x \in DOMAIN A : a \in DOMAIN A[x]}])
        tot(a, b) == SumOver(idx[a], LAMBDA x : A[x][a] * At0(B[x], b))
    IN /\ \A a \in KA : \A b \in KB : (bound < 0 \/ Size(a) + Size(b) <= bound) => tot(a, b) = At0(full, SortDown(a \o b))
       /\ \A p \in DOMAIN full : (bound < 0 \/ Size(p) <= bound) => \A s \in Splits(p, n, m) : s[1] \in KA /\ s[2] \in KB
InBetween(fam, mu, nu) == IF FamShifted(fam) THEN BetweenStrict(mu, nu) ELSE Between(mu, nu)
(* pairs (u, v) with u o v = w; for involutions v^-1 o y o v = z *)
Elements(kind, n) == CASE kind = "hecke" -> HW!Sym(n) [] kind = "ihecke" -> HW!Invols(n) [] kind = "shecke" -> HW!Fpfs(n)
Act2(kind, u, v) == FoldLeft(LAMBDA w, i : IF w = HW!None THEN w ELSE IF HW!CanStep(kind, w, i) THEN HW!DoStep(kind, w, i) ELSE HW!None, u, HW!AReducedWord(v))
Factors(kind, w, n) == {p \in Elements(kind, n) \X HW!Sym(n) : Act2(kind, p[1], p[2]) = w}
ELen(kind, w) == CASE kind = "hecke" -> HW!Length(w) [] kind = "ihecke" -> HW!InvLength(w) [] kind = "shecke" -> HW!FpfLength(w)

(* ---- kernels: coefficients of one factor f(x y) at x^k y^l ---- *)
Kern(kind, k, l) ==
    CASE kind = "geo" -> IF k = l THEN 1 ELSE 0                                 \* 1 / (1 - xy)
      [] kind = "elem" -> IF k = l /\ k <= 1 THEN 1 ELSE 0                      \* 1 + xy
      [] kind = "twice" -> IF k # l THEN 0 ELSE IF k = 0 THEN 1 ELSE 2           \* (1 + xy) / (1 - xy)
      [] kind = "bar" -> (IF k = l THEN 1 ELSE 0)                               \* (1 - [-x/(1+bx)] y) / (1 - xy)
                         + (IF l >= 1 /\ k >= l THEN (IF (k - l) % 2 = 0 THEN 1 ELSE -1) ELSE 0)
      [] kind = "obar" -> LET inv(i, j) == IF i = 0 /\ j = 0 THEN 1 ELSE IF j >= 1 /\ i >= j THEN Choose(i - 1, i - j) ELSE 0
                          IN inv(k, l) + (IF k >= 1 /\ l >= 1 THEN inv(k - 1, l - 1) ELSE 0)      \* (1 + xy) / (1 - [x/(1-bx)] y)
(* one variable x to the power k against y_1..y_m: table of exponent vectors *)
AddT(T, v, c) == IF c = 0 THEN T ELSE IF v \in DOMAIN T THEN [T EXCEPT ![v] = @ + c] ELSE T @@ (v :> c)
RECURSIVE RowKern(_, _, _, _)
RowKern(kind, k, m, d) ==
    IF m = 0 THEN (IF k = 0 THEN (<<>> :> 1) ELSE <<>>)
    ELSE LET T == TLCEval([j \in 0..k |-> RowKern(kind, k - j, m - 1, d)])
             cells == {<<j, v, l>> \in (0..k) \X (UNION {DOMAIN T[j] : j \in 0..k}) \X (0..d) :
                          v \in DOMAIN T[j] /\ Kern(kind, j, l) # 0 /\ SumOfSeq(v) + l <= d}
         IN FoldSet(LAMBDA c, acc : AddT(acc, Append(c[2], c[3]), T[c[1]][c[2]] * Kern(kind, c[1], c[3])), <<>>, cells)
RECURSIVE ProdKern(_, _, _, _)
ProdKern(R, a, m, d) ==
    IF a = <<>> THEN ([i \in 1..m |-> 0] :> 1)
    ELSE LET T == TLCEval(ProdKern(R, Tail(a), m, d))
             cells == {p \in (DOMAIN T) \X (DOMAIN R[a[1]]) : SumOfSeq(p[1]) + SumOfSeq(p[2]) <= d}
         IN FoldSet(LAMBDA p, acc : AddT(acc, [i \in 1..m |-> p[1][i] + p[2][i]], T[p[1]] * R[a[1]][p[2]]), <<>>, cells)
PartsUpTo(d, rows) == UNION {PartsOf(k, k, rows) : k \in 0..d}
(* F, H: families of tables with the same shapes as indices *)
PairOk(kind, F, H, n, m, d) ==
    LET R == TLCEval([k \in 0..d |-> TLCEval(RowKern(kind, k, m, d))])
        tot(a, b) == SumOver({x \in DOMAIN F : a \in DOMAIN F[x] /\ b \in DOMAIN H[x]}, LAMBDA x : F[x][a] * H[x][b])
    IN \A a \in PartsUpTo(d, n) :
           LET K == TLCEval(ProdKern(R, Pad(a, n), m, d)) IN \A b \in PartsUpTo(d, m) : tot(a, b) = At0(K, Pad(b, m))
(* the kernel that belongs to a pair, whether the second shape is transposed, and the sign of beta in the first *)
PairKind(f, h) ==
    CASE f = "s" /\ h = "s" -> "geo" [] f = "G" /\ h = "g" -> "geo"
      [] f \in {"P", "S"} /\ h \in {"Q", "s"} -> "twice"
      [] f = "GP" /\ h = "gq" -> "bar" [] f = "GQ" /\ h = "gp" -> "bar" [] f = "GS" /\ h = "g" -> "bar" [] f = "G" /\ h = "gs" -> "bar"
      [] f = "mG" /\ h = "j" -> "elem"
      [] f = "mGP" /\ h = "jq" -> "obar" [] f = "mGQ" /\ h = "jp" -> "obar" [] f = "mG" /\ h = "js" -> "obar"
Transposed(f, h) == f = "mG" /\ h = "j"
PairShapes(f, d) == {p \in PartsUpTo(d, d) : f \in {"P", "GP", "GQ", "mGP", "mGQ"} => IsStrict(p)}
Pairs == {<<"s", "s">>, <<"G", "g">>, <<"P", "Q">>, <<"S", "s">>, <<"GP", "gq">>, <<"GQ", "gp">>, <<"GS", "g">>, <<"G", "gs">>,
          <<"mG", "j">>, <<"mGP", "jq">>, <<"mGQ", "jp">>, <<"mG", "js">>}
UnNeg(f) == CASE f = "mG" -> "G" [] f = "mGP" -> "GP" [] f = "mGQ" -> "GQ" [] OTHER -> f

Classic(fam) == CASE fam \in {"G", "g", "j"} -> "s" [] fam \in {"GP", "gp", "jp"} -> "P" [] fam \in {"GQ", "gq", "jq"} -> "Q"
                  [] fam \in {"GS", "gs", "js"} -> "S"
AtDegree(T, d) == [k \in {x \in DOMAIN T : Size(x) = d} |-> T[k]]
=============================================================================
