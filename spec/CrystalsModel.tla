---------------------------- MODULE CrystalsModel ----------------------------
(* Objects walked along crystal arrows, from every tuple of words and every  *)
(* (multi)set-valued tableau of small size.                                  *)
EXTENDS Crystals
CONSTANTS N, L, K
VARIABLES sort, obj, steps
vars == <<sort, obj, steps>>
AllWords(k) == [1..k -> 1..N]
(* (multi)set-valued tableaux with one row or column more than single boxes, at most L entries *)
RECURSIVE FillM(_, _, _, _)
FillM(B, k, P, multi) == IF k > Len(B) THEN P
    ELSE FillM(B, k + 1, UNION {{p @@ (B[k] :> s) : s \in UNION {{q \in [1..m -> 1..N] : \A x \in 1..(m - 1) : q[x] <= q[x + 1]} : m \in 1..K}} : p \in P}, multi)
TabSet(mu, multi) == {f \in FillM(Boxes(mu, <<>>, FALSE), 1, {<<>>}, multi) : SemiOk(f, multi)}
ShapesL == UNION {PartsOf(n, n, n) : n \in 0..L}
Init == /\ sort \in {"word", "set", "multi"} /\ steps = 0
        /\ obj \in IF sort = "word" THEN UNION {AllWords(k) : k \in 0..(L + 2)} ELSE UNION {TabSet(mu, sort = "multi") : mu \in ShapesL}
F(x, i) == IF sort = "word" THEN FWord(x, i) ELSE TabF(x, i, sort = "multi")
E(x, i) == IF sort = "word" THEN EWord(x, i) ELSE TabE(x, i, sort = "multi")
Wt(x) == IF sort = "word" THEN WordWeight(x, N) ELSE TabWeight(x, N)
Next == /\ steps < 1 /\ steps' = steps + 1 /\ sort' = sort
        /\ \E i \in 1..(N - 1) : F(obj, i) # NoObj /\ obj' = F(obj, i)
Spec == Init /\ [][Next]_vars
(* shape and kind are preserved by every step *)
Closed == sort # "word" => SemiOk(obj, sort = "multi") /\ IsShape(DOMAIN obj, FALSE)
Inverse == \A i \in 1..(N - 1) : /\ (F(obj, i) # NoObj => E(F(obj, i), i) = obj)
                                 /\ (E(obj, i) # NoObj => F(E(obj, i), i) = obj)
RECURSIVE Steps(_, _, _)
Steps(x, i, up) == LET y == IF up THEN F(x, i) ELSE E(x, i) IN IF y = NoObj THEN 0 ELSE 1 + Steps(y, i, up)
Weights1 == \A i \in 1..(N - 1) :
    /\ (F(obj, i) # NoObj => Wt(F(obj, i)) = [Wt(obj) EXCEPT ![i] = @ - 1, ![i + 1] = @ + 1])
    /\ Steps(obj, i, TRUE) - Steps(obj, i, FALSE) = Wt(obj)[i] - Wt(obj)[i + 1]
SameDomain == sort # "word" /\ F(obj, 1) # NoObj => DOMAIN F(obj, 1) = DOMAIN obj
Reads == sort = "multi" => FromCols(ReadCols(obj), 1) = obj
=============================================================================
