-------------------------------- MODULE Tabs --------------------------------
(* Fillings of skew (shifted) diagrams.  A filling is a sequence, aligned    *)
(* with the boxes in reading order, of nonempty sets of ranks; the signed    *)
(* entry k has rank 2k and the primed entry -k has rank 2k - 1.              *)
(* An option record opt has the fields                                       *)
(*   sh      shifted diagram                                                 *)
(*   marked  primed entries allowed                                          *)
(*   setv    sets (otherwise single entries)                                 *)
(*   diag    "any", "noprime" or "onlyprime" on the main diagonal            *)
(*   rpp     rows and columns only weakly increasing                         *)
EXTENDS Shapes

Rank(v) == IF v > 0 THEN 2 * v ELSE -2 * v - 1
AbsOf(r) == (r + 1) \div 2
Val(r) == IF r % 2 = 0 THEN r \div 2 ELSE -(r + 1) \div 2
(* boxes in reading order, without choosing among all orders *)
RECURSIVE RowBoxes(_, _, _, _)
RowBoxes(mu, nu, sh, i) == IF i > Len(mu) THEN <<>>
    ELSE [j \in 1..(mu[i] - Part(nu, i)) |-> <<i, Part(nu, i) + j + Off(sh, i)>>] \o RowBoxes(mu, nu, sh, i + 1)
Boxes(mu, nu, sh) == RowBoxes(mu, nu, sh, 1)
At(B, b) == LET I == {k \in 1..Len(B) : B[k] = b} IN IF I = {} THEN 0 ELSE CHOOSE k \in I : TRUE
Alphabet(opt, M, b) == {r \in 1..(2 * M) : /\ (opt.marked \/ r % 2 = 0)
                                           /\ (b[1] = b[2] => (opt.diag = "noprime" => r % 2 = 0) /\ (opt.diag = "onlyprime" => r % 2 = 1))}
RowOk(opt, L, R) == LET m == MaxSet(L, 0) k == MinSet(R, 100000) IN m < k \/ (m = k /\ (opt.rpp \/ m % 2 = 0))
ColOk(opt, U, D) == LET m == MaxSet(U, 0) k == MinSet(D, 100000) IN m < k \/ (m = k /\ (opt.rpp \/ m % 2 = 1))
Choices(opt, A) == IF opt.setv THEN SUBSET A \ {{}} ELSE {{r} : r \in A}
(* lazily enumerate values at the k-th box given the earlier ones *)
Values(opt, M, B, p, k) ==
    LET b == B[k]
        l == At(B, <<b[1], b[2] - 1>>)
        u == At(B, <<b[1] - 1, b[2]>>)
        lm == IF l = 0 THEN 0 ELSE MaxSet(p[l], 0)
        um == IF u = 0 THEN 0 ELSE MaxSet(p[u], 0)
        A == {r \in Alphabet(opt, M, b) : /\ (r > lm \/ (r = lm /\ (opt.rpp \/ r % 2 = 0)))
                                          /\ (r > um \/ (r = um /\ (opt.rpp \/ r % 2 = 1)))}
    IN Choices(opt, A)
RECURSIVE FillFrom(_, _, _, _, _)
FillFrom(opt, M, B, P, k) == IF k > Len(B) \/ P = {} THEN P
    ELSE FillFrom(opt, M, B, UNION {{Append(p, V) : V \in Values(opt, M, B, p, k)} : p \in P}, k + 1)
Fillings(opt, M, mu, nu) == IF ~ContainsP(mu, nu) THEN {} ELSE FillFrom(opt, M, Boxes(mu, nu, opt.sh), {<<>>}, 1)

(* weights *)
WeightOf(p, M) == [k \in 1..M |-> SumOver(1..Len(p), LAMBDA i : Cardinality({r \in p[i] : AbsOf(r) = k}))]
(* reverse plane partitions: an entry counts once per column, a primed entry once per row *)
RppWeightOf(p, B, M) == [k \in 1..M |-> Cardinality({B[i][2] : i \in {x \in 1..Len(B) : 2 * k \in p[x]}})
                                      + Cardinality({B[i][1] : i \in {x \in 1..Len(B) : 2 * k - 1 \in p[x]}})]
WtOf(opt, p, B, M) == IF opt.rpp THEN RppWeightOf(p, B, M) ELSE WeightOf(p, M)
Weights(opt, M, mu, nu) == LET B == Boxes(mu, nu, opt.sh) IN [p \in Fillings(opt, M, mu, nu) |-> WtOf(opt, p, B, M)]
IsWeakDown(a) == \A i \in 1..(Len(a) - 1) : a[i] >= a[i + 1]
(* the table of a weight function on a finite set: weight |-> number *)
Bump1(T, w) == IF w \in DOMAIN T THEN [T EXCEPT ![w] = @ + 1] ELSE T @@ (w :> 1)
CountTable(W) == FoldSet(LAMBDA p, T : Bump1(T, W[p]), <<>>, DOMAIN W)
PartitionTable(opt, M, mu, nu) ==
    LET B == Boxes(mu, nu, opt.sh)
        count(p, T) == LET w == TLCEval(WtOf(opt, p, B, M)) IN IF IsWeakDown(w) THEN Bump1(T, TrimZ(w)) ELSE T
    IN FoldSet(count, <<>>, Fillings(opt, M, mu, nu))

(* standard tableaux as chains of shapes *)
RECURSIVE StdFrom(_, _, _, _)
StdFrom(mu, nu, sh, k) == IF mu = nu THEN {<<>>}
    ELSE UNION {{Append(c, i) : c \in StdFrom(RemoveBox(mu, i), nu, sh, k)} : i \in {x \in 1..Len(mu) : CanRemove(mu, x, sh) /\ mu[x] > Part(nu, x) /\ ContainsP(RemoveBox(mu, x), nu)}}

(* ---- tableaux as read from the implementation: sequences of <<i, j, values>> in reading order ---- *)
TabBoxes(t) == [k \in 1..Len(t) |-> <<t[k][1], t[k][2]>>]
TabFill(t) == [k \in 1..Len(t) |-> {Rank(v) : v \in SetOf(t[k][3])}]
NoRepeat(t) == \A k \in 1..Len(t) : Cardinality(SetOf(t[k][3])) = Len(t[k][3])
=============================================================================
