-------------------------------- MODULE Growth --------------------------------
(* Growth diagrams.  Ordinary: an array of nonnegative integers gives a grid   *)
(* of partitions filled by a local rule; the global meaning of a cell is the   *)
(* shape of Robinson-Schensted-Knuth insertion of the part of the array below  *)
(* and left of it.  Shifted: the 0/1 array of a word gives a grid of strict    *)
(* partitions with labelled vertical edges; the global meaning of a cell is    *)
(* one step of orthogonal Hecke insertion restricted to small letters.         *)
EXTENDS Insertion
SH == INSTANCE Shapes

Pt(mu, k) == SH!Part(mu, k)
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b

(* ---- ordinary: corners rho (below left), mu (below), nu (left), entry c ---- *)
RECURSIVE LocalFrom(_, _, _, _, _)
LocalFrom(rho, mu, nu, c, k) ==
    LET v == Mx(Pt(mu, k), Pt(nu, k)) + c IN
    IF v = 0 THEN <<>> ELSE <<v>> \o LocalFrom(rho, mu, nu, Mn(Pt(mu, k), Pt(nu, k)) - Pt(rho, k), k + 1)
LocalRule(rho, mu, nu, c) == LocalFrom(rho, mu, nu, c, 1)

(* row insertion into a sequence of weakly increasing rows *)
RECURSIVE RskInto(_, _, _)
RskInto(P, r, a) ==
    IF r > Len(P) THEN Append(P, <<a>>)
    ELSE LET row == P[r] X == {k \in 1..Len(row) : row[k] > a} IN
         IF X = {} THEN [P EXCEPT ![r] = Append(row, a)]
         ELSE LET k == MinSet(X, 100000) IN RskInto([P EXCEPT ![r] = [row EXCEPT ![k] = a]], r + 1, row[k])
RskWord(P, w) == FoldLeft(LAMBDA acc, a : RskInto(acc, 1, a), P, w)
(* entry (i, j) of the array A = set of <<i, j, multiplicity>>; row i as a word in the column numbers *)
RowLetters(A, i) == LET S == {x \in A : x[1] = i} J == SortSeq(FoldSet(LAMBDA x, acc : Append(acc, x), <<>>, S), LAMBDA x, y : x[2] < y[2])
                    IN FoldLeft(LAMBDA acc, x : acc \o [k \in 1..x[3] |-> x[2]], <<>>, J)
ShapeUpTo(P, j) == SH!TrimZ([r \in 1..Len(P) |-> Cardinality({k \in 1..Len(P[r]) : P[r][k] <= j})])
RECURSIVE RskTables(_, _, _)
RskTables(A, n, acc) == IF Len(acc) > n THEN acc ELSE RskTables(A, n, Append(acc, RskWord(acc[Len(acc)], RowLetters(A, Len(acc)))))
(* the grid, rows 0..n and columns 0..m, as sequences starting at index 1 *)
RskGrid(A, m, n) == LET P == RskTables(A, n, <<(<<>>)>>) IN [i \in 1..(n + 1) |-> [j \in 1..(m + 1) |-> ShapeUpTo(P[i], j - 1)]]
EntryAt(A, i, j) == SumOver({x \in A : x[1] = i /\ x[2] = j}, LAMBDA x : x[3])
LocallyGrown(g, A, m, n) ==
    /\ \A i \in 1..(n + 1) : g[i][1] = <<>>
    /\ \A j \in 1..(m + 1) : g[1][j] = <<>>
    /\ \A i \in 2..(n + 1), j \in 2..(m + 1) : g[i][j] = LocalRule(g[i - 1][j - 1], g[i - 1][j], g[i][j - 1], EntryAt(A, i - 1, j - 1))

(* ---- shifted: cell values are <<strict partition, edge label, corner or 0>> ---- *)
SkewS(nu, lam) == SH!Skew(nu, lam, TRUE)
AddRow(mu, r) == SH!AddBox(mu, r)
AddColumn(mu, c) == LET S == SH!Diagram(mu, TRUE) r == MaxSet({b[1] : b \in {x \in S : x[2] = c}}, 0) + 1
                    IN SH!TrimZ([i \in 1..Mx(Len(mu), r) |-> Pt(mu, i) + (IF i = r THEN 1 ELSE 0)])
(* lam = below left, nu = below (with its edge e and corner c), mu = left, v in {0, 1} *)
ShiftedRule(lam, nu, e, c, mu, v) ==
    LET S == SkewS(mu, lam)
        box == CHOOSE b \in SkewS(nu, lam) : TRUE
        a == box[1]  b == box[2]
    IN IF v = 1 THEN (IF Pt(lam, 1) = Pt(mu, 1) THEN <<AddRow(mu, 1), FALSE, 0>> ELSE <<mu, FALSE, 1>>)
       ELSE IF mu = lam THEN <<nu, e, c>>
       ELSE IF nu = lam /\ ~e /\ c = 0 THEN <<mu, FALSE, 0>>
       ELSE IF ~SH!ContainsP(mu, nu) THEN <<SH!UnionP(nu, mu), e, 0>>
       ELSE IF lam # nu THEN
            (IF ~e /\ a # b
             THEN (IF ~\E x \in S : x[1] = a + 1 THEN <<AddRow(mu, a + 1), FALSE, 0>> ELSE <<mu, FALSE, a + 1>>)
             ELSE (IF ~\E x \in S : x[2] = b + 1 THEN <<AddColumn(mu, b + 1), TRUE, 0>> ELSE <<mu, TRUE, b + 1>>))
       ELSE IF ~e THEN
            LET r == c  y == Pt(nu, r) + r - 1 IN
            IF <<r, y + 1>> \notin S /\ <<r + 1, y>> \notin S THEN <<mu, FALSE, r>>
            ELSE IF <<r + 1, y>> \in S THEN <<mu, FALSE, r + 1>>
            ELSE IF \E x \in S : x[1] = r + 1 THEN <<mu, FALSE, r + 1>>
            ELSE IF r = y THEN <<mu, TRUE, y + 1>> ELSE <<AddRow(mu, r + 1), FALSE, 0>>
       ELSE LET y == c  r == MaxSet({x[1] : x \in {z \in SH!Diagram(nu, TRUE) : z[2] = y}}, 0) IN
            IF <<r, y + 1>> \notin S /\ <<r + 1, y>> \notin S THEN <<mu, TRUE, y>>
            ELSE IF <<r, y + 1>> \in S THEN <<mu, TRUE, y + 1>>
            ELSE IF \E x \in S : x[2] = y + 1 THEN <<mu, TRUE, y + 1>>
            ELSE <<AddColumn(mu, y + 1), TRUE, 0>>

ShapeOfT(t) == [i \in 1..MaxRow(t) |-> Cardinality(RowOf(t, i))]
(* word letters: 0 stands for an empty column of the array *)
RECURSIVE CellsFrom(_, _, _, _)
CellsFrom(w, k, i, t) ==
    IF k > Len(w) THEN <<>>
    ELSE IF w[k] = 0 \/ w[k] > i THEN <<(<<ShapeOfT(t), FALSE, 0>>)>> \o CellsFrom(w, k + 1, i, t)
    ELSE LET p == TLCEval(Path("sp", t, 2 * w[k])) u == p[Len(p)][1].t r == RecordOf("sp", p)
         IN <<(<<ShapeOfT(u), r[2], IF DOMAIN u # DOMAIN t THEN 0 ELSE IF r[2] THEN r[1][2] ELSE r[1][1]>>)>> \o CellsFrom(w, k + 1, i, u)
InsertionRow(w, i) == <<(<<(<<>>), FALSE, 0>>)>> \o CellsFrom(w, 1, i, EmptyT)
InsertionGrid(w, n) == [i \in 1..(n + 1) |-> InsertionRow(w, i - 1)]
GrownShifted(g, w) == \A i \in 2..Len(g), j \in 2..(Len(w) + 1) :
    g[i][j] = ShiftedRule(g[i - 1][j - 1][1], g[i - 1][j][1], g[i - 1][j][2], g[i - 1][j][3], g[i][j - 1][1], IF w[j - 1] = i - 1 THEN 1 ELSE 0)
=============================================================================
