------------------------------- MODULE ShapeOps -------------------------------
(* Operators on formal combinations of strict partitions, strips added to       *)
(* single shapes, and the algebra of formal row and column operators.           *)
EXTENDS LinComb, Shapes
BetaVar == 0
BetaP == PVar(BetaVar, 1)
NegBetaPow(e) == PScale(PVar(BetaVar, e), IF e % 2 = 1 THEN -1 ELSE 1)
Abs0(i) == IF i < 0 THEN -i ELSE i
(* rows whose last box / next box lies on diagonal d (column minus row) *)
LastOn(mu, d) == {r \in 1..Len(mu) : mu[r] - 1 = d}
NextOn(mu, d) == {r \in 1..(Len(mu) + 1) : Part(mu, r) = d}
CutRow(mu, r, k) == TrimZ([mu EXCEPT ![r] = @ - k])
One1(S) == CHOOSE x \in S : TRUE

ShiftedAdd(mu, d) ==
    LET I == {r \in LastOn(mu, d) : CanRemove(mu, r, TRUE)} O == {r \in NextOn(mu, d) : CanAdd(mu, r, TRUE)} IN
    IF I # {} THEN [x \in {mu} |-> BetaP] ELSE IF O # {} THEN VBase(AddBox(mu, One1(O))) ELSE VZero
(* the row ending in a removable box on diagonal d loses k >= 1 boxes *)
RowRemove(mu, d) ==
    LET I == {r \in LastOn(mu, d) : CanRemove(mu, r, TRUE)} IN
    IF I = {} THEN VZero
    ELSE LET r == One1(I)
             K == {k \in 1..mu[r] : \/ mu[r] - k > Part(mu, r + 1)
                                    \/ mu[r] = k /\ r = Len(mu)}
         IN [x \in {CutRow(mu, r, k) : k \in K} |-> NegBetaPow(Size(mu) - Size(x) - 1)]
(* the column of that box loses k >= 1 boxes from its bottom *)
RECURSIVE CutColumn(_, _, _)
CutColumn(mu, r, k) == IF k = 0 THEN mu ELSE CutColumn(TrimZ([mu EXCEPT ![r] = @ - 1]), r - 1, k - 1)
ColumnRemove(mu, d) ==
    LET I == {r \in LastOn(mu, d) : CanRemove(mu, r, TRUE)} IN
    IF I = {} THEN VZero
    ELSE LET r == One1(I)
             c == mu[r] + r - 1
             (* box (r - t, c) is the last of its row for t = 0..k-1, and leaves a strict shape *)
             K == {k \in 1..r : /\ \A t \in 0..(k - 1) : mu[r - t] + (r - t) - 1 = c
                                /\ IsStrict(CutColumn(mu, r, k))}
         IN [x \in {CutColumn(mu, r, k) : k \in K} |-> NegBetaPow(Size(mu) - Size(x) - 1)]
Basic(name, mu, d) == CASE name = "add" -> ShiftedAdd(mu, Abs0(d))
                        [] name = "row" -> RowRemove(mu, Abs0(d))
                        [] name = "col" -> ColumnRemove(mu, Abs0(d))
Act(name, v, d) == VApply(v, LAMBDA mu : Basic(name, mu, d))
(* 1 + x u_d, and products of such factors; ds in order of application *)
Factor1(name, v, d, x) == VAdd(v, VScale(Act(name, v, d), x))
RECURSIVE Product1(_, _, _, _)
Product1(name, v, ds, x) == IF ds = <<>> THEN v ELSE Product1(name, Factor1(name, v, ds[1], x), Tail(ds), x)
Up(n) == [i \in 1..(n + 1) |-> i - 1]
Down(n, low) == [i \in 1..(n - low + 1) |-> n + 1 - i]
Series(name, v, n, x) == CASE name = "AL" -> Product1("add", v, Up(n), x)
                           [] name = "AR" -> Product1("add", v, Down(n, 0), x)
                           [] name = "R" -> Product1("row", v, Up(n), x)
                           [] name = "C" -> Product1("col", v, Down(n, 1), x)

(* ---- strips on diagonals a..b added to one shape; <<-1>> stands for no shape ---- *)
NoShape == <<-1>>
RowStrips(mu, a, b) ==
    {nu \in {[i \in 1..(IF r > Len(mu) THEN r ELSE Len(mu)) |-> IF i = r THEN b + 1 ELSE Part(mu, i)] : r \in NextOn(mu, a)} : IsStrict(nu)}
(* rows h..i grow by one box in the same column *)
ColumnStrips(mu, a, b) ==
    {nu \in {[k \in 1..(IF i > Len(mu) THEN i ELSE Len(mu)) |-> Part(mu, k) + (IF k \in (i - (b - a))..i THEN 1 ELSE 0)] :
                i \in {r \in NextOn(mu, a) : r > b - a /\ \A k \in 0..(b - a) : Part(mu, r - k) = a + k}} : IsStrict(nu)}
AddStrip(dir, mu, a, b) == IF mu = NoShape THEN NoShape
                           ELSE LET S == IF dir = "h" THEN RowStrips(mu, a, b) ELSE ColumnStrips(mu, a, b) IN IF S = {} THEN NoShape ELSE One1(S)

(* ---- words beta^k u_1 .. u_m of row (i) and column (-i) operators ---- *)
Vanishes(w) == \E i \in 2..(Len(w) - 1) : w[i] = w[i + 1] \/ w[i] = -w[i + 1]
WordRule(a, b) == LET w == <<a[1] + b[1]>> \o Tail(a) \o Tail(b) IN IF Vanishes(w) THEN VZero ELSE VBase(w)
WMul(v, w) == VMul(v, w, WordRule)
Unit == VBase(<<0>>)
OnceFactor(i, x) == VAdd(Unit, VScale(VBase(<<0, i>>), x))
RECURSIVE OpProduct(_, _, _)
OpProduct(ds, x, acc) == IF ds = <<>> THEN acc ELSE OpProduct(Tail(ds), x, WMul(acc, OnceFactor(ds[1], x)))
Kept(w, n) == \A i \in {Abs0(w[k]) : k \in 2..Len(w)} : Cardinality({k \in 2..Len(w) : Abs0(w[k]) = i}) - (n - i) <= 1
FilterW(v, n) == [w \in {x \in DOMAIN v : Kept(x, n)} |-> v[w]]
FullDown(n) == [i \in 1..(2 * n + 1) |-> n + 1 - i]
Commutator(n, x, y) == LET L == OpProduct(FullDown(n), x, Unit) R == OpProduct(FullDown(n), y, Unit)
                       IN FilterW(VSub(WMul(L, R), WMul(R, L)), n)
=============================================================================
