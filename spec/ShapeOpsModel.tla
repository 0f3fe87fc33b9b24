----------------------------- MODULE ShapeOpsModel ----------------------------
(* A combination of strict shapes under the operators.  Checked: the Hecke and  *)
(* braid relations of the adding operators, commutation of far operators,       *)
(* commutation of the series in two variables, homogeneity, strips built box by *)
(* box, and associativity of the formal operators.                              *)
EXTENDS ShapeOps
CONSTANTS MaxSize, MaxDiag, MaxSteps, MaxWord
VARIABLES v, steps
vars == <<v, steps>>
Xp == PVar(1, 1)
Yp == PVar(2, 1)
StrictSet == {k \in UNION {PartsOf(x, x, x) : x \in 0..MaxSize} : IsStrict(k)}
Init == \E mu \in StrictSet : v = VBase(mu) /\ steps = 0
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \/ \E name \in {"add", "row", "col"} : \E d \in 0..MaxDiag : v' = Act(name, v, d)
           \/ \E mu \in {<<>>, <<2>>} : v' = VAdd(v, VScale(VBase(mu), PConst(-2)))
Spec == Init /\ [][Next]_vars
StrictKeys == \A mu \in DOMAIN v : IsStrict(mu)
Single == steps = 0
A(d, w) == Act("add", w, d)
(* degree: beta removes nothing, a box counts one; |shape| plus removed boxes balance the power of beta *)
Homogeneous == Single => \A mu \in DOMAIN v : \A d \in 0..MaxDiag :
    /\ \A nu \in DOMAIN ShiftedAdd(mu, d) : Size(nu) - Size(mu) \in {0, 1}
    /\ \A nu \in DOMAIN RowRemove(mu, d) : Size(nu) < Size(mu) /\ OnePerColumn(Skew(mu, nu, TRUE))
    /\ \A nu \in DOMAIN ColumnRemove(mu, d) : Size(nu) < Size(mu) /\ OnePerRow(Skew(mu, nu, TRUE))
    /\ (RowRemove(mu, d) = VZero) = (ColumnRemove(mu, d) = VZero)
Hecke == Single => \A d \in 0..MaxDiag : A(d, A(d, v)) = VScale(A(d, v), BetaP)
Far == Single => \A d \in 0..MaxDiag : \A e \in 0..MaxDiag : Abs0(d - e) > 1 => A(d, A(e, v)) = A(e, A(d, v))
Braid == Single => \A d \in 1..(MaxDiag - 1) : A(d, A(d + 1, A(d, v))) = A(d + 1, A(d, A(d + 1, v)))
BraidB == Single => A(0, A(1, A(0, A(1, v)))) = A(1, A(0, A(1, A(0, v))))
(* strips: the strip on diagonals a..b is the product of single boxes, when it exists *)
RECURSIVE Walk(_, _)
Walk(mu, ds) == IF mu = NoShape \/ ds = <<>> THEN mu ELSE Walk(AddStrip("h", mu, ds[1], ds[1]), Tail(ds))
Strips == Single => \A mu \in DOMAIN v : \A a \in 0..MaxDiag : \A b \in a..MaxDiag :
    LET h == AddStrip("h", mu, a, b) c == AddStrip("v", mu, a, b) IN
    /\ Cardinality(RowStrips(mu, a, b)) <= 1 /\ Cardinality(ColumnStrips(mu, a, b)) <= 1
    /\ h # NoShape => /\ h = Walk(mu, [i \in 1..(b - a + 1) |-> a + i - 1])
                      /\ {x[2] - x[1] : x \in Skew(h, mu, TRUE)} = a..b /\ Cardinality({x[1] : x \in Skew(h, mu, TRUE)}) = 1
    /\ c # NoShape => /\ c = Walk(mu, [i \in 1..(b - a + 1) |-> b + 1 - i])
                      /\ {x[2] - x[1] : x \in Skew(c, mu, TRUE)} = a..b /\ Cardinality({x[2] : x \in Skew(c, mu, TRUE)}) = 1
    (* and nothing else is such a strip *)
    /\ \A nu \in BetweenStrict([i \in 1..(Len(mu) + 1) |-> Part(mu, 1) + MaxDiag + 1], mu) :
          LET S == Skew(nu, mu, TRUE) IN
          {x[2] - x[1] : x \in S} = a..b /\ Cardinality(S) = b - a + 1 =>
            /\ Cardinality({x[1] : x \in S}) = 1 => nu = h
            /\ Cardinality({x[2] : x \in S}) = 1 => nu = c
SeparatedCommute == Single => \A mu \in DOMAIN v : \A x, y \in {"h", "v"} : \A a, c \in 0..MaxDiag : \A b \in a..MaxDiag : \A d \in c..MaxDiag :
    (b + 1 < c \/ d + 1 < a) => AddStrip(x, AddStrip(y, mu, c, d), a, b) = AddStrip(y, AddStrip(x, mu, a, b), c, d)
(* one variable adds a vertical and then a horizontal strip; two variables commute *)
BX(w, x) == Series("AL", Series("AR", w, 2, x), 2, x)
SeriesCommute == Single /\ (\A mu \in DOMAIN v : Size(mu) <= 4) =>
    /\ BX(BX(v, Xp), Yp) = BX(BX(v, Yp), Xp)
    /\ Series("AR", v, 0, Xp) = Series("AL", v, 0, Xp)
Words == UNION {[1..k -> -MaxWord..MaxWord] : k \in 0..2}
AsOp(w) == VBase(<<0>> \o w)
ASSUME \A a, b \in Words : \A c \in {w \in Words : Len(w) <= 1} :
    WMul(WMul(AsOp(c), AsOp(a)), AsOp(b)) = WMul(AsOp(c), WMul(AsOp(a), AsOp(b))) \/ Vanishes(<<0>> \o a) \/ Vanishes(<<0>> \o b)
ASSUME \A a \in Words : WMul(Unit, AsOp(a)) = IF Vanishes(<<0>> \o a) THEN VZero ELSE AsOp(a)
ASSUME \A n \in 0..1 : Commutator(n, Xp, Yp) = VNeg(Commutator(n, Yp, Xp))
ASSUME Commutator(0, Xp, Yp) = VZero
=============================================================================
