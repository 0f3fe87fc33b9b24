----------------------------- MODULE TabsModel -----------------------------
(* Fillings built one box at a time.                                         *)
EXTENDS Tabs
CONSTANTS N, M
VARIABLES opt, mu, nu, p
vars == <<opt, mu, nu, p>>
Opts == {[sh |-> sh, marked |-> mk, setv |-> sv, diag |-> dg, rpp |-> rp] :
            sh \in BOOLEAN, mk \in BOOLEAN, sv \in BOOLEAN, dg \in {"any", "noprime", "onlyprime"}, rp \in BOOLEAN}
Legal(o) == /\ (o.sh => o.marked) /\ (o.diag # "any" => o.sh) /\ (o.rpp => ~o.setv)
            /\ (o.diag = "noprime" => ~o.rpp) /\ (o.diag = "onlyprime" => o.rpp) /\ (o.rpp => (o.sh = o.marked))
ShapesUpTo == UNION {PartsOf(n, n, n) : n \in 0..N}
Init == /\ opt \in {o \in Opts : Legal(o)} /\ mu \in {x \in ShapesUpTo : opt.sh => IsStrict(x)}
        /\ nu \in (IF opt.sh THEN BetweenStrict(mu, <<>>) ELSE Between(mu, <<>>)) /\ p = <<>>
B == Boxes(mu, nu, opt.sh)
Next == /\ Len(p) < Len(B) /\ \E V \in Values(opt, M, B, p, Len(p) + 1) : p' = Append(p, V)
        /\ UNCHANGED <<opt, mu, nu>>
Spec == Init /\ [][Next]_vars
Full == Len(p) = Len(B)
(* every value is locally compatible with its neighbours *)
LocallyOk == \A k \in 1..Len(p) :
    LET l == At(B, <<B[k][1], B[k][2] - 1>>) u == At(B, <<B[k][1] - 1, B[k][2]>>)
    IN /\ (l # 0 => RowOk(opt, p[l], p[k])) /\ (u # 0 => ColOk(opt, p[u], p[k]))
(* the boxes holding entries up to r form a shape between nu and mu *)
UpTo(r) == {B[k] : k \in {x \in 1..Len(B) : MinSet(p[x], 100000) <= r}}
Nested == Full => \A r \in 0..(2 * M) : IsShape(Skew(nu, <<>>, opt.sh) \cup UpTo(r), opt.sh)
(* unprimed k: at most once per column; primed k: at most once per row *)
Strips == Full /\ ~opt.rpp => \A k \in 1..M :
    /\ OnePerColumn({B[i] : i \in {x \in 1..Len(B) : 2 * k \in p[x]}})
    /\ OnePerRow({B[i] : i \in {x \in 1..Len(B) : 2 * k - 1 \in p[x]}})
(* weight counts are symmetric (checked once per shape) *)
Symmetric == p = <<>> => LET T == CountTable(Weights(opt, M, mu, nu))
                         IN \A w \in DOMAIN T : LET s == SortSeq(w, LAMBDA a, b : a > b) IN s \in DOMAIN T /\ T[s] = T[w]
=============================================================================
