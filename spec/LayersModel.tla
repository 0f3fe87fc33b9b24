---------------------------- MODULE LayersModel -----------------------------
(* A pair of shapes grows one box at a time; for every kind of filling the   *)
(* tables computed by layers agree with those of the explicit fillings.      *)
EXTENDS SymFun
CONSTANTS N, MaxSize
VARIABLES mu, nu
vars == <<mu, nu>>
Init == mu = <<>> /\ nu = <<>>
Grow == Size(mu) < MaxSize /\ \E i \in 1..(Len(mu) + 1) : CanAdd(mu, i, FALSE) /\ mu' = AddBox(mu, i) /\ UNCHANGED nu
GrowInner == \E i \in 1..(Len(nu) + 1) : CanAdd(nu, i, FALSE) /\ nu' = AddBox(nu, i) /\ ContainsP(mu, nu') /\ UNCHANGED mu
Next == Grow \/ GrowInner
Spec == Init /\ [][Next]_vars
Ordinary == {"s", "S", "G", "GS", "g", "gs", "j", "js"}
Shifted == {"P", "Q", "GP", "GQ", "gp", "gq", "jp", "jq"}
Kinds == Ordinary \cup (IF IsStrict(mu) /\ IsStrict(nu) THEN Shifted ELSE {})
Tables == \A fam \in Kinds : \A m \in 0..N : LayerTable(LOpt(fam), m, mu, nu) = FamTable(fam, m, mu, nu)
Counts == \A fam \in Kinds \ {"j", "jp", "jq", "js"} : \A m \in 0..N : LayerCount(LOpt(fam), m, mu, nu) = Cardinality(Fillings(FamOpt(fam), m, mu, nu))
=============================================================================
