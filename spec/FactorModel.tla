---------------------------- MODULE FactorModel -----------------------------
(* A word grows letter by letter; at every element reached, the numbers of   *)
(* factorizations agree with a direct count over blocks of all words, and    *)
(* leaving out generators and elements that cannot occur changes nothing.    *)
EXTENDS Factor
CONSTANTS R, Rows, Extra
VARIABLES kind, z
vars == <<kind, z>>
Kinds == {"hecke", "ihecke", "shecke"}
Init == kind \in Kinds /\ z = Start(kind, R + (R % 2))
Next == /\ \E i \in (IF kind = "shecke" THEN 1..(R + (R % 2) - 1) ELSE IF kind = "ihecke" THEN 0..(R - 1) ELSE 1..(R - 1)) :
               CanStep(kind, z, i) /\ z' = DoStep(kind, z, i)
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars
Bound == MinLen(kind, z) + Extra
Style == {"dec"} \cup (IF kind = "ihecke" THEN {"uni"} ELSE {})
Rank0 == IF kind = "shecke" THEN R + (R % 2) ELSE Len(z)
RECURSIVE Partitions(_, _, _)
Partitions(d, mx, rows) == {<<>>} \cup (IF d = 0 \/ rows = 0 THEN {} ELSE UNION {{<<a>> \o p : p \in Partitions(d - a, a, rows - 1)} : a \in 1..(IF mx < d THEN mx ELSE d)})
Direct(style) == {f \in {<<lam, Ways(kind, style, Rank0, lam, z)>> : lam \in Partitions(Bound, MaxBlock(kind, style, Rank0), Rows)} : f[2] # 0}
Pruned == \A style \in Style : Factorizations(kind, style, Rank0, z, Rows, Bound) = Direct(style)
(* the numbers do not depend on the order of the block sizes *)
Symmetric == \A style \in (IF Pos(z) THEN Style ELSE Style \ {"dec"}) : \A lam \in Partitions(Bound, MaxBlock(kind, style, Rank0), Rows) :
    Ways(kind, style, Rank0, lam, z) = Ways(kind, style, Rank0, [i \in 1..Len(lam) |-> lam[Len(lam) + 1 - i]], z)
=============================================================================
