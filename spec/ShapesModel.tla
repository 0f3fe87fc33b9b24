---------------------------- MODULE ShapesModel -----------------------------
(* Design model: walks in Young's lattice and in the shifted lattice.        *)
EXTENDS Shapes
CONSTANTS MaxSize
VARIABLES mu, sh
vars == <<mu, sh>>
Init == mu = <<>> /\ sh \in BOOLEAN
Add == \E i \in 1..(Len(mu) + 1) : Size(mu) < MaxSize /\ CanAdd(mu, i, sh) /\ mu' = AddBox(mu, i)
Remove == \E i \in 1..Len(mu) : CanRemove(mu, i, sh) /\ mu' = RemoveBox(mu, i)
Next == (Add \/ Remove) /\ sh' = sh
Spec == Init /\ [][Next]_vars
IsShapeInv == IF sh THEN IsStrict(mu) ELSE IsPartition(mu)
DiagramInv == LET D == Diagram(mu, sh) IN Cardinality(D) = Size(mu) /\ FromRows(D) = mu /\ IsShape(D, sh)
TransposeInv == ~sh => /\ IsPartition(Transpose(mu)) /\ Transpose(Transpose(mu)) = mu
                       /\ Diagram(Transpose(mu), FALSE) = {<<b[2], b[1]>> : b \in Diagram(mu, FALSE)}
(* the differential-poset relation: up-degree minus down-degree *)
UpDown == LET up == {i \in 1..(Len(mu) + 1) : CanAdd(mu, i, sh)}
              dn == {i \in 1..Len(mu) : CanRemove(mu, i, sh)}
          IN ~sh => Cardinality(up) = Cardinality(dn) + 1
BetweenInv == /\ \A nu \in Between(mu, <<>>) : IsPartition(nu) /\ ContainsP(mu, nu)
              /\ mu \in Between(mu, <<>>) /\ <<>> \in Between(mu, <<>>)
              /\ \A nu \in Between(mu, <<>>) : Between(mu, nu) = {k \in Between(mu, <<>>) : ContainsP(k, nu)}
ListedInv == mu \in (IF mu = <<>> THEN {<<>>} ELSE PartsOf(Size(mu), Size(mu), Size(mu)))
DiagonalInv == sh => \A nu \in BetweenStrict(mu, <<>>) :
                  (OnePerDiagonal(Skew(mu, nu, TRUE)) <=> \A i \in 1..Len(mu) : Part(nu, i) >= Part(mu, i + 1))
=============================================================================
