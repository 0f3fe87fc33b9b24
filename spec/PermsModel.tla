---------------------------- MODULE PermsModel ------------------------------
(* Design model: a walk by right multiplication, a 0-Hecke walk and an       *)
(* involution walk driven by the same letters in signed permutations of      *)
(* rank N, with the number of strict steps of each walk.                     *)
EXTENDS Perms
CONSTANTS N, Lowest
VARIABLES w, h, hs, z, zs
vars == <<w, h, hs, z, zs>>
Gens == Lowest..(N - 1)
Init == w = Id /\ h = Id /\ hs = 0 /\ z = Id /\ zs = 0
Letter(i) == /\ w' = Step(w, i)
             /\ h' = HStep(h, i) /\ hs' = IF h' = h THEN hs ELSE hs + 1
             /\ z' = IStep(z, i) /\ zs' = IF z' = z THEN zs ELSE zs + 1
Next == \E i \in Gens : Letter(i)
Spec == Init /\ [][Next]_vars
Elements == IsElt(w) /\ IsElt(h) /\ IsInv(z)
Lengths == /\ \A i \in Gens : LET d == Length(Step(w, i)) - Length(w) IN d = (IF i \in RDes(w) THEN -1 ELSE 1)
           /\ Length(Inv(w)) = Length(w)
           /\ Length(h) = hs /\ InvLength(z) = zs
           /\ Word(AReducedWord(w)) = w /\ Len(AReducedWord(w)) = Length(w)
GroupLaws == /\ Mul(w, Inv(w)) = Id /\ Mul(Inv(w), w) = Id
             /\ Inv(Mul(w, h)) = Mul(Inv(h), Inv(w))
Demazure == /\ Inv(Dem(w, h)) = Dem(Inv(h), Inv(w))
            /\ (Length(Dem(w, h)) = Length(w) + Length(h)) => Dem(w, h) = Mul(w, h)
            /\ \A i \in Gens : Dem(w, HStep(h, i)) = HStep(Dem(w, h), i)
            /\ Dem(Dem(w, h), w) = Dem(w, Dem(h, w))
(* the involution walk is h^-1 o h for the 0-Hecke walk of the same letters *)
InvolutionIsSquare == z = Dem(Inv(h), h)
=============================================================================
