----------------------------- MODULE AtomsModel -----------------------------
EXTENDS Atoms
CONSTANTS N, NB
VARIABLES kind, x
Init == \/ kind = "inv" /\ x \in Invols(N)
        \/ kind = "sinv" /\ x \in SInvols(NB)
        \/ kind = "fpf" /\ x \in Fpfs(N + (N % 2))
        \/ kind = "perm" /\ x \in Sym(N - 1)
Next == FALSE /\ UNCHANGED <<kind, x>>
Spec == Init /\ [][Next]_<<kind, x>>
Facts == CASE kind \in {"inv", "sinv"} ->
               /\ AtomsOf(x) = {w \in IF kind = "inv" THEN Sym(N) ELSE Hyp(NB) : IsAtom(w, x)}
               (* at most one involution is reached through each transposition *)
               /\ kind = "inv" => \A i, j \in 1..(N + 1) : i < j => Cardinality(CoverTargets(x, i, j)) <= 1
               /\ InvLowerCoversNear(x) = InvLowerCovers(x)
           [] kind = "fpf" -> FpfLowerCoversNear(x) = FpfLowerCovers(x) /\ FpfAtomsOf(x) = {w \in Sym(N + (N % 2)) : IsFpfAtom(w, x)}
           [] kind = "perm" -> LowerCovers(x) = {v \in Sym(N - 1) : Length(v) = Length(x) - 1 /\ BruhatLE(v, x)}
=============================================================================
