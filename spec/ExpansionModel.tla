--------------------------- MODULE ExpansionModel ---------------------------
(* Design model of expansion by peeling leading terms: the remainder rem of a *)
(* combination of basis functions loses, in each step, its extreme term.      *)
(* Invariant: the coefficients found so far plus the remainder give the       *)
(* original function; at the end the remainder is zero and the coefficients   *)
(* are those of the combination.                                              *)
EXTENDS SymFun
CONSTANTS N, Hi
VARIABLES fam, goal, rem, found
vars == <<fam, goal, rem, found>>
Low == {"s", "G", "P", "Q", "GP", "GQ"}
Fams == Low \cup {"g", "gp", "gq", "j", "jp", "jq"}
Idx(f) == {mu \in UNION {PartsOf(d, d, N) : d \in 0..Hi} : FamShifted(f) => IsStrict(mu)}
FT == TLCEval([f \in Fams |-> [mu \in Idx(f) |-> Fun(f, N, mu, <<>>)]])
Cs == {One, PConst(-2), PAdd(Beta, One)}
(* lexicographically larger partition *)
RECURSIVE LexLess(_, _)
LexLess(a, b) == b # <<>> /\ (a = <<>> \/ a[1] < b[1] \/ (a[1] = b[1] /\ LexLess(Tail(a), Tail(b))))
Extreme(f, r) == LET T == IF f \in Low THEN SLowest(r) ELSE SHighest(r)
                 IN CHOOSE a \in DOMAIN T : \A b \in DOMAIN T : a = b \/ LexLess(b, a)
Init == /\ fam \in Fams
        /\ \E a, b \in Idx(fam) : \E c, d \in Cs : goal = VAdd(VScale(VBase(a), c), VScale(VBase(b), d))
        /\ rem = VApply(goal, LAMBDA mu : Fun(fam, N, mu, <<>>))
        /\ found = VZero
Peel == /\ rem # VZero
        /\ LET t == Extreme(fam, rem)
               g == FT[fam][t]
               m == CHOOSE k \in DOMAIN g[t] : TRUE
               deg == PTotalDegree(rem[t])
               c == PScale(PVar(0, deg), PCoef(rem[t], IF deg = 0 THEN {} ELSE {<<0, deg>>}) \div g[t][m])
           IN /\ found' = VAdd(found, VScale(VBase(t), c))
              /\ rem' = VSub(rem, VScale(g, c))
        /\ UNCHANGED <<fam, goal>>
Next == Peel
Spec == Init /\ [][Next]_vars
Sound == VApply(VSub(goal, found), LAMBDA mu : FT[fam][mu]) = rem
Complete == rem = VZero => found = goal
(* the extreme term of a basis function is its own index, with an integer coefficient *)
ASSUME \A f \in Fams : \A mu \in Idx(f) : Extreme(f, FT[f][mu]) = mu /\ DOMAIN FT[f][mu][mu] = {{}}
Closed == \A mu \in DOMAIN found : mu \in Idx(fam)
=============================================================================
