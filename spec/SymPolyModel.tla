---------------------------- MODULE SymPolyModel ----------------------------
(* Design model: symmetric polynomials built by the operations of SymPoly,   *)
(* next to the ordinary polynomials built by the same operations of          *)
(* PolyRing.  The invariant says that expansion is a ring homomorphism, and  *)
(* that the value stays symmetric and inside n variables.                    *)
EXTENDS SymPoly
CONSTANTS N, MaxDeg, MaxSteps
VARIABLES f, p, steps
vars == <<f, p, steps>>
Gens == {mu \in UNION {PartsOf(d, d, N) : d \in 0..MaxDeg} : Len(mu) <= N}
Coeffs == {One, PConst(-1), Beta, PAdd(One, Beta), PVar(0, -1)}
Init == /\ \E mu \in Gens : f = VBase(mu) /\ p = MExpand(N, mu, 1)
        /\ steps = 0
Mul == \E mu \in Gens : f' = SMul(N, f, VBase(mu)) /\ p' = PMul(p, MExpand(N, mu, 1))
Add == \E mu \in Gens, c \in Coeffs : f' = VAdd(f, VScale(VBase(mu), c)) /\ p' = PAdd(p, PMul(c, MExpand(N, mu, 1)))
Square == f' = SPow(N, f, 2) /\ p' = PMul(p, p)
Scale == \E c \in Coeffs : f' = VScale(f, c) /\ p' = PMul(p, c)
Trunc == \E d \in 0..MaxDeg : f' = STruncate(f, d) /\
            p' = [m \in {a \in DOMAIN p : SumOver({x \in a : x[1] # 0}, LAMBDA x : x[2]) <= d} |-> p[m]]
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Mul \/ Add \/ Square \/ Scale \/ Trunc)
Spec == Init /\ [][Next]_vars
Homomorphism == SExpand(N, f, 1) = p
Fits == SFitsIn(N, f)
(* coefficients are recovered from the ordinary polynomial *)
Recovered == \A k \in DOMAIN f : \A m \in DOMAIN f[k] :
                PCoef(p, {<<i, k[i]>> : i \in DOMAIN k} \cup m) = f[k][m]
Commutes == \A mu \in Gens : SMul(N, f, VBase(mu)) = SMul(N, VBase(mu), f)
=============================================================================
