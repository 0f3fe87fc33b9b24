------------------------------ MODULE C25Trace ------------------------------
(* Trace specification of relations between recorded functions: every event  *)
(* carries several values of the implementation, and the relation between    *)
(* them is checked here, so no value has to be recomputed.                    *)
EXTENDS Relations, TraceBase
VARIABLES l
Readable(n, js) == VWellFormed(js) /\ \A i \in DOMAIN js : IsPartition(js[i][1]) /\ Len(js[i][1]) <= n
Good(n, js, sg, boxes) == Readable(n, js) /\ Homogeneous(VFromJson(js), sg, boxes)
Fine(n, js, sg, boxes) == Good(n, js, sg, boxes) /\ Moderate(VFromJson(js))
Tab(js) == IntTable(VFromJson(js))
First(cs) == LET bad == SelectSeq(cs, LAMBDA c : ~c[2]) IN IF bad = <<>> THEN "" ELSE bad[1][1]
(* a family of tables [[key, js], ...] as a function *)
Fam(L, pos) == LET idx == [k \in {L[i][1] : i \in DOMAIN L} |-> CHOOSE i \in DOMAIN L : L[i][1] = k]
               IN TLCEval([k \in DOMAIN idx |-> TLCEval(Tab(L[idx[k]][pos]))])
BranchVerdict(e) ==
    LET sg == HomSign(e.fam) L == e.res[2]
        sz == Size(e.mu) - Size(e.nu)
    IN IF {L[i][1] : i \in DOMAIN L} # InBetween(e.fam, e.mu, e.nu) THEN "driver_shapes"
       ELSE IF ~Fine(e.n + e.m, e.res[1], sg, sz)
               \/ \E i \in DOMAIN L : ~Fine(e.n, L[i][2], sg, Size(L[i][1]) - Size(e.nu)) \/ ~Fine(e.m, L[i][3], sg, Size(e.mu) - Size(L[i][1])) THEN "degrees_and_powers_of_beta"
       ELSE Ck("branching_" \o e.fam, SplitOk(Tab(e.res[1]), Fam(L, 2), Fam(L, 3), e.n, e.m, e.bound))
SplitVerdict(e) ==
    LET L == e.res[2]
        F == TLCEval(Factors(e.kind, e.w, e.rank))
        G == e.res[3]
        lens == TLCEval([i \in DOMAIN G |-> ELen(G[i][1], G[i][2])])
    IN IF {<<G[L[i][1]][2], G[L[i][2]][2]>> : i \in DOMAIN L} # F \/ Len(L) # Cardinality(F) THEN "driver_pairs"
       ELSE IF ~Fine(e.n + e.m, e.res[1], 1, ELen(e.kind, e.w)) \/ \E i \in DOMAIN G : ~Fine(G[i][3], G[i][4], 1, lens[i]) THEN "degrees_and_powers_of_beta"
       ELSE LET T == TLCEval([i \in DOMAIN G |-> TLCEval(Tab(G[i][4]))])
            IN Ck("coproduct_" \o e.kind, SplitOk(Tab(e.res[1]), [i \in DOMAIN L |-> T[L[i][1]]], [i \in DOMAIN L |-> T[L[i][2]]], e.n, e.m, e.bound))
PairVerdict(e) ==
    LET L == e.res
    IN IF <<e.f, e.h>> \notin Pairs \/ {L[i][1] : i \in DOMAIN L} # PairShapes(e.f, e.d) THEN "driver_shapes"
       ELSE IF \E i \in DOMAIN L : ~Fine(e.n, L[i][2], HomSign(UnNeg(e.f)), Size(L[i][1])) \/ ~Fine(e.m, L[i][3], HomSign(e.h), Size(L[i][1])) THEN "degrees_and_powers_of_beta"
       ELSE Ck("pairing_" \o e.f \o "_" \o e.h, PairOk(PairKind(e.f, e.h), Fam(L, 2), Fam(L, 3), e.n, e.m, e.d))
ClassicVerdict(e) ==
    LET sz == Size(e.mu) - Size(e.nu) sg == HomSign(e.fam)
    IN IF ~Good(e.n, e.res[1], sg, sz) \/ ~Good(e.n, e.res[2], 0, sz) THEN "degrees_and_powers_of_beta"
       ELSE Ck("classical_part_" \o e.fam, AtDegree(Tab(e.res[1]), sz) = Tab(e.res[2]))
(* fewer variables: only the partitions with fewer rows remain *)
StableVerdict(e) ==
    LET sz == Size(e.mu) - Size(e.nu) sg == HomSign(e.fam)
    IN IF ~Good(e.n, e.res[1], sg, sz) \/ ~Good(e.m, e.res[2], sg, sz) THEN "degrees_and_powers_of_beta"
       ELSE LET T == Tab(e.res[2]) IN Ck("fewer_variables_" \o e.fam, Tab(e.res[1]) = [k \in {x \in DOMAIN T : Len(x) <= e.n} |-> T[k]])
DoubleVerdict(e) ==
    IF ~Readable(e.n, e.res[1]) \/ ~Readable(e.n, e.res[2]) THEN "malformed_value"
    ELSE Ck("doubling", VFromJson(e.res[1]) = VScale(VFromJson(e.res[2]), PConst(2 ^ (Len(e.mu) - Len(e.nu)))))
(* coefficient of nu in the product of lam and mu = coefficient of mu in the dual of nu / lam *)
StructVerdict(e) ==
    LET P == e.res[1] S == e.res[2]
        okv(js) == VWellFormed(js)
        CoefOf(v, k) == IF k \in DOMAIN v THEN v[k] ELSE Zero
    IN IF (\E i \in DOMAIN P : ~okv(P[i][2])) \/ (\E i \in DOMAIN S : ~okv(S[i][2])) THEN "malformed_value"
       ELSE LET VP == TLCEval([i \in DOMAIN P |-> VFromJson(P[i][2])]) VS == TLCEval([i \in DOMAIN S |-> VFromJson(S[i][2])])
            IN Ck("structure_" \o e.f \o "_" \o e.h, \A i \in DOMAIN P : \A k \in DOMAIN S : CoefOf(VP[i], S[k][1]) = CoefOf(VS[k], P[i][1]))
OpVerdict(e) ==
    IF e.exc # "" THEN "raised_in_" \o e.op
    ELSE CASE e.op = "branch" -> BranchVerdict(e)
           [] e.op = "split" -> SplitVerdict(e)
           [] e.op = "pair" -> PairVerdict(e)
           [] e.op = "classic" -> ClassicVerdict(e)
           [] e.op = "stable" -> StableVerdict(e)
           [] e.op = "double" -> DoubleVerdict(e)
           [] e.op = "struct" -> StructVerdict(e)
           [] e.op = "session" -> ""
           [] OTHER -> "unknown_event"
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, OpVerdict(Trace[l])) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
