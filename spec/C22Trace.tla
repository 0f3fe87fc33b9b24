------------------------------ MODULE C22Trace ------------------------------
EXTENDS Words, TraceBase
VARIABLES l
CutsVerdict(e) ==
    LET got == {<<e.res[k][1], e.res[k][2]>> : k \in 1..Len(e.res)}
    IN IF ~NoDup([k \in 1..Len(e.res) |-> e.res[k][1]]) THEN "composition_listed_twice"
       ELSE IF \E x \in got : x[2] = 0 THEN "zero_coefficient_kept"
       ELSE Ck("block_sum", got = Cuts(e.zeta, e.word))
OpVerdict(e) ==
    IF e.op = "session" THEN ""
    ELSE IF e.exc # "" THEN "raised_in_" \o e.op
    ELSE CASE e.op = "descents" -> Ck("descent_set", NoDup(e.res) /\ SetOf(e.res) = DescentSet(e.word))
           [] e.op = "ascents" -> Ck("ascents", e.res = WeakAscents(e.word))
           [] e.op = "peaks" -> Ck("peaks", e.res = PeaksOf(e.word))
           [] e.op = "zeta" -> Ck("zeta_" \o e.zeta, e.res = Zeta(e.zeta, e.word))
           [] e.op = "cuts" -> CutsVerdict(e)
           [] e.op = "wiring" -> Ck("wiring_diagram", e.res = DiagramLines(e.word, e.labels, {}))
           [] e.op = "iwiring" -> Ck("involution_wiring_diagram", e.res = DiagramLines(e.word, e.labels, Commutations(e.word)))
           [] e.op = "fwiring" -> Ck("fpf_involution_wiring_diagram", FpfOk(e.word, e.labels, e.res))
           [] OTHER -> "unknown_event"
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, OpVerdict(Trace[l])) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
