------------------------------ MODULE C02Trace ------------------------------
EXTENDS InsTab
VARIABLES l
AlgOf(kind) == IF kind = "hecke" THEN "hecke" ELSE "sp"
(* forward then back *)
RoundVerdict(e) ==
    IF e.res[1] # e.word THEN "word_not_recovered"
    ELSE Ck("record_not_recovered", e.res[2] = Rec1(e))
(* back then forward, from a valid pair of tableaux: the specification inserts the returned word *)
InverseVerdict(e) ==
    LET w == e.res[1] r == e.res[2]
    IN IF Len(w) # Len(r) THEN "record_of_another_length"
       ELSE IF \E i \in 1..Len(w) : w[i] < 1 THEN "letter_out_of_range"
       ELSE IF e.kind = "sp" /\ ~IsSymplectic(w) THEN "not_a_symplectic_word"
       ELSE IF ~RecordOk(w, r, e.multi) THEN "record_not_compatible"
       ELSE Ck("not_an_inverse_image", Result(e.kind, w, r, e.multi) = <<ToT(e.p), ToQ(e.q)>>)
(* the states met while stepping back from the end of one insertion *)
UndoVerdict(e) ==
    LET t == Insert(AlgOf(e.kind), e.word).p
        p == Path(AlgOf(e.kind), t, e.a)
        n == Len(p)
        st(k) == IF k = 0 THEN StartIns(t, e.a) ELSE p[k][1]
    IN IF Len(e.res.states) # n THEN "number_of_steps_back"
       ELSE IF \E k \in 1..n : ~SeesState(st(n - k), e.res.states[k]) THEN "state_not_restored"
       ELSE Ck("steps_back_before_the_start", e.res.stays)
OpVerdict(e) ==
    IF e.op = "session" THEN ""
    ELSE IF e.exc # "" THEN "raised_in_" \o e.op
    ELSE CASE e.op = "round" -> RoundVerdict(e)
           [] e.op = "inverse" -> InverseVerdict(e)
           [] e.op = "undo" -> UndoVerdict(e)
           [] OTHER -> "unknown_event"
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, OpVerdict(Trace[l])) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
