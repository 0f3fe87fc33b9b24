------------------------------ MODULE C01Trace ------------------------------
EXTENDS InsTab
VARIABLES l
InsertVerdict(e) ==
    LET x == Result(e.kind, e.word, Rec1(e), e.multi)
    IN IF ~Single(e.res[1]) THEN "insertion_tableau_with_several_entries_in_a_box"
       ELSE IF ToT(e.res[1]) # x[1] THEN "insertion_tableau"
       ELSE Ck("recording_tableau", ToQ(e.res[2]) = x[2])
AlgOf(kind) == IF kind = "hecke" THEN "hecke" ELSE "sp"
(* states are equal exactly when their tableaux and outer boxes are, and know their boxes *)
Elems(x) == {x[i] : i \in 1..Len(x)}
AllSeen(got) == <<got.start>> \o got.states
SameStates(got) ==
    LET s == AllSeen(got)
    IN Elems(got.same) = {<<i, j>> \in (1..Len(s)) \X (1..Len(s)) : s[i] = s[j]}
BoxesSeen(got) ==
    LET s == AllSeen(got)
    IN \A k \in 1..Len(s) :
        LET at == {<<x[1], x[2]>> : x \in Elems(s[k].t)}
        IN Elems(got.inside[k]) = {b \in at : b = s[k].outer \/ (b[1] <= 4 /\ b[2] <= 4)}
(* stepping one letter into the tableau of a word *)
PathVerdict(e) ==
    LET t == Insert(AlgOf(e.kind), e.word).p
        p == Path(AlgOf(e.kind), t, e.a)
        n == Len(p)
        got == e.res
    IN IF Len(got.states) # n \/ Len(got.boxes) # n THEN "number_of_steps"
       ELSE IF ~SeesState(StartIns(t, e.a), got.start) THEN "starting_state"
       ELSE IF \E k \in 1..n : ~SeesState(p[k][1], got.states[k]) THEN "intermediate_state"
       ELSE IF \E k \in 1..n : got.boxes[k] # p[k][2] THEN "bumped_box"
       ELSE IF got.inserted # [k \in 1..n |-> p[k][2]] \/ ~SeesState(p[n][1], got.final) THEN "insert_differs_from_stepping"
       ELSE IF ~SameStates(got) THEN "equal_states"
       ELSE IF ~BoxesSeen(got) THEN "boxes_of_a_state"
       ELSE IF got.flags # <<TRUE, FALSE, FALSE, TRUE>> THEN "initial_or_terminal_flag"
       ELSE Ck("popped_value", got.pop = e.a /\ got.popped.outer = <<>> /\ ToT(got.popped.t) = t)
ContinueVerdict(e) ==
    LET x == InsertFrom(AlgOf(e.kind), e.word, 1, EmptyT, {})
    IN IF ToT(e.res[1]) # x.p THEN "insertion_tableau" ELSE Ck("recording_tableau", ToQ(e.res[2]) = QWith(x.q, [i \in 1..Len(e.word) |-> i]))
OpVerdict(e) ==
    IF e.op = "session" THEN ""
    ELSE IF e.op = "reject" THEN Ck("bad_record_accepted", e.exc # "")
    ELSE IF e.exc # "" THEN "raised_in_" \o e.op
    ELSE CASE e.op = "insert" -> InsertVerdict(e)
           [] e.op = "path" -> PathVerdict(e)
           [] e.op = "continue" -> ContinueVerdict(e)
           [] OTHER -> "unknown_event"
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, OpVerdict(Trace[l])) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
