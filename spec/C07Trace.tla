------------------------------ MODULE C07Trace ------------------------------
EXTENDS Little, TraceBase
VARIABLES l
IsWord(a) == \A i \in 1..Len(a) : a[i] >= 1
WellFormed(kind, a, r) == IsWord(r) /\ Len(r) = Len(a) /\ LReduced(kind, r) /\ LDescs(r) = LDescs(a)
PushVerdict(e) ==
    LET p == Push(e.kind, e.word, e.i) IN
    IF e.res[1] # p[1] THEN "pushed_word" ELSE Ck("pushed_mark", e.res[2] = p[2])
BumpVerdict(e) ==
    IF ~WellFormed(e.kind, e.word, e.res) THEN "not_a_word_of_the_kind"
    ELSE Ck("wrong_bump", e.res = Bump(e.kind, e.word, e.y))
BumpPairVerdict(e) ==
    LET Y == Below(e.kind, LVal(e.kind, e.word), e.j, e.k) IN
    IF ~WellFormed(e.kind, e.word, e.res) THEN "not_a_word_of_the_kind"
    ELSE Ck("wrong_bump", e.res \in (IF Y = {} THEN {e.word} ELSE {Bump(e.kind, e.word, y) : y \in Y}))
(* a whole family: pairs <<word, bumped word>> over one element y below *)
FamilyVerdict(e) ==
    IF \E i \in 1..Len(e.res) : LET r == e.res[i][2] IN
            ~WellFormed(e.kind, e.words[i], r) \/ e.y \notin {LVal(e.kind, Del(r, k)) : k \in 1..Len(r)} THEN "not_over_the_same_element"
    ELSE IF \E i \in 1..Len(e.res) : e.res[i][1] # e.words[i] THEN "input_changed"
    ELSE Ck("not_injective", NoDup([i \in 1..Len(e.res) |-> e.res[i][2]]))
OpVerdict(e) ==
    IF e.exc # "" THEN "raised_in_" \o e.op
    ELSE CASE e.op = "push" -> PushVerdict(e)
           [] e.op = "bump" -> BumpVerdict(e)
           [] e.op = "bump2" -> BumpPairVerdict(e)
           [] e.op = "family" -> FamilyVerdict(e)
           [] e.op = "session" -> ""
           [] OTHER -> "unknown_event"
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, OpVerdict(Trace[l])) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
