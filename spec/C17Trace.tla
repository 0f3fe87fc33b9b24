------------------------------ MODULE C17Trace ------------------------------
(* Growth diagrams recorded from the implementation.                         *)
EXTENDS Growth, InsTab
VARIABLES l
(* printed grids: cells padded to a common width of at least 6, the last row first *)
LOCAL W == INSTANCE Words
ShowPart(p) == "(" \o W!JoinWith([i \in 1..Len(p) |-> ToString(p[i])], ", ") \o (IF Len(p) = 1 THEN ",)" ELSE ")")
Width(p) == 2 + (IF Len(p) = 1 THEN 1 ELSE IF p = <<>> THEN 0 ELSE 2 * (Len(p) - 1)) + SumOver(1..Len(p), LAMBDA i : IF p[i] > 9 THEN 2 ELSE 1)
Printed(g) == LET n == Len(g) m == MaxSet({6} \cup UNION {{Width(g[i][j]) : j \in 1..Len(g[i])} : i \in 1..n}, 0)
                  line(i) == W!JoinWith([j \in 1..Len(g[i]) |-> ShowPart(g[i][j]) \o W!Rep(" ", m - Width(g[i][j]))], " ")
              IN <<"">> \o [k \in 1..n |-> line(n + 1 - k)] \o <<"", "">>
ArraySet(e) == {x \in SetOf(e.array) : x[3] > 0}
GrowthVerdict(e) ==
    LET A == ArraySet(e)
        n == IF e.n < 0 THEN MaxSet({x[1] : x \in SetOf(e.array)}, 0) ELSE e.n
        m == IF e.m < 0 THEN MaxSet({x[2] : x \in SetOf(e.array)}, 0) ELSE e.m
    IN IF Len(e.res) # n + 1 \/ \E i \in 1..Len(e.res) : Len(e.res[i]) # m + 1 THEN "dimensions_of_growth_diagram"
       ELSE IF ~LocallyGrown(e.res, A, m, n) THEN "local_rule"
       ELSE Ck("differs_from_rsk_shapes", e.res = RskGrid(A, m, n))
(* word with 0 for empty columns, padded or cut to m columns; letters above n are never reached *)
WordOf(e) == IF e.m < 0 THEN e.word ELSE [j \in 1..e.m |-> IF j <= Len(e.word) THEN e.word[j] ELSE 0]
Rows(e) == IF e.n < 0 THEN MaxSet(SetOf(e.word), 0) ELSE e.n
ShiftedVerdict(e) ==
    LET w == WordOf(e) n == Rows(e) g == e.res IN
    IF Len(g) # n + 1 \/ \E i \in 1..Len(g) : Len(g[i]) # Len(w) + 1 THEN "dimensions_of_shifted_growth_diagram"
    ELSE IF ~GrownShifted(g, w) THEN "shifted_local_rule"
    ELSE Ck("differs_from_insertion_of_restricted_word", g = InsertionGrid(w, n))
ReadVerdict(e) ==
    LET x == Result("orth", e.word, [i \in 1..Len(e.word) |-> i], TRUE) IN
    IF ~Single(e.res[1]) \/ ToT(e.res[1]) # x[1] THEN "insertion_tableau_read_from_growth_diagram"
    ELSE IF ToQ(e.res[2]) # x[2] THEN "recording_tableau_read_from_growth_diagram"
    ELSE IF e.res[3] # e.res[1] \/ e.res[4] # e.res[2] THEN "orthogonal_hecke_differs_from_growth_diagram"
    ELSE ""
OpVerdict(e) ==
    IF e.op = "session" THEN ""
    ELSE IF e.exc # "" THEN "raised_in_" \o e.op
    ELSE CASE e.op = "growth" -> GrowthVerdict(e)
           [] e.op = "sgrowth" -> ShiftedVerdict(e)
           [] e.op = "print" -> Ck("printed_growth_diagram", e.res = Printed(RskGrid(ArraySet(e), MaxSet({x[2] : x \in SetOf(e.array)}, 0), MaxSet({x[1] : x \in SetOf(e.array)}, 0))))
           [] e.op = "read" -> ReadVerdict(e)
           [] OTHER -> "unknown_event"
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, OpVerdict(Trace[l])) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
