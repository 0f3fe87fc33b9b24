------------------------------- MODULE InsTab -------------------------------
(* Reading the implementation's tableaux and states.                         *)
EXTENDS Insertion, TraceBase
Idx(t, b) == CHOOSE k \in 1..Len(t) : <<t[k][1], t[k][2]>> = b
BoxesOf(t) == {<<t[k][1], t[k][2]>> : k \in 1..Len(t)}
Single(t) == \A k \in 1..Len(t) : Len(t[k][3]) = 1
ToT(t) == [b \in BoxesOf(t) |-> t[Idx(t, b)][3][1]]
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
ToQ(t) == [b \in BoxesOf(t) |-> Sorted(t[Idx(t, b)][3])]
Rec1(e) == IF e.record = <<>> THEN [i \in 1..Len(e.word) |-> i] ELSE e.record
(* an implementation state: all boxes, and the outer box where the pending value sits *)
SeesState(s, got) ==
    LET T == ToT(got.t)
        ob == CASE s.dir = "row" -> <<s.k, MaxCol(s.t) + 2>> [] s.dir = "col" -> <<MaxRow(s.t) + 2, s.k>> [] OTHER -> <<>>
    IN /\ Single(got.t) /\ got.outer = ob
       /\ IF s.dir = "done" THEN T = s.t ELSE T = Put(s.t, ob, s.v)
=============================================================================
