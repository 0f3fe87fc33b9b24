---------------------------- MODULE LittleModel ----------------------------
(* The bump loop as a state machine, started from every reduced word with a  *)
(* removable letter.                                                         *)
EXTENDS Little
CONSTANTS N, K, KINDS
VARIABLES kind, start, word, mark, base, steps
vars == <<kind, start, word, mark, base, steps>>
AllWords(k) == UNION {[1..m -> 1..N] : m \in 0..k}
Init == /\ kind \in KINDS /\ start \in {a \in AllWords(K) : LReduced(kind, a)}
        /\ word = start /\ steps = 0
        /\ \E i \in 1..Len(start) : LReduced(kind, Del(start, i)) /\ mark = i /\ base = LVal(kind, Del(start, i))
Next == /\ mark # 0 /\ LET p == Push(kind, word, mark) IN word' = p[1] /\ mark' = p[2]
        /\ steps' = steps + 1 /\ UNCHANGED <<kind, start, base>>
Spec == Init /\ [][Next]_vars
MarkOk == mark # 1000 /\ (mark # 0 => LVal(kind, Del(word, mark)) = base /\ LReduced(kind, Del(word, mark)))
(* the mark moves to exactly one other place *)
Unique == mark # 0 /\ word # start /\ LLen(kind, LVal(kind, word)) < Len(word) - 1 => Cardinality(Others(kind, word, mark, base)) = 1
Terminates == steps <= (K + 1) * (N + 2)
Final == mark = 0 => /\ LReduced(kind, word) /\ Len(word) = Len(start) /\ LDescs(word) = LDescs(start)
                     /\ base \in {LVal(kind, Del(word, i)) : i \in 1..Len(word)}
=============================================================================
