------------------------------ MODULE C10Trace ------------------------------
EXTENDS Layers, TraceBase
VARIABLES l
OptOf(e) == [sh |-> e.sh, marked |-> e.marked, setv |-> e.setv, diag |-> e.diag, rpp |-> e.rpp, grp |-> FALSE]
(* entries of one box *)
BoxEntries(e) == LET k == (IF e.marked THEN 2 ELSE 1) * e.max IN IF e.setv THEN 2 ^ k ELSE k + 1
(* explicit fillings for the smallest diagrams, layers for the others *)
TableOf(e) == IF ~ContainsP(e.mu, e.nu) THEN <<>>
              ELSE IF Size(e.mu) - Size(e.nu) <= 3 /\ e.max <= 3 /\ BoxEntries(e) ^ (Size(e.mu) - Size(e.nu)) <= 4000 THEN PartitionTable(OptOf(e), e.max, e.mu, e.nu)
              ELSE LayerTable(OptOf(e), e.max, e.mu, e.nu)
TableVerdict(e) ==
    LET T == TLCEval(TableOf(e))
        keys == {e.res[k][1] : k \in 1..Len(e.res)}
    IN IF Cardinality(keys) # Len(e.res) THEN "repeated_weight"
       ELSE IF keys # DOMAIN T THEN (IF keys \subseteq DOMAIN T THEN "weights_missing" ELSE "weights_that_do_not_occur")
       ELSE Ck("wrong_count", \A k \in 1..Len(e.res) : e.res[k][2] = T[e.res[k][1]])
LookupVerdict(e) ==
    LET T == TLCEval(TableOf(e))
    IN Ck("wrong_count", e.res = IF e.weight \in DOMAIN T THEN T[e.weight] ELSE 0)
OpVerdict(e) ==
    IF e.exc # "" THEN "raised_in_" \o e.op
    ELSE CASE e.op = "table" -> TableVerdict(e)
           [] e.op = "lookup" -> LookupVerdict(e)
           [] e.op = "session" -> ""
           [] OTHER -> "unknown_event"
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, OpVerdict(Trace[l])) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
