----------------------------- MODULE LevelCache -----------------------------
(* The shared level cache behind the word enumerators, as a protocol between *)
(* several partially consumed generators.  A generator first replays what    *)
(* the cache held, then computes further levels itself, appending those the  *)
(* cache does not have yet.  With Snapshot = TRUE (the repaired code) what   *)
(* is replayed is fixed when the generator starts; with Snapshot = FALSE     *)
(* (the code as it was) the last cached level is read only once it is        *)
(* reached, by which time another generator may have moved it.               *)
EXTENDS Integers, Sequences
CONSTANTS Gen, Depth, Snapshot
VARIABLES cache, started, snap, own, pos, out
vars == <<cache, started, snap, own, pos, out>>
(* levels are represented by their true index; -1 means not computed yet *)
Init == /\ cache = <<>> /\ started = [g \in Gen |-> FALSE] /\ snap = [g \in Gen |-> <<>>]
        /\ own = [g \in Gen |-> -1] /\ pos = [g \in Gen |-> 0] /\ out = [g \in Gen |-> <<>>]
(* g yields level lv as its pos-th level *)
Yield(g, lv) == /\ out' = [out EXCEPT ![g] = Append(@, lv)]
                /\ pos' = [pos EXCEPT ![g] = @ + 1]
                /\ cache' = IF pos[g] >= Len(cache) THEN Append(cache, lv) ELSE cache
Begin(g) == /\ ~started[g] /\ pos[g] = 0
            /\ started' = [started EXCEPT ![g] = TRUE]
            /\ snap' = [snap EXCEPT ![g] = cache]
            /\ UNCHANGED <<cache, own, pos, out>>
Replay(g) == /\ started[g] /\ pos[g] < Depth
             /\ LET k == Len(snap[g]) IN
                \/ /\ pos[g] + 1 < k /\ Yield(g, snap[g][pos[g] + 1]) /\ UNCHANGED own
                \/ /\ k > 0 /\ pos[g] + 1 = k
                   /\ LET lv == IF Snapshot THEN snap[g][k] ELSE cache[Len(cache)]
                      IN Yield(g, lv) /\ own' = [own EXCEPT ![g] = lv]
                \/ /\ k = 0 /\ pos[g] = 0 /\ Yield(g, 0) /\ own' = [own EXCEPT ![g] = 0]
                \/ /\ own[g] >= 0 /\ Yield(g, own[g] + 1) /\ own' = [own EXCEPT ![g] = @ + 1]
             /\ UNCHANGED <<started, snap>>
Next == \E g \in Gen : Begin(g) \/ Replay(g)
Spec == Init /\ [][Next]_vars
LevelsInOrder == \A g \in Gen : \A i \in 1..Len(out[g]) : out[g][i] = i - 1
CacheSound == \A i \in 1..Len(cache) : cache[i] = i - 1
=============================================================================
