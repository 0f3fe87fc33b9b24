---------------------------- MODULE HistoryModel ----------------------------
(* Design model: an implementation with a shared memo table, enumerations    *)
(* consumed item by item, and answers derived from other answers.  It is     *)
(* checked that what it shows to its users is always allowed by History,     *)
(* provided that (FullKey) table keys determine the answer, (Complete) an    *)
(* entry is only stored or served when the enumeration that fills it is      *)
(* finished, and (Copy) a derived answer is built from a copy.  Setting any  *)
(* of the three to FALSE gives the corresponding defect, which TLC finds     *)
(* (HistoryModelBad*.cfg, run by hand).                                      *)
EXTENDS History
CONSTANTS FullKey, Complete, Copy, Steps
Q == 1..3
(* answers are sequences of items; 3 is derived from 2 by appending an item, *)
(* and 1 and 2 are answers of one function to different options              *)
A(q) == CASE q = 1 -> <<"a">> [] q = 2 -> <<"a", "b">> [] q = 3 -> <<"a", "b", "c">>
Key(q) == IF FullKey THEN q ELSE IF q = 2 THEN 1 ELSE q
VARIABLES memo,   (* key -> object id *)
          heap,   (* object id -> value *)
          done,   (* object ids whose filling enumeration has finished *)
          gens,   (* running enumerations: id -> [q, obj, pos] *)
          st,     (* the abstract state of History *)
          bad,    (* verdicts of History so far *)
          n
vars == <<memo, heap, done, gens, st, bad, n>>
Gids == 1..2
Init == /\ memo = Empty /\ heap = <<>> /\ done = {} /\ gens = Empty /\ n = 0 /\ bad = {}
        /\ st = [Init0 EXCEPT !.known = [q \in Q |-> A(q)], !.items = [q \in Q |-> A(q)]]
Blame(v) == bad' = IF v = "" THEN bad ELSE bad \cup {v}
Usable(q) == Has(memo, Key(q)) /\ (Complete => memo[Key(q)] \in done)
(* a whole answer: served from the memo, derived, or computed and stored *)
AskBase(q) ==
    /\ q \in {1, 2}
    /\ IF Usable(q) THEN /\ Blame(AskVerdict(st, q, heap[memo[Key(q)]])) /\ UNCHANGED <<memo, heap, done>>
                         /\ st' = Hold(st, memo[Key(q)], heap[memo[Key(q)]])
       ELSE /\ heap' = Append(heap, A(q)) /\ done' = done \cup {Len(heap) + 1}
            /\ memo' = Put(memo, Key(q), Len(heap) + 1) /\ Blame(AskVerdict(st, q, A(q)))
            /\ st' = Hold(st, Len(heap) + 1, A(q))
    /\ UNCHANGED gens
AskDerived ==
    /\ Usable(2) /\ ~Has(memo, 3)
    /\ LET src == memo[Key(2)] v == Append(heap[src], "c") IN
       /\ IF Copy THEN heap' = Append(heap, v) /\ memo' = Put(memo, 3, Len(heap) + 1) /\ done' = done \cup {Len(heap) + 1}
          ELSE heap' = [heap EXCEPT ![src] = v] /\ memo' = Put(memo, 3, src) /\ UNCHANGED done
       /\ Blame(AskVerdict(st, 3, v))
    /\ UNCHANGED <<gens, st>>
AskAgain == /\ Has(memo, 3) /\ Blame(AskVerdict(st, 3, heap[memo[3]])) /\ UNCHANGED <<memo, heap, done, gens, st>>
LookAt == \E h \in DOMAIN st.held : Blame(LookVerdict(st, h, heap[h])) /\ UNCHANGED <<memo, heap, done, gens, st>>
(* an enumeration fills its own object; with Complete = FALSE the object is published at once *)
OpenGen(g) ==
    /\ ~Has(gens, g)
    /\ heap' = Append(heap, <<>>)
    /\ gens' = Put(gens, g, [q |-> 2, obj |-> Len(heap) + 1, pos |-> 0])
    /\ memo' = IF Complete \/ Has(memo, Key(2)) THEN memo ELSE Put(memo, Key(2), Len(heap) + 1)
    /\ st' = Open(st, g, 2) /\ UNCHANGED <<done, bad>>
TakeGen(g) ==
    /\ Has(gens, g) /\ gens[g].pos < Len(A(2))
    /\ LET a == A(2)[gens[g].pos + 1] o == gens[g].obj IN
       /\ heap' = [heap EXCEPT ![o] = Append(@, a)]
       /\ gens' = [gens EXCEPT ![g].pos = @ + 1]
       /\ Blame(TakeVerdict(st, g, a)) /\ st' = Take(st, g, a)
       /\ IF gens[g].pos + 1 = Len(A(2)) /\ ~Has(memo, Key(2))
          THEN memo' = Put(memo, Key(2), o) /\ done' = done \cup {o}
          ELSE IF gens[g].pos + 1 = Len(A(2)) THEN done' = done \cup {o} /\ UNCHANGED memo ELSE UNCHANGED <<memo, done>>
CloseGen(g) == /\ Has(gens, g) /\ gens[g].pos = Len(A(2)) /\ Blame(CloseVerdict(st, g)) /\ UNCHANGED <<memo, heap, done, gens, st>>
Next == /\ n < Steps /\ n' = n + 1
        /\ \/ \E q \in Q : AskBase(q)
           \/ AskDerived \/ AskAgain \/ LookAt
           \/ \E g \in Gids : OpenGen(g) \/ TakeGen(g) \/ CloseGen(g)
Spec == Init /\ [][Next]_vars
HistoryIndependent == bad = {}
MemoRight == \A k \in DOMAIN memo : memo[k] \in done => heap[memo[k]] = A(k)
=============================================================================
