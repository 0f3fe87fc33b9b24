------------------------------ MODULE History ------------------------------
(* One process answering queries.  What a user may observe of a history:     *)
(*   fresh q a     a process that was asked nothing before answers a to q    *)
(*   ask q a       the process under test answers a to q                     *)
(*   freshgen q s  the items of an enumeration in a fresh process, complete  *)
(*                 or (all = FALSE) a prefix by levels                       *)
(*   open g q, take g a, close g   an enumeration consumed item by item,     *)
(*                 with other calls in between, or abandoned                 *)
(*   hold h v, look h v   the value of an object handed to or obtained from  *)
(*                 a call, when it was obtained and later                    *)
(* The abstract state is the table of right answers, what every open         *)
(* enumeration has produced so far, and the values of held objects.  A       *)
(* process is history independent iff every step below is enabled.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [k \in {} |-> 0]
Init0 == [known |-> Empty, items |-> Empty, gens |-> Empty, held |-> Empty]
Put(f, k, v) == TLCEval((k :> v) @@ f)
Has(f, k) == k \in DOMAIN f
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SubBag(s, t) == \A i \in 1..Len(s) : Count(s, s[i]) <= Count(t, s[i])
SameBag(s, t) == Len(s) = Len(t) /\ SubBag(s, t)

(* the verdict of an event in a state: "" iff the step is allowed *)
FreshOK(st, q, a) == ~Has(st.known, q) \/ st.known[q] = a
AskVerdict(st, q, a) == IF ~Has(st.known, q) THEN "no_reference" ELSE IF st.known[q] = a THEN "" ELSE "answer_depends_on_history"
TakeVerdict(st, g, a) ==
    LET x == st.gens[g] n == Count(x.out, a) IN
    IF n < Count(st.items[x.q], a) THEN "" ELSE IF n = 0 THEN "enumeration_yields_foreign_item" ELSE "enumeration_repeats_item"
CloseVerdict(st, g) == IF SameBag(st.gens[g].out, st.items[st.gens[g].q]) THEN "" ELSE "enumeration_ends_early"
LookVerdict(st, h, v) == IF st.held[h] = v THEN "" ELSE "object_changed_by_later_call"

Learn(st, q, a) == [st EXCEPT !.known = Put(@, q, a)]
LearnItems(st, q, s) == [st EXCEPT !.items = Put(@, q, s)]
Open(st, g, q) == [st EXCEPT !.gens = Put(@, g, [q |-> q, out |-> <<>>])]
Take(st, g, a) == [st EXCEPT !.gens[g].out = Append(@, a)]
Hold(st, h, v) == [st EXCEPT !.held = Put(@, h, v)]
=============================================================================
