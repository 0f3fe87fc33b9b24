----------------------------- MODULE TraceBase -----------------------------
(* Common part of every trace specification.  A trace is a file of JSON     *)
(* objects, one per public call of the implementation, in call order.  The  *)
(* trace specification consumes one event per step; its verdict is total:   *)
(* Report prints the line and the name of the failing clause, and the       *)
(* checking goes on with the next event.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(l, clause) ==
    IF clause = "" THEN TRUE ELSE PrintT("VIOL " \o ToString(l) \o " " \o clause)

(* First failing clause of a sequence of <<name, holds>> pairs; "" if none.  *)
(* Pass thunks in order: later conjuncts are only evaluated when the earlier *)
(* ones hold (LET definitions are lazy).                                     *)
Ck(name, ok) == IF ok THEN "" ELSE name

NoDup(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
=============================================================================
