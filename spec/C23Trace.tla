------------------------------ MODULE C23Trace ------------------------------
EXTENDS History, TraceBase
VARIABLES l, st
Verdict(e) ==
    CASE e.op = "session" -> ""
      [] e.op = "fresh" -> Ck("fresh_processes_disagree", FreshOK(st, e.q, e.res))
      [] e.op = "freshgen" -> ""
      [] e.op = "ask" -> AskVerdict(st, e.q, e.res)
      [] e.op = "open" -> ""
      [] e.op = "take" -> TakeVerdict(st, e.g, e.res)
      [] e.op = "close" -> CloseVerdict(st, e.g)
      [] e.op = "hold" -> ""
      [] e.op = "look" -> LookVerdict(st, e.h, e.res)
      [] OTHER -> "unknown_event"
NextSt(e) ==
    CASE e.op = "session" -> Init0
      [] e.op = "fresh" -> Learn(st, e.q, e.res)
      [] e.op = "freshgen" -> LearnItems(st, e.q, e.res)
      [] e.op = "open" -> Open(st, e.g, e.q)
      [] e.op = "take" -> Take(st, e.g, e.res)
      [] e.op = "hold" -> Hold(st, e.h, e.res)
      [] OTHER -> st
Full(e) == IF e.exc # "" THEN "raised_in_" \o e.op ELSE Verdict(e)
Init == l = 1 /\ st = Init0
Next == /\ l <= Len(Trace) /\ Report(l, Full(Trace[l])) /\ l' = l + 1
        /\ st' = IF Trace[l].exc # "" THEN st ELSE NextSt(Trace[l])
TraceSpec == Init /\ [][Next]_<<l, st>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
