------------------------------ MODULE C11Trace ------------------------------
(* Trace specification of the constructors of symmetric functions.           *)
EXTENDS SymFun, TraceBase
VARIABLES l
WellFormed(n, js) == VWellFormed(js) /\ \A i \in DOMAIN js : IsPartition(js[i][1]) /\ Len(js[i][1]) <= n
Bounded(f, b) == IF b < 0 THEN f ELSE STruncate(f, b)
FunVerdict(e, f) ==
    LET r == VFromJson(e.res)
    IN IF ~WellFormed(e.n, e.res) THEN "malformed_value"
       ELSE IF r = f THEN ""
       ELSE IF DOMAIN r # DOMAIN f THEN (IF DOMAIN r \subseteq DOMAIN f THEN "terms_missing" ELSE "terms_that_do_not_occur")
       ELSE "wrong_coefficient"
RefVerdict(e) ==
    LET f == Refined(e.fam, e.n, e.mu, e.nu)
        keys == {e.res[i][1] : i \in DOMAIN e.res}
    IN IF Cardinality(keys) # Len(e.res) \/ keys # DOMAIN f THEN "wrong_diagonals"
       ELSE Ck("wrong_coefficient", \A i \in DOMAIN e.res : WellFormed(e.n, e.res[i][2]) /\ VFromJson(e.res[i][2]) = f[e.res[i][1]])
OpVerdict(e) ==
    IF e.exc # "" THEN "raised_in_" \o e.op
    ELSE CASE e.op = "fun" -> FunVerdict(e, Bounded(Fun(e.fam, e.n, e.mu, e.nu), e.bound))
           [] e.op = "negfun" -> FunVerdict(e, NegFun(e.fam, e.n, e.mu, e.nu))
           [] e.op = "doublebar" -> FunVerdict(e, Bounded(DoubleBar(e.fam, e.n, e.mu, e.nu), e.bound))
           [] e.op = "refined" -> RefVerdict(e)
           [] e.op = "gperm" -> FunVerdict(e, GPerm(e.kind, e.style, e.w, e.n, e.bound))
           [] e.op = "ribbon" -> Ck("wrong_ribbon", e.res = <<RibbonOuter(e.alpha), RibbonInner(e.alpha)>>)
           [] e.op = "session" -> ""
           [] OTHER -> "unknown_event"
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, OpVerdict(Trace[l])) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
