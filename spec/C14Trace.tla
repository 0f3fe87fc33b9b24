------------------------------ MODULE C14Trace ------------------------------
(* Trace specification of Laurent polynomial arithmetic: a register machine *)
(* whose registers hold polynomials.  Every event carries the projection of *)
(* all registers after the call, so an operation that changes an operand is *)
(* rejected as surely as one that returns a wrong result.                   *)
EXTENDS PolyRing, TraceBase
VARIABLES l, regs, seen
vars == <<l, regs, seen>>

NR == 5
Reg(e, f) == regs[e[f]]
ObsRegs(e) == [r \in 1..NR |-> FromJson(e.regs[r])]
WF(js) == PWellFormed(js)

(* the polynomial each operation must return *)
Expected(e) ==
    CASE e.op = "load"  -> FromJson(e.val)
      [] e.op = "const" -> PConst(e.c)
      [] e.op = "var"   -> PVar(e.i, e.k)
      [] e.op = "add"   -> PAdd(Reg(e, "a"), Reg(e, "b"))
      [] e.op = "sub"   -> PSub(Reg(e, "a"), Reg(e, "b"))
      [] e.op = "mul"   -> PMul(Reg(e, "a"), Reg(e, "b"))
      [] e.op = "ksum"  -> PKSum(Reg(e, "a"), Reg(e, "b"))
      [] e.op = "neg"   -> PNeg(Reg(e, "a"))
      [] e.op = "addc"  -> PAdd(Reg(e, "a"), PConst(e.c))
      [] e.op = "subc"  -> PSub(Reg(e, "a"), PConst(e.c))
      [] e.op = "rsubc" -> PSub(PConst(e.c), Reg(e, "a"))
      [] e.op = "mulc"  -> PScale(Reg(e, "a"), e.c)
      [] e.op = "pow"   -> PPowZ(Reg(e, "a"), e.k)
      [] e.op = "mod"   -> PMod(Reg(e, "a"), e.c)
      [] e.op = "div"   -> PFloorDiv(Reg(e, "a"), e.c)
      [] e.op = "floordiv" -> PFloorDiv(Reg(e, "a"), e.c)
      [] e.op = "trunc" -> PTruncate(Reg(e, "a"), e.k)
      [] e.op = "coef"  -> PCoefficient(Reg(e, "a"), e.i, e.k)
      [] e.op = "subst" -> PSubst(Reg(e, "a"), e.i, Reg(e, "b"))
      [] e.op = "call"  -> PCall(Reg(e, "a"), [t \in DOMAIN e.env |-> <<e.env[t][1], FromJson(e.env[t][2])>>])

PolyOps == {"load", "const", "var", "add", "sub", "mul", "ksum", "neg", "addc", "subc", "rsubc", "mulc", "pow", "mod",
            "div", "floordiv", "trunc", "coef", "subst", "call"}

(* scalar queries: res is the logged answer *)
QueryOps == {"order", "noinv", "eq", "eqc", "deg", "count", "get", "const_term", "is_int", "show", "keys"}
(* p < q: no coefficient of q - p is negative *)
Below(p, q) == LET d == PSub(q, p) IN \A m \in DOMAIN d : d[m] > 0
DegOk(e) == IF Reg(e, "a") = Zero THEN e.res = "none" ELSE e.res = PTotalDegree(Reg(e, "a"))
QueryVerdict(e) ==
    CASE e.op = "order" ->
            LET p == Reg(e, "a")
                q == Reg(e, "b")
                k == PConst(e.c)
            IN Ck("coefficientwise_order", e.res = <<Below(p, q), Below(q, p), Below(p, k), Below(k, p)>>)
      [] e.op = "noinv" -> Ck("negative_power_of_a_non_unit", e.res = "none")
      [] e.op = "eq" -> Ck("equality", e.res = (<<Reg(e, "a") = Reg(e, "b"), Reg(e, "a") # Reg(e, "b")>>))
      [] e.op = "eqc" -> Ck("equality_int", e.res = (<<Reg(e, "a") = PConst(e.c), Reg(e, "a") # PConst(e.c)>>))
      [] e.op = "deg" -> Ck("total_degree", DegOk(e))
      [] e.op = "count" -> Ck("term_count", e.res = <<Cardinality(DOMAIN Reg(e, "a")), Reg(e, "a") = Zero, Reg(e, "a") # Zero>>)
      [] e.op = "get" -> Ck("coefficient_lookup", e.res = PCoef(Reg(e, "a"), SetOf(e.m)))
      [] e.op = "const_term" -> Ck("constant_term", e.res = PCoef(Reg(e, "a"), {}))
      [] e.op = "is_int" -> Ck("is_integer", e.res = (DOMAIN Reg(e, "a") \subseteq {{}}))
      [] e.op = "keys" -> Ck("iteration", {SetOf(e.res[k]) : k \in DOMAIN e.res} = DOMAIN Reg(e, "a")
                                          /\ Len(e.res) = Cardinality(DOMAIN Reg(e, "a")))
      [] e.op = "show" ->
            LET p == Reg(e, "a") IN
            IF \E s \in seen : s[1] = p /\ s[2] # e.res[1] THEN "equal_values_print_differently"
            ELSE IF \E s \in seen : s[1] # p /\ s[2] = e.res[1] THEN "different_values_print_alike"
            ELSE IF (DOMAIN p \subseteq {{}}) # (e.res[3] # <<>>) THEN "comparison_with_an_integer"
            ELSE IF e.res[3] # <<>> /\ e.res[3] # <<e.res[2]>> THEN "constant_hashes_unlike_its_integer"
            ELSE Ck("equal_values_hash_differently", \A s \in seen : s[1] = p => s[3] = e.res[2])

Init == l = 1 /\ regs = [r \in 1..NR |-> Zero] /\ seen = {}

Session == /\ Trace[l].op = "session"
           /\ regs' = [r \in 1..NR |-> Zero] /\ seen' = {}

(* every other event: the first failing clause is reported, the state follows the observation *)
OpVerdict(e) ==
    IF e.exc # "" THEN "raised"
    ELSE IF e.op \in PolyOps THEN
        LET want == Expected(e)
            post == IF e.dst = 0 THEN regs ELSE [regs EXCEPT ![e.dst] = FromJson(e.res)]
        IN IF ~WF(e.res) THEN "not_normalised"
           ELSE IF FromJson(e.res) # want THEN "wrong_result_" \o e.op
           ELSE Ck("operand_changed_by_" \o e.op, ObsRegs(e) = post)
    ELSE IF e.op = "divlin" THEN
        IF ~WF(e.res) THEN "not_normalised"
        ELSE IF PMul(FromJson(e.res), PAdd(PVar(e.i, 1), PConst(e.c))) # Reg(e, "a") THEN "wrong_result_divlin"
        ELSE Ck("operand_changed_by_divlin", ObsRegs(e) = IF e.dst = 0 THEN regs ELSE [regs EXCEPT ![e.dst] = FromJson(e.res)])
    ELSE IF e.op \in QueryOps THEN
        LET q == QueryVerdict(e) IN IF q # "" THEN q ELSE Ck("operand_changed_by_" \o e.op, ObsRegs(e) = regs)
    ELSE "unknown_event"

Operation == /\ Trace[l].op # "session"
             /\ LET e == Trace[l] IN
                /\ Report(l, OpVerdict(e))
                /\ regs' = ObsRegs(e)
                /\ seen' = IF e.op = "show" /\ e.exc = "" THEN seen \cup {<<Reg(e, "a"), e.res[1], e.res[2]>>} ELSE seen

Next == l <= Len(Trace) /\ l' = l + 1 /\ (Session \/ Operation)
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
