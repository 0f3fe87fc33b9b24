------------------------------ MODULE C15Trace ------------------------------
(* Trace specification of formal linear combinations: registers hold        *)
(* vectors; each event carries all registers after the call.                *)
EXTENDS LinComb, TraceBase
VARIABLES l, regs, seen, mode,
          has     \* for every register: does it carry the product rule, and does it carry a printer
vars == <<l, regs, seen, mode, has>>
NR == 4
Reg(e, f) == regs[e[f]]
ObsRegs(e) == [r \in 1..NR |-> VFromJson(e.regs[r])]

(* the multiplication rules of the three kinds of sessions *)
Rule(a, b) == CASE mode = "times" -> VBase(a * b)
                [] mode = "plusminus" -> VAdd(VBase(a + b), VBase(AbsV(a - b)))
                [] mode = "concat" -> VBase(a \o b)
                [] OTHER -> VBase(a)

Expected(e) ==
    CASE e.op = "load" -> VFromJson(e.val)
      [] e.op = "base" -> VBase(e.key)
      [] e.op = "add"  -> VAdd(Reg(e, "a"), Reg(e, "b"))
      [] e.op = "sub"  -> VSub(Reg(e, "a"), Reg(e, "b"))
      [] e.op = "neg"  -> VNeg(Reg(e, "a"))
      [] e.op = "scale" -> VScale(Reg(e, "a"), FromJson(e.c))
      [] e.op = "same" -> Reg(e, "a")
      [] e.op = "sum" -> VAdd(Reg(e, "a"), VAdd(Reg(e, "b"), Reg(e, "a")))
      [] e.op = "mul"  -> VMul(Reg(e, "a"), Reg(e, "b"), Rule)
      [] e.op = "mulkey" -> VMul(Reg(e, "a"), VBase(e.key), Rule)
      [] e.op = "pow"  -> VPow(Reg(e, "a"), e.k, Rule)
      [] e.op = "floordiv" -> VFloorDiv(Reg(e, "a"), e.c)
VecOps == {"load", "base", "add", "sub", "neg", "scale", "same", "sum", "mul", "mulkey", "pow", "floordiv"}

(* what the result of an operation carries: whatever one of its operands carries *)
Carries(e) ==
    CASE e.op = "load" -> <<e.mult, e.prn>>
      [] e.op = "base" -> <<TRUE, FALSE>>
      [] e.op \in {"add", "sub", "sum", "mul"} -> <<has[e.a][1] \/ has[e.b][1], has[e.a][2] \/ has[e.b][2]>>
      [] OTHER -> has[e.a]
(* a product is determined when its left operand carries the rule *)
RuleKnown(e) == e.op \in {"mul", "mulkey", "pow"} => has[e.a][1]

MatVerdict(e) ==
    IF e.op = "rref" THEN
        IF Len(e.res) # Len(e.m) \/ \E i \in DOMAIN e.res : Len(e.res[i]) # Len(e.m[i]) THEN "rref_dimensions"
        ELSE IF ~IsEchelon(e.res) THEN "rref_not_echelon"
        ELSE Ck("rref_row_space", SameRowSpace(e.m, e.res))
    ELSE Ck("expressable", e.res = InSpan(e.v, e.m))

AllPositive(v) == \A k \in DOMAIN v : PPositive(v[k])
QueryVerdict(e) ==
    CASE e.op = "eq" -> Ck("equality", e.res = <<Reg(e, "a") = Reg(e, "b"), Reg(e, "a") # Reg(e, "b")>>)
      [] e.op = "flags" -> Ck("predicates",
            LET v == Reg(e, "a") IN
            e.res = <<DOMAIN v = {}, AllPositive(v), AllPositive(v) /\ DOMAIN v # {},
                      Cardinality(DOMAIN v) = 1 /\ (\A k \in DOMAIN v : v[k] = One)>>)
      [] e.op = "len" -> Ck("support_size", e.res = Cardinality(DOMAIN Reg(e, "a")))
      [] e.op = "get" -> Ck("coefficient_lookup", FromJson(e.res) = VCoef(Reg(e, "a"), e.key))
      [] e.op = "keys" -> Ck("support", Len(e.res) = Cardinality(DOMAIN Reg(e, "a")) /\ SetOf(e.res) = DOMAIN Reg(e, "a"))
      [] e.op = "show" ->
            LET p == Reg(e, "a") IN
            IF \E s \in seen : s[1] = p /\ s[4] = has[e.a][2] /\ s[2] # e.res[1] THEN "equal_values_print_differently"
            ELSE IF e.res[3] # (has[e.a][2] /\ p # VZero) THEN "printer_lost_or_invented"
            ELSE Ck("equal_values_hash_differently", \A s \in seen : (s[1] = p /\ s[4] = has[e.a][2]) => s[3] = e.res[2])
QueryOps == {"eq", "flags", "len", "get", "keys", "show"}

OpVerdict(e) ==
    IF e.exc # "" THEN "raised"
    ELSE IF e.op \in VecOps THEN
        LET post == IF e.dst = 0 THEN regs ELSE [regs EXCEPT ![e.dst] = VFromJson(e.res)]
        IN IF ~RuleKnown(e) THEN "recorded_a_product_without_a_rule"
           ELSE IF ~VWellFormed(e.res) THEN "zero_coefficient_kept"
           ELSE IF VFromJson(e.res) # Expected(e) THEN "wrong_result_" \o e.op
           ELSE Ck("operand_changed_by_" \o e.op, ObsRegs(e) = post)
    ELSE IF e.op \in QueryOps THEN
        LET q == QueryVerdict(e) IN IF q # "" THEN q ELSE Ck("operand_changed_by_" \o e.op, ObsRegs(e) = regs)
    ELSE IF e.op \in {"rref", "express"} THEN MatVerdict(e)
    ELSE "unknown_event"

Init == l = 1 /\ regs = [r \in 1..NR |-> VZero] /\ seen = {} /\ mode = "" /\ has = [r \in 1..NR |-> <<TRUE, FALSE>>]
Session == /\ Trace[l].op = "session"
           /\ regs' = [r \in 1..NR |-> VZero] /\ seen' = {} /\ mode' = Trace[l].name
           /\ has' = [r \in 1..NR |-> <<TRUE, FALSE>>]
Operation == /\ Trace[l].op # "session"
             /\ LET e == Trace[l] IN
                /\ Report(l, OpVerdict(e))
                /\ regs' = IF e.op \in {"rref", "express"} THEN regs ELSE ObsRegs(e)
                /\ seen' = IF e.op = "show" /\ e.exc = "" THEN seen \cup {<<Reg(e, "a"), e.res[1], e.res[2], has[e.a][2]>>} ELSE seen
                /\ has' = IF e.op \in VecOps /\ e.exc = "" /\ e.dst # 0 THEN [has EXCEPT ![e.dst] = Carries(e)] ELSE has
             /\ mode' = mode
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Session \/ Operation)
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
