------------------------------ MODULE C20Trace ------------------------------
(* Registers hold combinations of strict shapes, or of words of formal row    *)
(* and column operators; each event carries all registers after the call.     *)
EXTENDS ShapeOps, TraceBase
VARIABLES l, regs
vars == <<l, regs>>
NR == 4
Reg(e, f) == regs[e[f]]
ObsRegs(e) == [r \in 1..NR |-> VFromJson(e.regs[r])]
(* an operand of an operator on shapes: a register or one shape *)
Operand(e) == IF e.a = 0 THEN VBase(e.mu) ELSE Reg(e, "a")
(* the other operand of sums and products of formal operators: register, polynomial or one letter *)
Other(e) == CASE e.kind = "reg" -> Reg(e, "b") [] e.kind = "poly" -> VScale(Unit, FromJson(e.c)) [] e.kind = "letter" -> VBase(<<0, e.i>>)
Expected(e) ==
    CASE e.op = "load" -> VFromJson(e.val)
      [] e.op = "act" -> Act(e.which, Operand(e), e.d)
      [] e.op = "series" -> Series(e.which, Operand(e), e.d, FromJson(e.x))
      [] e.op = "sum" -> VAdd(Reg(e, "a"), VScale(Reg(e, "b"), FromJson(e.c)))
      [] e.op = "wload" -> IF e.empty THEN VZero ELSE VBase(e.word)
      [] e.op = "wadd" -> VAdd(Reg(e, "a"), Other(e))
      [] e.op = "wsub" -> VSub(Reg(e, "a"), Other(e))
      [] e.op = "wrsub" -> VSub(Other(e), Reg(e, "a"))
      [] e.op = "wneg" -> VNeg(Reg(e, "a"))
      [] e.op = "wscale" -> VScale(Reg(e, "a"), FromJson(e.c))
      [] e.op = "wmul" -> WMul(Reg(e, "a"), Other(e))
      [] e.op = "wrmul" -> WMul(Other(e), Reg(e, "a"))
      [] e.op = "wfilter" -> FilterW(Reg(e, "a"), e.n)
      [] e.op = "commutator" -> Commutator(e.n, PVar(1, 1), PVar(-1, 1))
VecOps == {"load", "act", "series", "sum", "wload", "wadd", "wsub", "wrsub", "wneg", "wscale", "wmul", "wrmul", "wfilter", "commutator"}
KeysOk(e, v) == IF e.op \in {"load", "act", "series", "sum"} THEN \A mu \in DOMAIN v : IsStrict(mu)
                ELSE \A w \in DOMAIN v : w # <<>> /\ w[1] >= 0
StripVerdict(e) == LET r == AddStrip(e.dir, e.mu, e.x, e.y) IN
    Ck("strip_on_diagonals_" \o e.dir, e.res = r)
Verdict(e) ==
    IF e.exc # "" THEN "raised_in_" \o e.op
    ELSE IF e.op \in VecOps THEN
        LET post == IF e.dst = 0 THEN regs ELSE [regs EXCEPT ![e.dst] = VFromJson(e.res)] IN
        IF ~VWellFormed(e.res) THEN "zero_coefficient_kept"
        ELSE IF ~KeysOk(e, VFromJson(e.res)) THEN "malformed_key"
        ELSE IF VFromJson(e.res) # Expected(e) THEN "wrong_result_of_" \o e.op \o (IF e.op \in {"act", "series"} THEN "_" \o e.which ELSE "")
        ELSE Ck("operand_changed_by_" \o e.op, ObsRegs(e) = post)
    ELSE IF e.op = "strip" THEN StripVerdict(e)
    ELSE IF e.op = "equal" THEN
        IF e.res # (Reg(e, "a") = Reg(e, "b")) THEN "equality" ELSE Ck("operand_changed_by_equality", ObsRegs(e) = regs)
    ELSE IF e.op = "iszero" THEN Ck("equality_with_zero", e.res = (Reg(e, "a") = VZero))
    ELSE IF e.op = "wshow" THEN Ck("printed_unlike_its_combination", e.res[1] = e.res[2])
    ELSE "unknown_event"
Init == l = 1 /\ regs = [r \in 1..NR |-> VZero]
Session == Trace[l].op = "session" /\ regs' = [r \in 1..NR |-> VZero]
Operation == Trace[l].op # "session" /\ LET e == Trace[l] IN Report(l, Verdict(e)) /\ regs' = ObsRegs(e)
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Session \/ Operation)
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
