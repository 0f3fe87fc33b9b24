------------------------------ MODULE C13Trace ------------------------------
(* Trace specification of symmetric polynomial arithmetic: registers hold   *)
(* symmetric polynomials in n variables (n fixed per session); each event   *)
(* carries all registers after the call.                                    *)
EXTENDS SymPoly, TraceBase
VARIABLES l, regs, seen
vars == <<l, regs, seen>>
NR == 4
Reg(e, f) == regs[e[f]]
ObsRegs(e) == [r \in 1..NR |-> VFromJson(e.regs[r])]
M(e, f) == VBase(Canon(e[f]))

LexLess(a, b) == \/ Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
                 \/ \E i \in 1..Len(a) : i <= Len(b) /\ a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Expected(e) ==
    CASE e.op = "load" -> VFromJson(e.val)
      [] e.op = "base" -> M(e, "mu")
      [] e.op = "add"  -> VAdd(Reg(e, "a"), Reg(e, "b"))
      [] e.op = "sub"  -> VSub(Reg(e, "a"), Reg(e, "b"))
      [] e.op = "neg"  -> VNeg(Reg(e, "a"))
      [] e.op = "scale" -> VScale(Reg(e, "a"), FromJson(e.c))
      [] e.op = "same" -> Reg(e, "a")
      [] e.op = "mul"  -> SMul(e.n, Reg(e, "a"), Reg(e, "b"))
      [] e.op = "pow"  -> SPow(e.n, Reg(e, "a"), e.k)
      [] e.op = "truncate" -> STruncate(Reg(e, "a"), e.k)
      [] e.op = "lowest" -> SLowest(Reg(e, "a"))
      [] e.op = "highest" -> SHighest(Reg(e, "a"))
      [] e.op = "negate_beta" -> SNegBeta(Reg(e, "a"))
      (* operations on single monomials, possibly with a register *)
      [] e.op = "m_scale" -> VScale(M(e, "mu"), FromJson(e.c))
      [] e.op = "m_add" -> VAdd(M(e, "mu"), M(e, "nu"))
      [] e.op = "m_sub" -> VSub(M(e, "mu"), M(e, "nu"))
      [] e.op = "m_mul" -> SMul(e.n, M(e, "mu"), M(e, "nu"))
      [] e.op = "m_pow" -> SPow(e.n, M(e, "mu"), e.k)
      [] e.op = "m_addint" -> VAdd(M(e, "mu"), VScale(SOne, FromJson(e.c)))
      [] e.op = "m_subint" -> VSub(M(e, "mu"), VScale(SOne, FromJson(e.c)))
      [] e.op = "m_intsub" -> VSub(VScale(SOne, FromJson(e.c)), M(e, "mu"))
      [] e.op = "m_addreg" -> VAdd(M(e, "mu"), Reg(e, "a"))
      [] e.op = "m_subreg" -> VSub(M(e, "mu"), Reg(e, "a"))
      [] e.op = "m_regsub" -> VSub(Reg(e, "a"), M(e, "mu"))
      [] e.op = "m_mulreg" -> SMul(e.n, M(e, "mu"), Reg(e, "a"))
SymOps == {"load", "base", "add", "sub", "neg", "scale", "same", "mul", "pow", "truncate", "lowest", "highest",
           "negate_beta", "m_scale", "m_add", "m_sub", "m_mul", "m_pow", "m_addint", "m_subint", "m_intsub", "m_addreg", "m_subreg",
           "m_regsub", "m_mulreg"}

QueryVerdict(e) ==
    CASE e.op = "eq" -> Ck("equality", e.res = <<Reg(e, "a") = Reg(e, "b"), Reg(e, "a") # Reg(e, "b")>>)
      [] e.op = "eqint" -> Ck("equality_with_integer", e.res = (Reg(e, "a") = VScale(SOne, PConst(e.k))))
      [] e.op = "m_eq" -> Ck("equality_of_monomials",
                e.res = <<M(e, "mu") = M(e, "nu"), M(e, "mu") = Reg(e, "a"), M(e, "mu") = VScale(SOne, PConst(e.k))>>)
      [] e.op = "m_info" -> Ck("monomial_projections",
                LET mu == Canon(e.mu) IN e.res = <<mu, e.n, Size(mu), mu # <<>>>>)
      (* monomials in different numbers of variables are different *)
      [] e.op = "m_cmp" -> Ck("equality_of_monomials",
                LET same == e.n = e.n2 /\ M(e, "mu") = M(e, "nu") IN e.res = <<same, ~same>>)
      [] e.op = "m_less" -> Ck("order_of_monomials",
                e.res = <<LexLess(Canon(e.mu), Canon(e.nu)), LexLess(Canon(e.nu), Canon(e.mu))>>)
      [] e.op = "coef" -> Ck("coefficient_lookup", FromJson(e.res) = VCoef(Reg(e, "a"), Canon(e.mu)))
      [] e.op = "expand" ->
                IF ~PWellFormed(e.res) THEN "expansion_malformed"
                ELSE Ck("expansion_in_variables", FromJson(e.res) = SExpand(e.n, Reg(e, "a"), e.sg))
      [] e.op = "m_expand" -> Ck("monomial_expansion", FromJson(e.res) = MExpand(e.n, Canon(e.mu), e.sg))
      (* the ordinary product of two expansions is the expansion of the product *)
      [] e.op = "expmul" -> Ck("product_of_expansions",
                FromJson(e.res) = PMul(SExpand(e.n, Reg(e, "a"), e.sg), SExpand(e.n, Reg(e, "b"), e.sg)))
      [] e.op = "hash" ->
            LET p == Reg(e, "a") IN
            Ck("equal_values_hash_differently", \A s \in seen : s[1] = p => s[2] = e.res[1])
      (* printed with the same printer, values and printed forms determine each other *)
      [] e.op = "show" ->
            LET p == Reg(e, "a") IN
            Ck("printed_form", \A s \in seen : s[3] = e.res[2] => ((s[1] = p) <=> (s[4] = e.res[3])))
QueryOps == {"eq", "eqint", "m_eq", "m_info", "coef", "expand", "m_expand", "expmul", "hash", "show", "m_cmp", "m_less"}

OpVerdict(e) ==
    IF e.exc # "" THEN "raised"
    ELSE IF e.op \in SymOps THEN
        LET post == IF e.dst = 0 THEN regs ELSE [regs EXCEPT ![e.dst] = VFromJson(e.res)]
        IN IF ~VWellFormed(e.res) THEN "zero_coefficient_kept"
           ELSE IF \E i \in DOMAIN e.res : ~(IsPartition(e.res[i][1]) /\ Len(e.res[i][1]) <= e.n) THEN "key_is_not_a_partition"
           ELSE IF VFromJson(e.res) # Expected(e) THEN "wrong_result_" \o e.op
           ELSE Ck("operand_changed_by_" \o e.op, ObsRegs(e) = post)
    ELSE IF e.op \in QueryOps THEN
        LET q == QueryVerdict(e) IN IF q # "" THEN q ELSE Ck("operand_changed_by_" \o e.op, ObsRegs(e) = regs)
    ELSE "unknown_event"

Init == l = 1 /\ regs = [r \in 1..NR |-> VZero] /\ seen = {}
Session == /\ Trace[l].op = "session" /\ regs' = [r \in 1..NR |-> VZero] /\ seen' = {}
Operation == /\ Trace[l].op # "session"
             /\ LET e == Trace[l] IN
                /\ Report(l, OpVerdict(e))
                /\ regs' = ObsRegs(e)
                /\ seen' = IF e.op \in {"hash", "show"} /\ e.exc = "" THEN seen \cup {<<Reg(e, "a"), e.res[1], e.res[2], e.res[3]>>} ELSE seen
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Session \/ Operation)
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
