------------------------------ MODULE C03Trace ------------------------------
(* Trace specification of signed permutation arithmetic: registers hold      *)
(* elements; every event carries all registers after the call.               *)
EXTENDS Perms, TraceBase
VARIABLES l, regs, seen
vars == <<l, regs, seen>>
NR == 4
Reg(e, f) == regs[e[f]]
RECURSIVE CycleOf(_, _, _)
CycleOf(w, start, acc) == LET nx == Act(w, acc[Len(acc)]) IN IF nx = start THEN acc ELSE CycleOf(w, start, Append(acc, nx))
CycleProduct(a) == FoldLeft(LAMBDA acc, i : Mul(acc, Transp(a[i], a[i + 1])), Id, [i \in 1..(Len(a) - 1) |-> i])

(* printed forms: one-line words, and products of cycles, each from its least element, in increasing order of those *)
LOCAL WD == INSTANCE Words
ShowOneLine(w) == WD!JoinWith([i \in 1..Len(w) |-> ToString(w[i])], IF Len(w) > 9 THEN "," ELSE "")
CycleMins(w) == {i \in 1..Len(w) : w[i] # i /\ \A j \in SetOf(CycleOf(w, i, <<i>>)) : i <= j}
ShowCycles(w) == IF w = Id THEN "1"
    ELSE WD!Join([k \in 1..Len(w) |-> IF k \in CycleMins(w) THEN LET c == CycleOf(w, k, <<k>>) IN "(" \o WD!JoinWith([i \in 1..Len(c) |-> ToString(c[i])], ", ") \o ")" ELSE ""])
ShowTex(w) == "$" \o WD!JoinWith([i \in 1..Len(w) |-> IF w[i] > 0 THEN ToString(w[i]) ELSE "\\bar" \o ToString(-w[i])], "\\hs ") \o "$"

Expected(e) ==
    CASE e.op = "make"    -> TrimW(e.val)
      [] e.op = "ident"   -> Id
      [] e.op = "gen"     -> Gen(e.i)
      [] e.op = "transp"  -> Transp(e.i, e.j)
      [] e.op = "negtransp" -> NegTransp(e.i, e.j)
      [] e.op = "cycle"   -> CycleProduct(e.word)
      [] e.op = "w0"      -> IF e.signed THEN [i \in 1..e.n |-> -i] ELSE W0(e.n)
      [] e.op = "minfpf"  -> MinFpf(e.n)
      [] e.op = "word"    -> Word(e.word)
      [] e.op = "mul"     -> Mul(Reg(e, "a"), Reg(e, "b"))
      [] e.op = "dem"     -> Dem(Reg(e, "a"), Reg(e, "b"))
      [] e.op = "inv"     -> Inv(Reg(e, "a"))
      [] e.op = "pow"     -> PowW(Reg(e, "a"), e.k)
      [] e.op = "star"    -> LET n == Len(Reg(e, "a")) IN Mul(W0(n), Mul(Reg(e, "a"), W0(n)))
      [] e.op = "gstep"   -> Step(Reg(e, "a"), e.i)
      [] e.op = "hstep"   -> HStep(Reg(e, "a"), e.i)
EltOps == {"make", "ident", "gen", "transp", "negtransp", "cycle", "w0", "minfpf", "word", "mul", "dem", "inv", "pow", "star",
           "gstep", "hstep"}
BPairs(w) == {<<a, Act(w, a)>> : a \in {x \in (-Len(w))..Len(w) : x # 0 /\ AbsV(x) < Act(w, x)}}
SetList(s) == SetOf(s)
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Cardinality({j \in 1..Len(s) : s[j] = s[i]}) = Cardinality({j \in 1..Len(t) : t[j] = s[i]})
QueryVerdict(e) ==
    LET w == Reg(e, "a") IN
    CASE e.op = "eq" -> Ck("equality", e.res = <<w = Reg(e, "b"), w # Reg(e, "b")>>)
      [] e.op = "hash" -> IF \E s \in seen : s[1] = w /\ s[2] # e.res[1] THEN "equal_elements_hash_differently"
                          ELSE Ck("repr_not_faithful", \A s \in seen : (s[1] = w) <=> (s[3] = e.res[2]))
      [] e.op = "lens" -> Ck("length", e.res = <<Length(w), Length(w), Len(w)>>)
      [] e.op = "invlen" -> Ck("involution_length", e.res = InvLength(w))
      [] e.op = "fpflen" -> Ck("fpf_involution_length", e.res = FpfLength(w))
      [] e.op = "desc" -> Ck("descents", NoDup(e.res[1]) /\ NoDup(e.res[2]) /\ SetOf(e.res[1]) = RDes(w) /\ SetOf(e.res[2]) = LDes(w))
      [] e.op = "lastdesc" -> Ck("last_descent", e.res = MaxSet(RDes(w) \ {0}, 0))
      [] e.op = "act" -> Ck("action", e.res = [k \in 1..Len(e.pts) |-> Act(w, e.pts[k])])
      [] e.op = "flags" -> Ck("predicates", e.res = <<w = Id, Pos(w), IsInv(w), IsFpf(w),
                              Cardinality({i \in 1..Len(w) : w[i] < 0}) % 2 = 0>>)
      [] e.op = "cycles" -> Ck("cycles",
                /\ NoDup(e.res)
                /\ \A c \in SetOf(e.res) : c # <<>> /\ c[1] \in 1..Len(w) /\ c = CycleOf(w, c[1], <<c[1]>>)
                /\ SumOver(SetOf(e.res), LAMBDA c : Len(c)) = Len(w)
                /\ UNION {SetOf(c) : c \in SetOf(e.res)} = 1..Len(w))
      [] e.op = "parts" -> Ck("pairs_and_fixed_points",
                /\ \A k \in 1..4 : NoDup(e.res[k])
                /\ SetOf(e.res[1]) = BPairs(w)
                /\ SetOf(e.res[2]) = {<<-i, -i>> : i \in {x \in 1..Len(w) : w[x] = -x}}
                /\ SetOf(e.res[3]) = {<<i, i>> : i \in {x \in 1..Len(w) : w[x] = x}}
                /\ SetOf(e.res[4]) = SetOf(e.res[1]) \cup SetOf(e.res[2]) \cup SetOf(e.res[3]))
      [] e.op = "tab" -> (* the action on a tableau moves every entry and no box, and leaves the operand alone *)
            Ck("action_on_a_tableau", /\ e.res[2] = e.t
                                      /\ Len(e.res[1]) = Len(e.t)
                                      /\ \A k \in 1..Len(e.t) : LET x == e.t[k] y == e.res[1][k] IN
                                           x[1] = y[1] /\ x[2] = y[2] /\ SameBag(y[3], [i \in 1..Len(x[3]) |-> Act(w, x[3][i])]))
      [] e.op = "show" -> Ck("printed_form", e.res[1] = (IF Pos(w) THEN ShowCycles(w) ELSE ShowOneLine(w)) /\ e.res[2] = ShowOneLine(w) /\ (w = Id \/ e.res[3] = ShowTex(w)))
      [] e.op = "redword" -> Ck("reduced_word", Word(e.res) = w /\ Len(e.res) = Length(w))
      [] e.op = "lt" -> Ck("order_not_strict", ~(e.res[1] /\ e.res[2]) /\ ((e.res[1] \/ e.res[2]) <=> (w # Reg(e, "b"))))
QueryOps == {"eq", "hash", "lens", "invlen", "fpflen", "desc", "lastdesc", "act", "flags", "cycles", "parts", "redword", "lt", "tab", "show"}

OpVerdict(e) ==
    IF e.exc # "" THEN "raised_in_" \o e.op
    ELSE IF e.op \in EltOps THEN
        LET post == IF e.dst = 0 THEN regs ELSE [regs EXCEPT ![e.dst] = e.res]
        IN IF ~IsElt(e.res) THEN "not_a_signed_permutation"
           ELSE IF e.res # Expected(e) THEN "wrong_result_" \o e.op
           ELSE Ck("operand_changed_by_" \o e.op, e.regs = post)
    ELSE IF e.op \in QueryOps THEN
        LET q == QueryVerdict(e) IN IF q # "" THEN q ELSE Ck("operand_changed_by_" \o e.op, e.regs = regs)
    ELSE "unknown_event"

Init == l = 1 /\ regs = [r \in 1..NR |-> Id] /\ seen = {}
Session == Trace[l].op = "session" /\ regs' = [r \in 1..NR |-> Id] /\ seen' = {}
Operation == /\ Trace[l].op # "session"
             /\ LET e == Trace[l] IN
                /\ Report(l, OpVerdict(e))
                /\ regs' = e.regs
                /\ seen' = IF e.op = "hash" /\ e.exc = "" THEN seen \cup {<<Reg(e, "a"), e.res[1], e.res[2]>>} ELSE seen
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Session \/ Operation)
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
