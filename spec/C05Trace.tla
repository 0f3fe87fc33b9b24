------------------------------ MODULE C05Trace ------------------------------
EXTENDS Codes, TraceBase
VARIABLES l
StairParts(n, step, strict) == IF strict THEN BetweenStrict(Stair(n, step), <<>>) ELSE Between(Stair(n, step), <<>>)
ExpGen(e) ==
    CASE e.which = "all" -> Sym(e.n)
      [] e.which = "all_signed" -> Hyp(e.n)
      [] e.which = "inv" -> Invols(e.n)
      [] e.which = "inv_signed" -> SInvols(e.n)
      [] e.which = "fpf" -> {TrimW(w) : w \in Fpfs(e.n)}
      [] e.which = "gr" -> {Gr(mu) : mu \in StairParts(e.n, 1, FALSE)}
      [] e.which = "invgr" -> {InvGr(mu) : mu \in StairParts(e.n, 2, TRUE)}
      [] e.which = "fpfgr" -> {FpfGr(mu) : mu \in StairParts(e.n - 1, 2, TRUE)}
(* larger ranks: membership and count only *)
MemGen(e, w) ==
    CASE e.which = "all" -> Pos(w) [] e.which = "all_signed" -> TRUE
      [] e.which = "inv" -> Pos(w) /\ IsInv(w) [] e.which = "inv_signed" -> IsInv(w)
      [] e.which = "fpf" -> Pos(w) /\ IsFpf(w) /\ Len(w) = e.n
RECURSIVE Fact(_)
Fact(n) == IF n <= 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE NInv(_), NSInv(_), NFpf(_)
NInv(n) == IF n <= 1 THEN 1 ELSE NInv(n - 1) + (n - 1) * NInv(n - 2)
NSInv(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 2 ELSE 2 * NSInv(n - 1) + 2 * (n - 1) * NSInv(n - 2)
NFpf(n) == IF n = 0 THEN 1 ELSE IF n % 2 = 1 THEN 0 ELSE (n - 1) * NFpf(n - 2)
Count(e) == CASE e.which = "all" -> Fact(e.n) [] e.which = "all_signed" -> Fact(e.n) * 2^e.n
              [] e.which = "inv" -> NInv(e.n) [] e.which = "inv_signed" -> NSInv(e.n) [] e.which = "fpf" -> NFpf(e.n)
GenVerdict(e) ==
    IF ~NoDup(e.res) THEN "listed_twice"
    ELSE IF \E w \in SetOf(e.res) : ~IsElt(w) \/ Len(w) > 2 * e.n THEN "not_an_element"
    ELSE IF e.which \in {"gr", "invgr", "fpfgr"} \/ e.n <= 4 THEN Ck("wrong_elements_" \o e.which, SetOf(e.res) = ExpGen(e))
    ELSE IF \E w \in SetOf(e.res) : Len(w) > e.n \/ ~MemGen(e, w) THEN "wrong_elements_" \o e.which
    ELSE Ck("elements_missing_" \o e.which, Len(e.res) = Count(e))
(* a printed diagram: a star at every box, the separator elsewhere *)
PicOk(D, sep, french, lines) ==
    IF D = {} THEN lines = <<>>
    ELSE LET R == MaxSet({b[1] : b \in D}, 0) C == MaxSet({b[2] : b \in D}, 0)
         IN /\ Len(lines) = R
            /\ \A i \in 1..R : Len(lines[i]) = C /\
                \A j \in 1..C : lines[IF french THEN R + 1 - i ELSE i][j] = (IF <<i, j>> \in D THEN "*" ELSE sep)
EltVerdict(e) ==
    LET w == e.w IN
    CASE e.op = "code" -> Ck("code", e.res = Code(w))
      [] e.op = "icode" -> Ck("involution_code", e.res = InvCode(w))
      [] e.op = "fcode" -> Ck("fpf_involution_code", e.res = FpfCode(w))
      [] e.op = "rothe" -> Ck("rothe_diagram", NoDup(e.res) /\ SetOf(e.res) = Rothe(w))
      [] e.op = "irothe" -> Ck("involution_rothe_diagram", NoDup(e.res) /\ SetOf(e.res) = InvRothe(w))
      [] e.op = "frothe" -> Ck("fpf_rothe_diagram", NoDup(e.res) /\ SetOf(e.res) = FpfRothe(w))
      [] e.op = "shape" -> Ck("shape", e.res = Shape(w))
      [] e.op = "ishape" -> Ck("involution_shape", e.res = InvShape(w))
      [] e.op = "fshape" -> Ck("fpf_involution_shape", e.res = FpfShape(w))
      [] e.op = "isgr" -> Ck("is_grassmannian", e.res = IsGr(w))
      [] e.op = "isinvgr" -> Ck("is_inv_grassmannian", e.res = IsInvGr(w))
      [] e.op = "isfpfgr" -> Ck("is_fpf_grassmannian", e.res = IsFpfGr(w))
      [] e.op = "getgr" -> Ck("get_grassmannian", e.res = Gr(e.mu))
      [] e.op = "getinvgr" -> Ck("get_inv_grassmannian", e.res = InvGr(e.mu))
      [] e.op = "getfpfgr" -> Ck("get_fpf_grassmannian", e.res = FpfGr(e.mu))
      [] e.op = "pic" -> Ck("printed_diagram", PicOk(SetOf(e.boxes), e.sep, e.french, e.res))
      [] e.op = "print" -> Ck("printed_rothe_diagram",
                PicOk(CASE e.which = "rothe" -> Rothe(w) [] e.which = "inv" -> InvRothe(w) [] OTHER -> FpfRothe(w), e.sep, e.french, e.res))
      [] e.op = "gen" -> GenVerdict(e)
      [] e.op = "session" -> ""
      [] OTHER -> "unknown_event"
OpVerdict(e) == IF e.exc # "" THEN "raised_in_" \o e.op ELSE EltVerdict(e)
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, OpVerdict(Trace[l])) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
