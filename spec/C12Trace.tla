------------------------------ MODULE C12Trace ------------------------------
(* Trace specification of basis expansions.  A basis name is a family of     *)
(* SymFun, with the prefix "n" for the variant with -beta, "omega" for Schur *)
(* functions of transposed shapes and "free" for products of one-row gp's.   *)
(* The functions already computed are kept in TLC register 10.               *)
EXTENDS SymFun, TraceBase
VARIABLES l
Memo(key, f) == IF key \in DOMAIN TLCGet(10) THEN TLCGet(10)[key]
                ELSE LET v == TLCEval(f) IN IF TLCSet(10, TLCGet(10) @@ (key :> v)) THEN v ELSE v
Negated == [nG |-> "G", nGP |-> "GP", nGQ |-> "GQ", ng |-> "g", ngp |-> "gp", ngq |-> "gq"]
Elem(B, n, mu) ==
    IF B = "omega" THEN Memo(<<"s", n, Transpose(mu)>>, Fun("s", n, Transpose(mu), <<>>))
    ELSE IF B = "free" THEN Memo(<<B, n, mu>>, FoldLeft(LAMBDA acc, a : SMul(n, acc, Fun("gp", n, <<a>>, <<>>)), SOne, mu))
    ELSE IF B \in DOMAIN Negated THEN Memo(<<B, n, mu>>, NegFun(Negated[B], n, mu, <<>>))
    ELSE Memo(<<B, n, mu>>, Fun(B, n, mu, <<>>))
StrictB(B) == B \in {"P", "Q", "GP", "GQ", "gp", "gq", "jp", "jq", "nGP", "nGQ", "ngp", "ngq"}
Combo(B, n, v) == FoldSet(LAMBDA mu, acc : VAdd(acc, VScale(Elem(B, n, mu), v[mu])), VZero, DOMAIN v)
KeyOk(B, mu) == IF StrictB(B) THEN IsStrict(mu) ELSE IsPartition(mu)
ExpandVerdict(e) ==
    IF ~VWellFormed(e.res) THEN "malformed_expansion"
    ELSE IF \E i \in DOMAIN e.res : ~KeyOk(e.basis, e.res[i][1]) THEN "key_is_not_an_index_of_the_basis"
    ELSE IF e.exact /\ VFromJson(e.res) # VFromJson(e.terms) THEN "coefficients_of_a_known_combination_not_recovered"
    ELSE Ck("expansion_does_not_reconstruct", Combo(e.basis, e.n, VFromJson(e.res)) = VFromJson(e.f))
OpVerdict(e) ==
    IF e.op = "session" THEN ""
    ELSE IF e.exc # "" THEN "raised_in_" \o e.op
    ELSE CASE e.op = "combo" -> Ck("wrong_combination", VWellFormed(e.res) /\ VFromJson(e.res) = Combo(e.basis, e.n, VFromJson(e.terms)))
           [] e.op = "expand" -> ExpandVerdict(e)
           (* an expansion that is not promised: a returned one must reconstruct *)
           [] e.op = "operands" -> Ck("operand_changed_by_expansion", VFromJson(e.res) = VFromJson(e.f))
           [] OTHER -> "unknown_event"
Init == l = 1 /\ TLCSet(10, <<>>)
Next == l <= Len(Trace) /\ Report(l, OpVerdict(Trace[l])) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
