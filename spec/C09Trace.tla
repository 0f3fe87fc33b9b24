------------------------------ MODULE C09Trace ------------------------------
EXTENDS Layers, TraceBase
VARIABLES l
OptOf(e) == [sh |-> e.sh, marked |-> e.marked, setv |-> e.setv, diag |-> e.diag, rpp |-> e.rpp, grp |-> FALSE]
(* the filling respects alphabet, rows and columns *)
IsFilling(opt, M, B, L, U, p) ==
    \A k \in 1..Len(B) : /\ p[k] # {} /\ p[k] \subseteq Alphabet(opt, M, B[k]) /\ (~opt.setv => Cardinality(p[k]) = 1)
                          /\ (L[k] # 0 => RowOk(opt, p[L[k]], p[k])) /\ (U[k] # 0 => ColOk(opt, p[U[k]], p[k]))
GenVerdict(e) ==
    LET B == Boxes(e.mu, e.nu, e.sh) IN
    IF ~NoDup(e.res) THEN "listed_twice"
    ELSE IF \E k \in 1..Len(e.res) : ~NoRepeat(e.res[k]) THEN "repeated_entry_in_a_box"
    ELSE IF \E k \in 1..Len(e.res) : TabBoxes(e.res[k]) # B THEN "wrong_shape"
    ELSE IF Len(B) > 3 \/ e.max > 3 THEN
        LET opt == OptOf(e)
            L == TLCEval([k \in 1..Len(B) |-> At(B, <<B[k][1], B[k][2] - 1>>)])
            U == TLCEval([k \in 1..Len(B) |-> At(B, <<B[k][1] - 1, B[k][2]>>)])
        IN IF \E k \in 1..Len(e.res) : ~IsFilling(opt, e.max, B, L, U, TLCEval(TabFill(e.res[k]))) THEN "not_a_tableau_of_the_kind"
           ELSE Ck("tableaux_missing", Len(e.res) = LayerCount(opt, e.max, e.mu, e.nu))
    ELSE LET got == {TabFill(e.res[k]) : k \in 1..Len(e.res)} exp == Fillings(OptOf(e), e.max, e.mu, e.nu)
         IN IF got = exp THEN "" ELSE IF got \subseteq exp THEN "tableaux_missing" ELSE "not_a_tableau_of_the_kind"
(* standard tableaux: entries 1..n once each, increasing in both directions in absolute value *)
StdVerdict(e) ==
    LET B == Boxes(e.mu, e.nu, e.sh) n == Len(B)
        Pos1(t, v) == CHOOSE k \in 1..n : AbsV(t[k][3][1]) = v
        Good(t) == /\ TabBoxes(t) = B /\ \A k \in 1..n : Len(t[k][3]) = 1
                   /\ {AbsV(t[k][3][1]) : k \in 1..n} = 1..n
                   /\ \A k \in 1..n : /\ (t[k][3][1] < 0 => e.marked /\ (e.diag = "noprime" => B[k][1] # B[k][2]))
                                      /\ LET r == At(B, <<B[k][1], B[k][2] + 1>>) d == At(B, <<B[k][1] + 1, B[k][2]>>)
                                         IN /\ (r # 0 => AbsV(t[k][3][1]) < AbsV(t[r][3][1]))
                                            /\ (d # 0 => AbsV(t[k][3][1]) < AbsV(t[d][3][1]))
        signs == IF ~e.marked THEN 0 ELSE Cardinality({k \in 1..n : e.diag = "any" \/ B[k][1] # B[k][2]})
        total == IF ~ContainsP(e.mu, e.nu) THEN 0 ELSE Cardinality(StdFrom(e.mu, e.nu, e.sh, 0)) * 2^signs
    IN IF ~NoDup(e.res) THEN "listed_twice"
       ELSE IF \E k \in 1..Len(e.res) : ~Good(e.res[k]) THEN "not_a_standard_tableau"
       ELSE Ck("tableaux_missing", Len(e.res) = total)
OpVerdict(e) ==
    IF e.exc # "" THEN "raised_in_" \o e.op
    ELSE CASE e.op = "gen" -> GenVerdict(e)
           [] e.op = "std" -> StdVerdict(e)
           [] e.op = "session" -> ""
           [] OTHER -> "unknown_event"
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, OpVerdict(Trace[l])) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
