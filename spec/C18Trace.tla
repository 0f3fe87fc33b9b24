------------------------------ MODULE C18Trace ------------------------------
(* KOG and KLG tableaux, their counts, and the Pieri rules they give.         *)
EXTENDS Ribbons, TraceBase
VARIABLES l
Cells(t) == {<<t[k][1], t[k][2], t[k][3][1]>> : k \in 1..Len(t)}
PlainTabs(ts) == \A i \in 1..Len(ts) : \A k \in 1..Len(ts[i]) : Len(ts[i][k][3]) = 1
Listing(ts, S) == IF ~PlainTabs(ts) THEN "several_entries_in_a_box"
                  ELSE IF Cardinality({Cells(ts[i]) : i \in 1..Len(ts)}) # Len(ts) THEN "listed_twice"
                  ELSE LET G == {Cells(ts[i]) : i \in 1..Len(ts)} IN
                       IF G = S THEN "" ELSE IF G \subseteq S THEN "missing" ELSE "not_in_set"
AllTabs(e) == UNION {TabsOf(e.kind, e.p, nu, e.mu) : nu \in Reach(e.kind, e.p, e.mu)}
(* pairs <<nu, value>> as a function *)
Keys(ps) == {ps[i][1] : i \in 1..Len(ps)}
ValueAt(ps, k) == ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2]
ByShapeVerdict(e) ==
    LET S == TLCEval([nu \in Reach(e.kind, e.p, e.mu) |-> TabsOf(e.kind, e.p, nu, e.mu)]) IN
    IF ~NoDup([i \in 1..Len(e.res) |-> e.res[i][1]]) THEN "shape_listed_twice"
    ELSE IF Keys(e.res) # {nu \in DOMAIN S : S[nu] # {}} THEN "shapes"
    ELSE LET bad == {i \in 1..Len(e.res) : Listing(e.res[i][2], S[e.res[i][1]]) # ""} IN
         IF bad = {} THEN "" ELSE "by_shape_" \o Listing(e.res[CHOOSE i \in bad : TRUE][2], S[e.res[CHOOSE i \in bad : TRUE][1]])
CountsVerdict(e) ==
    LET S == TLCEval([nu \in Reach(e.kind, e.p, e.mu) |-> CountOf(e.kind, e.p, nu, e.mu)]) IN
    IF ~NoDup([i \in 1..Len(e.res) |-> e.res[i][1]]) THEN "shape_listed_twice"
    ELSE IF Keys(e.res) # {nu \in DOMAIN S : S[nu] # 0} THEN "counted_shapes"
    ELSE Ck("counts_by_shape", \A i \in 1..Len(e.res) : e.res[i][2] = S[e.res[i][1]])
VectorVerdict(js, v) == IF ~VWellFormed(js) THEN "malformed_vector" ELSE Ck("product_differs_from_tableau_count", VFromJson(js) = v)
CopieriVerdict(e) ==
    LET S == CopieriTabs(e.nu, e.lam, e.dp)
        got(i) == {{<<t[k][1], t[k][2], SetOf(t[k][3])>> : k \in 1..Len(t)} : t \in SetOf(e.res[i][2])}
    IN IF ~NoDup([i \in 1..Len(e.res) |-> e.res[i][1]]) THEN "number_of_letters_listed_twice"
       ELSE IF Keys(e.res) # {x[1] : x \in S} THEN "numbers_of_letters"
       ELSE IF \E i \in 1..Len(e.res) : got(i) # {x[2] : x \in {y \in S : y[1] = e.res[i][1]}} THEN "one_letter_tableaux"
       ELSE Ck("one_letter_tableaux_listed_twice", \A i \in 1..Len(e.res) : Cardinality(got(i)) = Len(e.res[i][2]))
OpVerdict(e) ==
    IF e.op = "session" THEN ""
    ELSE IF e.exc # "" THEN "raised_in_" \o e.op
    ELSE CASE e.op = "tabs" -> Listing(e.res, AllTabs(e))
           [] e.op = "byshape" -> ByShapeVerdict(e)
           [] e.op = "countsby" -> CountsVerdict(e)
           [] e.op = "count" -> Ck("count", e.res = CountOf(e.kind, e.p, e.nu, e.mu))
           [] e.op = "pieri" -> VectorVerdict(e.res, PieriVector(e.fam, e.mu, e.p))
           [] e.op = "dualpieri" -> VectorVerdict(e.res, DualPieriVector(e.fam, e.lam, e.r))
           [] e.op = "copieri" -> CopieriVerdict(e)
           [] e.op = "terminal" -> Ck("terminal_part", e.res = Terminal(e.rim))
           [] OTHER -> "unknown_event"
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, OpVerdict(Trace[l])) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
