------------------------------ MODULE C24Trace ------------------------------
(* Recorded calls of unprime_diagonal and of the column insertions it makes. *)
EXTENDS Unprime, TraceBase
VARIABLES l
SortR(s) == SortSeq(s, LAMBDA a, b : a < b)
Ranks(s) == SortR([k \in 1..Len(s) |-> Rank(s[k])])
TabR(js) == [b \in {<<js[k][1], js[k][2]>> : k \in 1..Len(js)} |-> LET k == CHOOSE x \in 1..Len(js) : <<js[x][1], js[x][2]>> = b IN Ranks(js[k][3])]
Readable(js) == /\ \A k \in 1..Len(js) : js[k][1] > 0 /\ js[k][2] > 0 /\ Len(js[k][3]) > 0 /\ \A m \in 1..Len(js[k][3]) : js[k][3][m] # 0
                /\ Cardinality({<<js[k][1], js[k][2]>> : k \in 1..Len(js)}) = Len(js)
Letters(t) == UNION {{AbsOf(t[b][k]) : k \in 1..Len(t[b])} : b \in DOMAIN t}
First(cs) == LET bad == SelectSeq(cs, LAMBDA c : ~c[2]) IN IF bad = <<>> THEN "" ELSE bad[1][1]

UnprimeVerdict(e) ==
    IF ~Readable(e.res[1]) THEN "not_a_tableau"
    ELSE IF TabR(e.res[2]) # TabR(e.t) THEN "argument_changed"
    ELSE LET t == TLCEval(TabR(e.t))
             u == TLCEval(TabR(e.res[1]))
             m == TLCEval(UnprimeOf(t))
         IN IF \E k \in Letters(t) \cup Letters(u) : SetWeight(t, k) # SetWeight(u, k) THEN "weight_changed"
            ELSE IF ~IsShifted(u) \/ ~Grows(t, u) THEN "not_the_same_rows_extended"
            ELSE IF ~SemiStd(u) THEN "not_semistandard"
            ELSE IF ~DiagTame(u) THEN "primes_left_on_the_diagonal"
            ELSE IF DiagTame(t) /\ u # t THEN "tame_tableau_moved"
            (* the column rule itself, wherever it stays inside set-valued tableaux *)
            ELSE IF IsSetValued(m) /\ GrowsByStrip(t, m) THEN Ck("not_the_column_insertion", u = m)
            ELSE ""
ColumnVerdict(e) ==
    IF ~Readable(e.res[1]) THEN "not_a_tableau"
    ELSE LET r == ColumnInsert(TabR(e.t), Ranks(e.s), e.c)
         IN IF ~IsSetValued(r[1]) \/ ~Increasing(r[2]) THEN "" ELSE
            IF TabR(e.res[1]) # r[1] THEN "column_after_insertion" ELSE Ck("letters_pushed_out", Ranks(e.res[2]) = r[2])
(* with entries up to 2 the map is injective into set-valued tableaux and adds at most one box to a row *)
ImagesVerdict(e) ==
    LET R == [k \in 1..Len(e.res) |-> TabR(e.res[k])]
    IN IF \E k \in 1..Len(R) : ~IsSetValued(R[k]) THEN "letter_repeated_in_a_box"
       ELSE IF Cardinality({R[k] : k \in 1..Len(R)}) # Len(R) THEN "two_tableaux_with_one_image"
       ELSE ""
ProbeVerdict(e) ==
    IF \E k \in 1..Len(e.res) : ~Readable(e.res[k]) THEN "not_a_tableau"
    ELSE LET R == [k \in 1..Len(e.res) |-> TabR(e.res[k])] IN
         IF \E k \in 1..Len(R) : ~IsSetValued(R[k]) THEN "letter_repeated_in_a_box"
         ELSE IF \E k \in 1..Len(R) : ~GrowsByStrip(TabR(e.ts[k]), R[k]) THEN "row_grows_by_more_than_one_box"
         ELSE Ck("two_tableaux_with_one_image", Cardinality({R[k] : k \in 1..Len(R)}) = Len(R))
OpVerdict(e) ==
    IF e.exc # "" THEN "raised_in_" \o e.op
    ELSE CASE e.op = "unprime" -> UnprimeVerdict(e)
           [] e.op = "column" -> ColumnVerdict(e)
           [] e.op = "images" -> ImagesVerdict(e)
           [] e.op = "probe" -> ProbeVerdict(e)
           [] e.op = "session" -> ""
           [] OTHER -> "unknown_event"
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, OpVerdict(Trace[l])) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
