------------------------------ MODULE C21Trace ------------------------------
(* Trace specification of tableau values: registers hold tableaux, every     *)
(* event carries all registers after the call, so that an operation that     *)
(* changes an existing tableau is rejected.                                  *)
EXTENDS TabApi, TraceBase
VARIABLES l, regs, seen
vars == <<l, regs, seen>>
NR == 3
Reg(e, f) == regs[e[f]]
B(e) == <<e.i, e.j>>
Arith(e, v) == CASE e.f = "double" -> 2 * v [] e.f = "halve" -> v \div 2 [] e.f = "neg" -> -v [] e.f = "rev" -> 9 - v
Lo(x) == IF x = 0 THEN 0 ELSE x
Hi(x) == IF x = 0 THEN 100000 ELSE x
Expected(e) ==
    CASE e.op = "load" -> TFromJson(e.val)
      [] e.op = "add" -> TAdd(Reg(e, "a"), B(e), e.v)
      [] e.op = "remove" -> TRemove(Reg(e, "a"), B(e), e.v)
      [] e.op = "clear" -> TClear(Reg(e, "a"), B(e))
      [] e.op = "set" -> TSet(Reg(e, "a"), B(e), e.s)
      [] e.op = "transpose" -> TTranspose(Reg(e, "a"))
      [] e.op = "apply" -> TApply(Reg(e, "a"), LAMBDA v : Arith(e, v))
      [] e.op = "negate" -> TNegate(Reg(e, "a"), e.skip)
      [] e.op = "row" -> TRow(Reg(e, "a"), e.i, Lo(e.after), Hi(e.before))
      [] e.op = "col" -> TCol(Reg(e, "a"), e.i, Lo(e.after), Hi(e.before))
      [] e.op = "fromrow" -> FromRowWord(e.w)
      [] e.op = "standardize" -> TStandardize(Reg(e, "a"))
      [] e.op = "reload" -> Reg(e, "a")
TabOps == {"load", "add", "remove", "clear", "set", "transpose", "apply", "negate", "row", "col", "fromrow", "standardize", "reload"}

(* pop: <<row, column, entries of the box>> and the rest *)
PopVerdict(e) == LET t == Reg(e, "a") n == TMaxAbs(t) v == IF n \in TValues(t) THEN n ELSE -n b == BoxOf(t, v) IN
    IF <<e.res.rec[1], e.res.rec[2]>> # b \/ e.res.rec[3] # t[b] THEN "pop_record"
    ELSE Ck("pop_rest", TFromJson(e.res.rest) = (IF Len(t[b]) = 1 THEN TClear(t, b) ELSE TSet(t, b, SelectSeq(t[b], LAMBDA x : AbsV(x) # n))))

MaxOr(S) == IF S = {} THEN <<>> ELSE <<MaxSet(S, 0)>>
BoxVerdict(e) == LET t == Reg(e, "a") r == e.res b == B(e) IN
    IF r.has # (b \in DOMAIN t) \/ r.has2 # r.has THEN "contains_box"
    ELSE IF r.get # (IF b \in DOMAIN t THEN t[b] ELSE <<>>) THEN "get"
    ELSE IF r.find # SelectSeq(ByRow(t), LAMBDA c : e.v \in SetOf(t[c])) THEN "find"
    ELSE IF r.lastrow # MaxOr({c[2] : c \in {x \in DOMAIN t : x[1] = e.i}}) THEN "last_box_in_row"
    ELSE IF r.lastcol # MaxOr({c[1] : c \in {x \in DOMAIN t : x[2] = e.j}}) THEN "last_box_in_column"
    ELSE IF r.maxrow # <<TMaxRow(t), MaxSet({c[1] : c \in {x \in DOMAIN t : x[2] = e.j}}, 0)>> THEN "max_row"
    ELSE Ck("max_column", r.maxcol = <<TMaxCol(t), MaxSet({c[2] : c \in {x \in DOMAIN t : x[1] = e.i}}, 0)>>)
CountVerdict(e) == LET t == Reg(e, "a") r == e.res IN
    IF r.size # Cardinality(DOMAIN t) \/ r.len # NumEntries(t) \/ r.bool # (DOMAIN t # {}) THEN "size"
    ELSE IF r.abssum # SumOver(DOMAIN t, LAMBDA b : SumOver(1..Len(t[b]), LAMBDA k : AbsV(t[b][k]))) THEN "abs_sum"
    ELSE IF SetOf(r.values) # TValues(t) THEN "values"
    ELSE IF r.shape # TShape(t) THEN "shape"
    ELSE IF r.excess # NumEntries(t) - Cardinality(DOMAIN t) THEN "setvalued_excess"
    ELSE IF SetOf(r.counter) # {<<v, Mult(t, v)>> : v \in TValues(t)} THEN "counter"
    ELSE IF r.weight # TWeight(t, TMaxAbs(t)) THEN "weight"
    ELSE IF r.weightn # TWeight(t, e.n) THEN "weight_of_given_length"
    ELSE IF Len(r.last) = 1 /\ r.last # <<IF TValues(t) = {} THEN 0 ELSE IF TMaxAbs(t) \in TValues(t) THEN TMaxAbs(t) ELSE -TMaxAbs(t)>> THEN "last"
    ELSE Ck("iteration", r.iter = [k \in 1..Len(ByRow(t)) |-> <<ByRow(t)[k][1], ByRow(t)[k][2], t[ByRow(t)[k]]>>])
WordVerdict(e) == LET t == Reg(e, "a") r == e.res IN
    IF r.row # RowWord(t) THEN "row_reading_word"
    ELSE IF r.col # ColWord(t) THEN "column_reading_word"
    ELSE IF r.shifted # ShiftedWord(t) THEN "shifted_reading_word"
    ELSE Ck("crystal_reading_word", r.crystal = CrystalWord(t))
Unp(t) == \A v \in TValues(t) : v > 0
IsStraight(t) == LET mu == TShape(t) IN IsPartition(mu) /\ DOMAIN t = Diagram(mu, FALSE)
StrictColumnsSv(t) == TSemistandard(t, TRUE) /\ Unp(t) /\ IsStraight(t) /\ (\A b \in DOMAIN t : Cardinality(SetOf(t[b])) = Len(t[b]))
(* reading and writing back *)
RoundVerdict(e) == LET t == Reg(e, "a") IN
    IF StrictColumnsSv(t) /\ SingleValued(t) /\ TFromJson(e.res.row) # t THEN "row_word_does_not_decode"
    ELSE Ck("crystal_word_does_not_decode", StrictColumnsSv(t) => TFromJson(e.res.crystal) = t)
PredVerdict(e) == LET t == Reg(e, "a") r == e.res IN
    IF r.ss # <<TSemistandard(t, FALSE), TSemistandard(t, FALSE), TSemistandard(t, TRUE)>> THEN "is_semistandard"
    ELSE IF r.std # TStandard(t) THEN "is_standard"
    ELSE Ck("is_shifted_column_superstandard", r.sup = TSuperstandard(t))
CompareVerdict(e) == LET t == Reg(e, "a") u == Reg(e, "b") r == e.res IN
    IF r.eq # <<t = u, t # u>> THEN "equality"
    ELSE IF r.lt # <<TLess(t, u), TLess(u, t)>> THEN "order"
    ELSE IF r.sorted # (TLess(u, t)) THEN "sorting"
    ELSE IF t = u /\ r.hash[1] # r.hash[2] THEN "equal_tableaux_hash_differently"
    ELSE Ck("hash_changes", \A s \in seen : (s[1] = t => s[2] = r.hash[1]) /\ (s[1] = u => s[2] = r.hash[2]))
(* the printed rows, from the last row to the first, aligned *)
PrintVerdict(e) == LET t == Reg(e, "a") IN
    IF e.res.rows # Rev(Printed(t)) THEN "printed_rows"
    ELSE IF ~(\A k, m \in 1..Len(e.res.widths) : e.res.widths[k] = e.res.widths[m]) THEN "printed_rows_not_aligned"
    ELSE Ck("printed_form_does_not_decode", TFromJson(e.res.back) = t)
RppVerdict(e) == LET t == Reg(e, "a") IN
    IF e.res.plain # [a \in 1..e.n |-> Cardinality({b[2] : b \in {c \in DOMAIN t : a \in SetOf(t[c]) \/ -a \in SetOf(t[c])}})] THEN "reverse_plane_partition_weight"
    ELSE Ck("marked_reverse_plane_partition_weight", e.res.marked = [a \in 1..e.n |-> Cardinality({b[2] : b \in {c \in DOMAIN t : a \in SetOf(t[c])}})
                                                                                 + Cardinality({b[1] : b \in {c \in DOMAIN t : -a \in SetOf(t[c])}})])
QueryVerdict(e) ==
    CASE e.op = "pop" -> PopVerdict(e)
      [] e.op = "box" -> BoxVerdict(e)
      [] e.op = "count" -> CountVerdict(e)
      [] e.op = "words" -> WordVerdict(e)
      [] e.op = "round" -> RoundVerdict(e)
      [] e.op = "preds" -> PredVerdict(e)
      [] e.op = "compare" -> CompareVerdict(e)
      [] e.op = "print" -> PrintVerdict(e)
      [] e.op = "reparse" -> Ck("printed_string_does_not_decode", TFromJson(e.res) = Reg(e, "a"))
      [] e.op = "descents" -> Ck("descent_set", SetOf(e.res) = TDescents(Reg(e, "a")) /\ NoDup(e.res))
      [] e.op = "rpp" -> RppVerdict(e)
      [] OTHER -> "unknown_event"
Settled(e) == e.op = "standardize" => TSemistandard(Reg(e, "a"), TRUE)
ObsRegs(e) == [r \in 1..NR |-> TFromJson(e.regs[r])]
OpVerdict(e) ==
    IF e.exc # "" THEN "raised_" \o e.op
    ELSE IF e.op \in TabOps THEN
        LET post == IF e.dst = 0 THEN regs ELSE [regs EXCEPT ![e.dst] = TFromJson(e.res)]
        IN IF ~TWellFormed(e.res) THEN "malformed_tableau"
           ELSE IF Settled(e) /\ TFromJson(e.res) # Expected(e) THEN "wrong_result_" \o e.op
           ELSE Ck("operand_changed_by_" \o e.op, ObsRegs(e) = post)
    ELSE LET q == QueryVerdict(e) IN IF q # "" THEN q ELSE Ck("operand_changed_by_" \o e.op, ObsRegs(e) = regs)

Init == l = 1 /\ regs = [r \in 1..NR |-> TEmpty] /\ seen = {}
Session == Trace[l].op = "session" /\ regs' = [r \in 1..NR |-> TEmpty] /\ seen' = {}
Operation == /\ Trace[l].op # "session"
             /\ LET e == Trace[l] IN
                /\ Report(l, OpVerdict(e))
                /\ regs' = ObsRegs(e)
                /\ seen' = IF e.op = "compare" /\ e.exc = "" THEN seen \cup {<<Reg(e, "a"), e.res.hash[1]>>, <<Reg(e, "b"), e.res.hash[2]>>} ELSE seen
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Session \/ Operation)
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
