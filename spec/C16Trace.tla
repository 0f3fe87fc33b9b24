------------------------------ MODULE C16Trace ------------------------------
(* Trace specification of the partition operations.  The state is the        *)
(* current shape of a walk in (shifted) Young's lattice; walk events move    *)
(* it by the AddBox/RemoveBox actions of the design model, query events ask  *)
(* about explicit shapes.                                                    *)
EXTENDS Shapes, TraceBase
VARIABLES l, cur
vars == <<l, cur>>

Listed(res, S) == IF ~NoDup(res) THEN "listed_twice"
                  ELSE IF SetOf(res) # S THEN (IF SetOf(res) \subseteq S THEN "missing" ELSE "not_in_set") ELSE ""
Boxes(js) == {<<js[k][1], js[k][2]>> : k \in DOMAIN js}
(* a set of boxes listed as a sequence *)
ListedBoxes(res, S) == IF ~NoDup(res) THEN "listed_twice" ELSE Ck("wrong_boxes", Boxes(res) = S)

GenSet(n, mp, mr, strict, even) ==
    {p \in PartsOf(n, IF mp < 0 THEN n ELSE mp, IF mr < 0 THEN n ELSE mr) :
        /\ strict => IsStrict(p)
        /\ even => \A i \in 1..Len(p) : p[i] % 2 = 0}
RimSet(mu, bound) ==
    {Skew(la, mu, TRUE) : la \in
        {p \in BetweenStrict([i \in 1..(Len(mu) + 1) |-> IF i = 1 THEN Part(mu, 1) + bound ELSE Part(mu, i - 1)], mu) :
            OnePerDiagonal(Skew(p, mu, TRUE))}}
Line(i, a, x, sh) == [k \in 1..((IF sh THEN 2 * (i - 1) ELSE 0) + 2 * a) |->
    LET o == IF sh THEN 2 * (i - 1) ELSE 0 IN
    IF k <= o \/ (k - o) % 2 = 0 THEN " " ELSE IF k - o <= 2 * x THEN "." ELSE "*"]
RowText(mu, nu, sh, i) == LET w == MaxSet({2 * mu[k] + (IF sh THEN 2 * (k - 1) ELSE 0) : k \in 1..Len(mu)}, 0)
                              t == Line(i, mu[i], Part(nu, i), sh)
                          IN [k \in 1..w |-> IF k <= Len(t) THEN t[k] ELSE " "]

(* what a skew shape looks like up to moving it: the boxes, each with the    *)
(* mark whether it lies on the main diagonal of a shifted shape              *)
Corner(S) == LET r == CHOOSE i \in {b[1] : b \in S} : \A b \in S : i <= b[1]
                 c == CHOOSE j \in {b[2] : b \in S} : \A b \in S : j <= b[2] IN <<r, c>>
Look(S, sh) == IF S = {} THEN {} ELSE LET o == Corner(S) IN
    {<<b[1] - o[1], b[2] - o[2], sh /\ b[1] = b[2]>> : b \in S}
ToRes(x) == x
Clause(e) ==
    CASE e.op = "generate" -> Listed(e.res, GenSet(e.n, e.mp, e.mr, e.strict, e.even))
      [] e.op = "all" -> Listed(e.res, UNION {GenSet(k, e.mp, e.mr, e.strict, e.even) : k \in 0..e.n})
      [] e.op = "subpartitions" -> Listed(e.res, IF e.strict THEN BetweenStrict(e.mu, e.nu) ELSE Between(e.mu, e.nu))
      [] e.op = "compositions" -> Listed(e.res, Comps(e.n))
      [] e.op = "peak_compositions" -> Listed(e.res, {c \in Comps(e.n) : \A i \in 1..(Len(c) - 1) : c[i] >= 2})
      [] e.op = "successors" -> Listed(e.res,
            {p \in Between([i \in 1..Len(e.mu) |-> e.mu[i] + 1], e.mu) : e.strict => IsStrict(p)})
      [] e.op = "ribbon_complements" -> Listed(e.res, {k \in BetweenStrict(e.mu, <<>>) : OnePerDiagonal(Skew(e.mu, k, TRUE))})
      [] e.op = "by_rims" -> Listed(e.res, {k \in BetweenStrict(e.mu, <<>>) : OnePerDiagonal(Skew(e.mu, k, TRUE))})
      [] e.op = "by_vertical_strips" -> Listed(e.res, {k \in BetweenStrict(e.mu, <<>>) : OnePerRow(Skew(e.mu, k, TRUE))})
      [] e.op = "remove_inner_corners" -> Listed(e.res,
            {k \in Between(e.mu, <<>>) : OnePerRow(Skew(e.mu, k, FALSE)) /\ OnePerColumn(Skew(e.mu, k, FALSE))})
      [] e.op = "remove_shifted_inner_corners" -> Listed(e.res,
            {k \in BetweenStrict(e.mu, <<>>) : OnePerRow(Skew(e.mu, k, TRUE)) /\ OnePerColumn(Skew(e.mu, k, TRUE))})
      [] e.op = "shifted_ribbons" -> Listed(e.res,
            UNION {{<<nu, k>> : k \in {x \in BetweenStrict(nu, <<>>) : OnePerDiagonal(Skew(nu, x, TRUE))}} :
                      nu \in {x \in BetweenStrict([i \in 1..e.n |-> e.n - i + 1], IF e.n = 0 THEN <<>> ELSE <<e.n>>) : TRUE}})
      [] e.op = "shifted_ribbon" -> Ck("wrong_ribbon", e.res = <<
            [i \in 1..Len(e.a) |-> TailSum(e.a, i)],
            [i \in 1..(Len(e.a) - 1) |-> TailSum(e.a, i + 1)]>>)
      [] e.op = "rims" -> LET S == {Boxes(e.res[k]) : k \in DOMAIN e.res} IN
            IF Cardinality(S) # Len(e.res) THEN "listed_twice" ELSE Ck("wrong_rims", S = RimSet(e.mu, e.bound))
      [] e.op = "rim_terminal" ->
            LET t == e.rim  n == Len(t)
                touch(a, b) == a[1] = b[1] \/ a[2] = b[2]
                k == IF n <= 1 \/ ~touch(t[n - 1], t[n]) THEN 1 ELSE IF n = 2 \/ ~touch(t[n - 2], t[n - 1]) THEN 2 ELSE 3
            IN Ck("wrong_terminal_part", e.res = SubSeq(t, (IF n < k THEN 0 ELSE n - k) + 1, n))
      [] e.op = "shape" -> ListedBoxes(e.res, Diagram(e.mu, e.sh))
      [] e.op = "shifted_skew" -> ListedBoxes(e.res, Diagram(e.mu, TRUE) \ Diagram(e.nu, TRUE))
      [] e.op = "skew" -> ListedBoxes(e.res, Skew(e.mu, e.nu, e.sh))
      [] e.op = "skewkey" -> Ck("wrong_key", e.res = (Look(Skew(e.mu, e.nu, e.sh), e.sh) = Look(Skew(e.la, e.ka, e.sh), e.sh)))
      [] e.op = "from_shape" -> Ck("wrong_rows", e.res = e.mu)
      [] e.op = "merge_shifted" -> Ck("wrong_rows", e.res = FromRows(Diagram(e.mu, TRUE) \cup Boxes(e.boxes)))
      [] e.op = "from_skew" ->
            LET nu == e.res[1]  mu == e.res[2]  S == Skew(e.mu, e.nu, e.sh) IN
            IF ~(IF e.sh THEN IsStrict(nu) /\ IsStrict(mu) ELSE IsPartition(nu) /\ IsPartition(mu)) THEN "not_partitions"
            ELSE IF ~ContainsP(nu, mu) THEN "not_contained"
            ELSE IF S # {} /\ Len(mu) >= Len(nu) THEN "not_reduced"
            ELSE IF S = {} THEN Ck("not_empty", nu = mu)
            ELSE Ck("wrong_diagram", \E d \in 0..Part(e.mu, 1) : Translate(Skew(nu, mu, e.sh), d) = S)
      [] e.op = "transpose" -> Ck("wrong_transpose", Diagram(e.res, FALSE) = {<<b[2], b[1]>> : b \in Diagram(e.mu, FALSE)} /\ IsPartition(e.res))
      [] e.op = "complement" -> Ck("wrong_complement", IsStrict(e.res) /\ SetOf(e.res) = (1..e.n) \ SetOf(e.mu))
      [] e.op = "contains" -> Ck("wrong_answer", e.res = ContainsP(e.mu, e.nu))
      [] e.op = "is_partition" -> Ck("wrong_answer", e.res = (\A i \in 1..Len(e.mu) : e.mu[i] >= 0 /\ (i > 1 => e.mu[i - 1] >= e.mu[i])))
      [] e.op = "is_strict" -> Ck("wrong_answer", e.res = IsStrict(e.mu))
      [] e.op = "isin" -> Ck("wrong_answer", e.res = (<<e.i, e.j>> \in Diagram(e.mu, e.sh)))
      [] e.op = "get" -> Ck("wrong_part", e.res = Part(e.mu, e.i))
      [] e.op = "trim" -> Ck("wrong_trim", e.res = TrimZ(e.mu))
      [] e.op = "sort" -> Ck("wrong_sort", e.res = IF e.trim THEN TrimZ(SortDown(e.mu)) ELSE SortDown(e.mu))
      [] e.op = "union" -> Ck("wrong_union", e.res = UnionP(e.mu, e.nu))
      [] e.op = "remove_inner_corner" -> Ck("wrong_removal",
            e.res = IF CanRemove(e.mu, e.i, FALSE) THEN <<RemoveBox(e.mu, e.i)>> ELSE <<>>)
      [] e.op = "remove_shifted_inner_corner" -> Ck("wrong_removal",
            e.res = IF CanRemove(e.mu, e.i, TRUE) THEN <<RemoveBox(e.mu, e.i)>> ELSE <<>>)
      [] e.op = "outer_corner" -> Ck("wrong_corner",
            LET C == {i \in 1..(Len(e.mu) + 1) : CanAdd(e.mu, i, TRUE) /\ Part(e.mu, i) = e.d} IN
            e.res = IF C = {} THEN 0 ELSE CHOOSE i \in C : TRUE)
      [] e.op = "inner_corner" -> Ck("wrong_corner",
            LET C == {i \in 1..Len(e.mu) : CanRemove(e.mu, i, TRUE) /\ e.mu[i] = e.d + 1} IN
            e.res = IF C = {} THEN 0 ELSE CHOOSE i \in C : TRUE)
      [] e.op = "decrement_one" -> Ck("wrong_decrement",
            LET i == CHOOSE k \in 1..Len(e.mu) : CanRemove(e.mu, k, TRUE) /\ \A m \in 1..(k - 1) : ~CanRemove(e.mu, m, TRUE)
            IN e.res = RemoveBox(e.mu, i))
      [] e.op = "decrement_strict" -> Ck("wrong_decrement",
            (* the rows of the first maximal run of consecutive parts each lose a box *)
            LET n == Len(e.mu)
                run == {k \in 1..n : \A m \in 2..k : e.mu[m] = e.mu[m - 1] - 1}
            IN e.res = IF n = 0 THEN <<>> ELSE TrimZ([k \in 1..n |-> IF k \in run THEN e.mu[k] - 1 ELSE e.mu[k]]))
      [] e.op = "printable" -> Ck("wrong_picture",
            LET n == Len(e.mu) IN
            e.res = [k \in 1..n |-> RowText(e.mu, e.nu, e.sh, IF e.french THEN n + 1 - k ELSE k)])
      [] e.op = "printables" -> Ck("wrong_picture",
            LET mus == SelectSeq(e.mus, LAMBDA m : m # <<>>)
                high == MaxSet({Len(mus[t]) : t \in 1..Len(mus)}, 0)
                \* the line of the t-th diagram in row r of the joint picture
                line(t, r) == LET n == Len(mus[t])
                                  k == IF e.french THEN high + 1 - r ELSE r
                              IN IF k \in 1..n THEN RowText(mus[t], <<>>, e.sh, k)
                                 ELSE [x \in 1..Len(RowText(mus[t], <<>>, e.sh, 1)) |-> " "]
                \* an arrow in the rows that the pictures up to here reach
                gap(t, r) == LET k == IF e.french THEN high + 1 - r ELSE r
                                 reach == MaxSet({Len(mus[x]) : x \in 1..t}, 0)
                             IN IF k <= reach THEN <<" ", " ", " ", "-", ">", " ", " ", " ", " ">> ELSE [x \in 1..9 |-> " "]
            IN /\ Len(e.res) = high
               /\ \A r \in 1..high : e.res[r] = FoldLeft(LAMBDA acc, t : IF t = 1 THEN line(t, r) ELSE acc \o gap(t, r) \o line(t, r), <<>>, [t \in 1..Len(mus) |-> t]))
      [] OTHER -> "unknown_event"

(* walk events: move the current shape *)
WalkOps == {"walk_add", "walk_add_row", "walk_add_col", "walk_remove"}
WalkNext(e) == CASE e.op \in {"walk_add", "walk_add_row"} -> AddBox(cur, e.i)
                 [] e.op = "walk_add_col" ->
                        LET rows == {i \in 1..(Len(cur) + 1) : CanAdd(cur, i, e.sh) /\ Part(cur, i) + 1 + Off(e.sh, i) = e.j}
                        IN IF rows = {} THEN <<-1>> ELSE AddBox(cur, CHOOSE i \in rows : TRUE)
                 [] e.op = "walk_remove" -> RemoveBox(cur, e.i)
OpVerdict(e) == IF e.exc # "" THEN "raised_in_" \o e.op
                ELSE IF e.op \in WalkOps THEN Ck("wrong_step_" \o e.op, e.res = WalkNext(e))
                ELSE LET c == Clause(e) IN IF c = "" THEN "" ELSE e.op \o "_" \o c
Init == l = 1 /\ cur = <<>>
Walk == /\ Trace[l].op \in WalkOps
        /\ Report(l, OpVerdict(Trace[l]))
        /\ cur' = IF Trace[l].exc = "" THEN Trace[l].res ELSE cur
Session == Trace[l].op = "session" /\ cur' = <<>>
Query == /\ Trace[l].op \notin WalkOps \cup {"session"}
         /\ Report(l, OpVerdict(Trace[l])) /\ UNCHANGED cur
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Session \/ Walk \/ Query)
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
