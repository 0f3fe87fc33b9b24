------------------------------ MODULE C08Trace ------------------------------
EXTENDS Crystals, InsTab
VARIABLES l
Kept(e, a) == IF a = NoObj THEN <<>> ELSE IF e.unpack /\ Len(e.words) <= 1 THEN a ELSE SplitAs(e.words, a)
ToF(t) == ToQ(t)
Same(exp, got) == IF exp = NoObj THEN got = <<>> ELSE got # <<>> /\ NoDup([k \in 1..Len(got) |-> <<got[k][1], got[k][2]>>]) /\ ToF(got) = exp
TupSet(L) == {<<L[k][1], L[k][2], L[k][3]>> : k \in 1..Len(L)}
(* components and strings of a recorded graph with vertices 0..n-1 and edges E *)
GraphVerdict(e, n, E) ==
    IF ~NoDup(e.res.edges) THEN "edge_listed_twice"
    ELSE IF TupSet(e.res.edges) # E THEN "edges"
    ELSE IF {SetOf(e.res.comps[k]) : k \in 1..Len(e.res.comps)} # Components(0..(n - 1), E) \/ ~NoDup(e.res.comps) THEN "components"
    ELSE LET strOk(i) == LET S == e.res.strings[i]
                             Ei == {x \in E : x[3] = i}
                         IN /\ NoDup(Flat(S)) /\ SetOf(Flat(S)) = 0..(n - 1)
                            /\ \A k \in 1..Len(S) : /\ \A m \in 1..(Len(S[k]) - 1) : <<S[k][m], S[k][m + 1], i>> \in Ei
                                                    /\ ~(\E x \in Ei : x[1] = S[k][Len(S[k])]) /\ ~(\E x \in Ei : x[2] = S[k][1])
         IN IF ~(\A i \in 1..Len(e.res.strings) : strOk(i)) THEN "strings"
            ELSE IF ~e.res.drawn THEN ""
            ELSE \* one drawing for every component and one for the whole graph
                 LET F == e.res.files
                     Cs == Components(0..(n - 1), E)
                     Of(C) == {x \in E : x[1] \in C}
                     draws(S) == Cardinality({k \in 1..Len(F) : TupSet(F[k]) = S})
                     owes(S) == Cardinality({C \in Cs : Of(C) = S}) + IF S = E THEN 1 ELSE 0
                 IN IF Len(F) # Cardinality(Cs) + 1 THEN "number_of_drawings"
                    ELSE Ck("edges_drawn", \A k \in 1..Len(F) : NoDup(F[k]) /\ draws(TupSet(F[k])) = owes(TupSet(F[k])))
TGraphVerdict(e) ==
    LET el == e.res.elements n == Len(el)
        opt == [sh |-> FALSE, marked |-> FALSE, setv |-> e.setv, diag |-> "any", rpp |-> FALSE]
        B == Boxes(e.mu, <<>>, FALSE)
        fs == TLCEval([k \in 1..n |-> ToF(el[k])])
        pos(g) == CHOOSE k \in 1..n : fs[k] = g
    IN IF \E k \in 1..n : ~NoRepeat(el[k]) \/ TabBoxes(el[k]) # B THEN "element_of_another_shape"
       ELSE IF {TabFill(el[k]) : k \in 1..n} # Fillings(opt, e.max, e.mu, <<>>) \/ ~NoDup(el) THEN "elements"
       ELSE LET E == UNION {LET g == SetF(fs[k], i) IN IF g = NoObj THEN {} ELSE {<<k - 1, pos(g) - 1, i>>} : <<k, i>> \in (1..n) \X (1..(e.max - 1))}
            IN GraphVerdict(e, n, E)
(* two-line arrays of the words in W with k blocks *)
ArraysOf(W, k, dec) == UNION {{<<a, RecordsOf(t)>> : t \in Factor(a, k, dec)} : a \in W}
WGraphVerdict(e) ==
    LET el == e.res.elements n == Len(el)
        Ls == WLevels("hecke", e.rank, -1, e.length)
        W == {p[2] : p \in {q \in (IF Len(Ls) > e.length THEN Ls[e.length + 1] ELSE {}) : q[1] = e.w}}
        arr == TLCEval([k \in 1..n |-> <<el[k][1], el[k][2]>>])
        R == TLCEval([k \in 1..n |-> Result("hecke", el[k][1], el[k][2], ~e.dec)])
        targets(k, i) == LET g == TabF(R[k][2], i, ~e.dec) IN IF g = NoObj THEN {} ELSE {y \in 1..n : R[y] = <<R[k][1], g>>}
    IN IF SetOf(arr) # ArraysOf(W, e.k, e.dec) \/ ~NoDup(arr) THEN "elements"
       ELSE GraphVerdict(e, n, UNION {{<<k - 1, y - 1, i>> : y \in targets(k, i)} : <<k, i>> \in (1..n) \X (1..(e.k - 1))})
SGraphVerdict(e) ==
    LET el == e.res.elements n == Len(el)
        kind == IF e.sp THEN "sp" ELSE "orth"
        wk == IF e.sp THEN "shecke" ELSE "ihecke"
        Ls == WLevels(wk, e.rank, -1, e.length)
        W == {p[2] : p \in {q \in (IF Len(Ls) > e.length THEN Ls[e.length + 1] ELSE {}) : q[1] = e.w}}
        A == TLCEval(ArraysOf(W, e.k, ~e.multi))
        res == TLCEval([a \in A |-> Result(kind, a[1], a[2], e.multi)])
        hk == TLCEval([a \in A |-> Result("hecke", a[1], a[2], e.multi)])
        fs == TLCEval([k \in 1..n |-> ToF(el[k])])
        arr == TLCEval([k \in 1..n |-> CHOOSE a \in A : res[a][2] = fs[k]])
        to(k, i) == LET h == hk[arr[k]] g == TabF(h[2], i, e.multi)
                    IN IF g = NoObj THEN {} ELSE {y \in 1..n : \E a \in A : hk[a] = <<h[1], g>> /\ res[a][2] = fs[y]}
    IN IF e.exc # "" THEN Ck("raised_in_sgraph", A = {})          \* no element at all: refused
       ELSE IF \E a \in A : res[a][1] # ToT(e.res.p) THEN "insertion_tableau"
       ELSE IF {fs[k] : k \in 1..n} # {res[a][2] : a \in A} \/ Cardinality({fs[k] : k \in 1..n}) # n THEN "elements"
       ELSE IF Len(e.res.arrays) # n \/ \E k \in 1..n : e.res.arrays[k] \notin A \/ res[e.res.arrays[k]][2] # fs[k] THEN "two_line_arrays"
       ELSE GraphVerdict(e, n, UNION {{<<k - 1, y - 1, i>> : y \in to(k, i)} : <<k, i>> \in (1..n) \X (1..(e.k - 1))})
OpVerdict(e) ==
    IF e.op = "session" THEN ""
    ELSE IF e.exc # "" /\ ~(e.op = "sgraph" /\ e.exc = "AssertionError:") THEN "raised_in_" \o e.op
    ELSE CASE e.op = "wf" -> Ck("raising_letters", e.res = Kept(e, FWord(Flat(e.words), e.i)))
           [] e.op = "we" -> Ck("lowering_letters", e.res = Kept(e, EWord(Flat(e.words), e.i)))
           [] e.op = "tf" -> Ck("raising_tableau", Same(TabF(ToF(e.t), e.i, e.multi), e.res))
           [] e.op = "te" -> Ck("lowering_tableau", Same(TabE(ToF(e.t), e.i, e.multi), e.res))
           [] e.op = "read" -> Ck("crystal_reading_word", e.res = ReadCols(ToF(e.t)))
           [] e.op = "unread" -> Ck("tableau_of_reading_word", ToF(e.res) = ToF(e.t))
           [] e.op = "factor" -> Ck("factorizations", NoDup(e.res) /\ SetOf(e.res) = Factor(e.word, e.k, e.dec))
           [] e.op = "array" -> Ck("two_line_array", e.res = <<Flat(e.words), RecordsOf(e.words)>>)
           [] e.op = "tgraph" -> TGraphVerdict(e)
           [] e.op = "wgraph" -> WGraphVerdict(e)
           [] e.op = "sgraph" -> SGraphVerdict(e)
           [] e.op = "fixedtab" ->
                LET opt == [sh |-> TRUE, marked |-> TRUE, setv |-> TRUE, diag |-> "noprime", rpp |-> FALSE]
                    exp == {p \in Fillings(opt, e.rank, e.mu, <<>>) : SumOver(1..Len(p), LAMBDA k : Cardinality(p[k])) = Size(e.mu) + e.excess}
                IN Ck("elements", NoDup(e.res) /\ {TabFill(e.res[k]) : k \in 1..Len(e.res)} = exp)
           [] OTHER -> "unknown_event"
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, OpVerdict(Trace[l])) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
