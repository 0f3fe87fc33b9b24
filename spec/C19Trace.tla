------------------------------ MODULE C19Trace ------------------------------
(* Trace specification of valued-set tableaux and their transitions.  The    *)
(* state remembers, per session, the enumeration and the transitions seen    *)
(* (a partial map), so that every transition step is checked against the     *)
(* whole history of the session.                                             *)
EXTENDS Vst, TraceBase
VARIABLES l, trans
vars == <<l, trans>>

ListVerdict(e, expected) ==
    IF Cardinality(SetOf(e.res)) # Len(e.res) THEN "listed_twice"
    ELSE IF ~(SetOf(e.res) \subseteq expected) THEN "listed_but_not_in_the_class"
    ELSE Ck("missing_from_list", expected \subseteq SetOf(e.res))

(* r = <<image, image of the image, weight of t, weight of the image, operand afterwards>> *)
StepVerdict(e, t, r) ==
    LET u == r[1] IN
    IF r[5] # t THEN "operand_changed"
    ELSE IF ~VstOk(u, e.mu, e.nu) THEN "image_malformed"
    ELSE IF ~SameOutside(t, u, e.i) THEN "other_boxes_changed"
    ELSE IF ~VSemistandard(u) THEN "image_not_semistandard"
    ELSE IF ~e.dp /\ VDiagPrimes(u) # 0 THEN "image_left_the_class"
    ELSE IF VWeight(u, e.n) # Exchange(VWeight(t, e.n), e.i) THEN "weights_not_exchanged"
    ELSE IF r[3] # VWeight(t, e.n) \/ r[4] # VWeight(u, e.n) THEN "reported_weight"
    ELSE Ck("not_an_involution", r[2] = t)
(* r = <<forward, middle, backward of forward, forward predicate, middle predicate>> *)
StageVerdict(e, t, r) ==
    IF ~VstOk(r[1], e.mu, e.nu) \/ ~VstOk(r[2], e.mu, e.nu) THEN "stage_malformed"
    ELSE IF ~VInterstandard(r[1]) THEN "forward_not_interstandard"
    ELSE IF ~VInterstandard(r[2]) THEN "middle_not_interstandard"
    ELSE IF r[4] # TRUE \/ r[5] # TRUE THEN "interstandard_predicate"
    ELSE IF VWeight(r[1], 2) # VWeight(t, 2) THEN "forward_changes_weight"
    ELSE IF VWeight(r[2], 2) # Exchange(VWeight(t, 2), 1) THEN "middle_does_not_exchange_weight"
    ELSE Ck("backward_forward_is_not_identity", r[3] = t)
(* r = <<backward, forward of backward, middle, middle of middle>> *)
BackVerdict(e, t, r) ==
    IF ~VstOk(r[1], e.mu, e.nu) THEN "backward_malformed"
    ELSE IF ~VSemistandard(r[1]) THEN "backward_not_semistandard"
    ELSE IF r[2] # t THEN "forward_backward_is_not_identity"
    ELSE IF ~VInterstandard(r[3]) THEN "middle_not_interstandard"
    ELSE Ck("middle_is_not_an_involution", r[4] = t)

VFirstBad(e, V(_, _, _)) == LET B == {k \in 1..Len(e.src) : V(e, e.src[k], e.res[k]) # ""}
    IN IF Len(e.res) # Len(e.src) THEN "number_of_results" ELSE IF B = {} THEN "" ELSE LET k == CHOOSE x \in B : \A y \in B : x <= y IN V(e, e.src[k], e.res[k])
Pairs(e) == {<<e.i, e.src[k], e.res[k][1]>> : k \in 1..Len(e.src)}
(* one value per argument over the session, and injective *)
HistoryVerdict(e) == LET P == Pairs(e) IN
    IF \E p \in P, q \in trans : p[1] = q[1] /\ p[2] = q[2] /\ p[3] # q[3] THEN "transition_depends_on_history"
    ELSE Ck("two_tableaux_with_one_image", ~(\E p, q \in P \cup trans : p[1] = q[1] /\ p[2] # q[2] /\ p[3] = q[3]))

BoxSet(t, P(_)) == {VPos(t)[k] : k \in {x \in 1..Len(t) : P(x)}}
HasSame(S, s) == SetOf(s) = S /\ Len(s) = Cardinality(S)
Increasing(S, s) == HasSame(S, s) /\ \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
Clear(t, P(_)) == [k \in 1..Len(t) |-> IF P(k) THEN <<t[k][1], t[k][2], AbsV(t[k][3]), t[k][4]>> ELSE t[k]]
(* groups with entry v as pairs <<first box, last box>>: leftmost and rightmost, or topmost and bottommost *)
Lines(t, v) == {<<<<MinSet({b[1] : b \in G}, 1000), MinSet({b[2] : b \in G}, 1000)>>, <<MaxSet({b[1] : b \in G}, 0), MaxSet({b[2] : b \in G}, 0)>>>>
                 : G \in {H \in VGroups(t) : \E b \in H : VEnt(t, b) = v}}
Hinges(t, i) == LET In(b) == AbsV(VEnt(t, b)) \in {i, i + 1} IN {x \in 1..20 : In(<<x, x>>) /\ In(<<x, x + 1>>) /\ In(<<x + 1, x + 1>>)}
PairUp(r) == {<<r[1][k], r[2][k]>> : k \in 1..Len(r[1])}
LinesOk(t, v, r) == Len(r[1]) = Len(r[2]) /\ PairUp(r) = Lines(t, v) /\ Cardinality(Lines(t, v)) = Len(r[1])
InfoVerdict(e) == LET t == e.t r == e.res n == Len(t) vals == SetOf(e.vals) IN
    IF r.weight # VWeight(t, e.n) THEN "weight"
    ELSE IF r.dprimes # VDiagPrimes(t) THEN "diagonal_primes"
    ELSE IF r.ss # VSemistandard(t) THEN "semistandard_predicate"
    ELSE IF (\A k \in 1..n : AbsV(t[k][3]) <= 2) /\ r.inter # VInterstandard(t) THEN "interstandard_predicate"
    ELSE IF ~HasSame(BoxSet(t, LAMBDA k : GroupStart(t, k)), r.starts) THEN "group_starts"
    ELSE IF ~HasSame(BoxSet(t, LAMBDA k : GroupEnd(t, k)), r.ends) THEN "group_ends"
    ELSE IF ~HasSame(BoxSet(t, LAMBDA k : Singleton(t, k)), r.alone) THEN "is_singleton"
    ELSE IF ~HasSame(BoxSet(t, LAMBDA k : Singleton(t, k)), r.single) THEN "singletons"
    ELSE IF ~HasSame(BoxSet(t, LAMBDA k : Singleton(t, k) /\ AbsV(t[k][3]) \in vals), r.singlev) THEN "singletons_of_value"
    ELSE IF ~Increasing({t[k][1] : k \in {x \in 1..n : Singleton(t, x) /\ t[x][1] = t[x][2]}}, r.diagsingle) THEN "diagonal_singletons"
    ELSE IF ~Increasing({t[k][1] : k \in {x \in 1..n : t[x][1] = t[x][2] /\ t[x][3] < 0 /\ AbsV(t[x][3]) \in vals}}, r.diagprimed) THEN "primed_diagonal_cells"
    ELSE IF r.pgroups # Cardinality({k \in 1..n : t[k][3] < 0 /\ GroupEnd(t, k)}) THEN "primed_groups"
    ELSE IF r.pgroupsv # Cardinality({k \in 1..n : t[k][3] < 0 /\ GroupEnd(t, k) /\ AbsV(t[k][3]) \in vals}) THEN "primed_groups_of_value"
    ELSE IF r.highest # (\A k \in 1..n : t[k][4] = 0) THEN "highest_weight_predicate"
    ELSE IF ~HasSame({p \in SetOf(VPos(t)) \X SetOf(VPos(t)) : Joined(t, p[1], p[2])}, r.joined) THEN "in_same_group"
    ELSE IF r.unprime # Clear(t, LAMBDA k : Singleton(t, k)) THEN "unprime"
    ELSE IF r.unprimed # Clear(t, LAMBDA k : Singleton(t, k) /\ t[k][1] = t[k][2]) THEN "unprime_diagonal"
    ELSE IF ~LinesOk(t, e.vals[1], r.hor) THEN "horizontal_groups"
    ELSE IF ~LinesOk(t, -e.vals[1], r.ver) THEN "vertical_groups"
    ELSE IF r.hinge # <<0>> /\ SetOf(r.hinge) # Hinges(t, e.vals[1]) THEN "hinge"
    ELSE Ck("equality", r.eq = <<TRUE, TRUE, \A k \in 1..n : t[k][3] > 0 \/ ~Singleton(t, k)>>)

(* equality is equality of entries and of groups, and equal tableaux hash and print alike, different ones do not print alike *)
PairsVerdict(e) == LET n == Len(e.src) IN
    IF Len(e.res) # 2 * n THEN "number_of_results"
    ELSE IF \E x, y \in 1..n : (e.res[x][y][1] # (e.src[x] = e.src[y])) \/ (e.res[x][y][2] # (e.src[x] # e.src[y])) THEN "equality"
    ELSE IF \E x, y \in 1..n : e.src[x] = e.src[y] /\ ~e.res[x][y][3] THEN "equal_tableaux_hash_differently"
    ELSE IF \E x, y \in 1..n : e.res[x][y][4] # (e.src[x] = e.src[y]) THEN "printed_form"
    ELSE Ck("equality_with_other_objects", \A x \in 1..n : e.res[n + x] = <<FALSE, FALSE, TRUE>>)

(* The drawing (rows from below): a wall stands between two neighbouring positions when one of them is a box, unless the two boxes are *)
(* joined; a lattice point shows its walls; an entry stands in its box, a dot where the outline has none, all in one width.             *)
LetterOf(v) == IF v > 0 THEN ToString(v) ELSE ToString(-v) \o "'"
Wall(t, b, c) == (Has(t, b) \/ Has(t, c)) /\ ~Joined(t, b, c)
Glyph(t, a, b) == LET ne == <<a, b>> nw == <<a, b - 1>> se == <<a - 1, b>> sw == <<a - 1, b - 1>>
                      arms == <<Wall(t, nw, ne), Wall(t, sw, se), Wall(t, nw, sw), Wall(t, ne, se)>> IN   \* up, down, left, right
    CASE arms = <<FALSE, FALSE, FALSE, FALSE>> -> "none" [] arms = <<TRUE, TRUE, TRUE, TRUE>> -> "cross"
      [] arms = <<FALSE, FALSE, TRUE, TRUE>> -> "level" [] arms = <<TRUE, TRUE, FALSE, FALSE>> -> "upright"
      [] arms = <<TRUE, FALSE, TRUE, TRUE>> -> "level-up" [] arms = <<FALSE, TRUE, TRUE, TRUE>> -> "level-down"
      [] arms = <<TRUE, TRUE, FALSE, TRUE>> -> "upright-right" [] arms = <<TRUE, TRUE, TRUE, FALSE>> -> "upright-left"
      [] arms = <<TRUE, FALSE, FALSE, TRUE>> -> "up-right" [] arms = <<FALSE, TRUE, FALSE, TRUE>> -> "down-right"
      [] arms = <<TRUE, FALSE, TRUE, FALSE>> -> "up-left" [] arms = <<FALSE, TRUE, TRUE, FALSE>> -> "down-left"
      [] OTHER -> "end of a wall"
EntryAt(t, b) == IF Has(t, b) THEN LetterOf(VEnt(t, b)) ELSE "."
PictureVerdict(e) == LET t == e.t
                         m == MaxSet({t[k][1] : k \in 1..Len(t)}, 0) n == MaxSet({t[k][2] : k \in 1..Len(t)}, 0)
                         w == MaxSet({Len(LetterOf(t[k][3])) : k \in 1..Len(t)} \cup {2}, 2)
                         Token(p, q) == LET a == p \div 2 + 1 b == q \div 2 + 1 IN      \* position p, q counted from 0
                             IF p % 2 = 1 /\ q % 2 = 1 THEN <<EntryAt(t, <<a, b>>), w>>
                             ELSE IF p % 2 = 1 THEN <<IF Wall(t, <<a, b - 1>>, <<a, b>>) THEN "upright" ELSE "none", 1>>
                             ELSE IF q % 2 = 1 THEN <<IF Wall(t, <<a - 1, b>>, <<a, b>>) THEN "level" ELSE "none", w>>
                             ELSE <<Glyph(t, a, b), 1>>
    IN IF Len(e.res) # 2 * m + 1 \/ \E p \in 1..Len(e.res) : Len(e.res[p]) # 2 * n + 1 THEN "size_of_the_drawing"
       ELSE Ck("drawing", \A p \in 1..(2 * m + 1) : \A q \in 1..(2 * n + 1) : e.res[p][q] = Token(p - 1, q - 1))

(* several texts side by side: line by line, as many lines as all of them have; nothing where both sides are blank *)
Blanks == {"", " ", "  ", "   ", "    "}
RECURSIVE SideBySide(_)
SideBySide(T) == IF Len(T) = 1 THEN T[1] ELSE LET R == SideBySide(Tail(T)) IN
    [k \in 1..(IF Len(T[1]) < Len(R) THEN Len(T[1]) ELSE Len(R)) |-> IF T[1][k] \in Blanks /\ R[k] \in Blanks THEN "" ELSE T[1][k] \o "  ->  " \o R[k]]

OpVerdict(e) ==
    IF e.exc # "" THEN "raised"
    ELSE CASE e.op = "all" -> ListVerdict(e, AllVst(e.n, e.mu, e.nu, e.dp))
           [] e.op = "inter" -> IF Size(e.mu) - Size(e.nu) <= 4 THEN ListVerdict(e, AllInter(e.mu, e.nu))
                                ELSE IF \E k \in 1..Len(e.res) : ~VstOk(e.res[k], e.mu, e.nu) \/ ~VInterstandard(e.res[k]) THEN "listed_but_not_in_the_class"
                                ELSE Ck("wrong_number_listed", NoDup(e.res) /\ Len(e.res) = Cardinality(AllVst(2, e.mu, e.nu, TRUE)))
           [] e.op = "steps" -> LET v == VFirstBad(e, StepVerdict) IN IF v # "" THEN v ELSE HistoryVerdict(e)
           [] e.op = "stages" -> VFirstBad(e, StageVerdict)
           [] e.op = "back" -> VFirstBad(e, BackVerdict)
           [] e.op = "pairs" -> PairsVerdict(e)
           [] e.op = "picture" -> PictureVerdict(e)
           [] e.op = "combine" -> Ck("texts_side_by_side", e.res = SideBySide(e.texts))
           [] e.op = "info" -> InfoVerdict(e)
           [] OTHER -> "unknown_event"

Init == l = 1 /\ trans = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "session" THEN trans' = {}
           ELSE /\ Report(l, OpVerdict(e))
                /\ trans' = IF e.op = "steps" /\ e.exc = "" /\ Len(e.res) = Len(e.src) THEN trans \cup Pairs(e) ELSE trans
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
