--------------------------- MODULE InsertionModel ---------------------------
(* Every insertion of every word of length at most L over 1..N, one bump per *)
(* transition.                                                               *)
EXTENDS Insertion, Shapes
CONSTANTS N, L, M
VARIABLES kind, w, s, q, path
vars == <<kind, w, s, q, path>>
Alg == IF kind = "hecke" THEN "hecke" ELSE "sp"
Kinds == {"hecke", "orth", "sp"}
Letters == IF kind = "orth" THEN {2 * i : i \in 1..N} ELSE 1..N
Init == kind \in Kinds /\ w = <<>> /\ s = Done(EmptyT) /\ q = {} /\ path = <<>>
Begin(a) == /\ s.dir = "done" /\ Len(w) < L
            /\ (Alg = "sp" => IsSymplectic(Append(w, a)))
            /\ w' = Append(w, a) /\ s' = StartIns(s.t, a) /\ path' = <<>> /\ UNCHANGED <<kind, q>>
Bump == /\ s.dir # "done"
        /\ LET n == BumpStep(Alg, s) p == Append(path, n)
           IN /\ s' = n[1]
              /\ IF n[1].dir = "done" THEN LET r == RecordOf(Alg, p) IN q' = q \cup {<<r[1], IF r[2] THEN -Len(w) ELSE Len(w)>>} /\ path' = <<>>
                 ELSE q' = q /\ path' = p
        /\ UNCHANGED <<kind, w>>
Next == (\E a \in Letters : Begin(a)) \/ Bump
Spec == Init /\ [][Next]_vars

(* a bump never destroys the increasing rows and columns *)
StaysIncreasing == Increasing(s.t)
IsDone == s.dir = "done"
ShapeOk == IsShape(DOMAIN s.t, Alg = "sp") \/ s.t = EmptyT
Same == IsDone => /\ {x[1] : x \in q} = DOMAIN s.t
                  /\ {AbsV(x[2]) : x \in q} = 1..Len(w) /\ Cardinality(q) = Len(w)
RecordValid == IsDone => ValidQ(QWith(q, [i \in 1..Len(w) |-> i]), FALSE, Alg = "sp")
ClassKept == IsDone => LET f(a) == IF kind = "orth" THEN [i \in 1..Len(a) |-> a[i] \div 2] ELSE a
                       IN ClassOf(kind, IF N % 2 = 1 THEN N + 1 ELSE N + 2, f(w)) = ClassOf(kind, IF N % 2 = 1 THEN N + 1 ELSE N + 2, f(ReadingWord(s.t)))
BatchAgrees == IsDone => Insert(Alg, w) = [p |-> s.t, q |-> q]
Terminates == Len(path) <= 2 * (Len(w) + 2)

(* ---- the correspondence is one to one, checked by exhausting small sizes ---- *)
WordsLen(k) == [1..k -> 1..N]
Dom(kd, k) == {a \in WordsLen(k) : kd = "sp" => IsSymplectic(a)}
Recs(k) == {r \in [1..k -> 1..M] : \A i \in 1..(k - 1) : r[i] <= r[i + 1]}
Image(kd, k, multi) == {Result(kd, x[1], x[2], multi) : x \in {y \in Dom(kd, k) \X Recs(k) : RecordOk(y[1], y[2], multi)}}
SourceCount(kd, k, multi) == Cardinality({y \in Dom(kd, k) \X Recs(k) : RecordOk(y[1], y[2], multi)})
RECURSIVE IncFrom(_, _, _)
IncFrom(B, k, P) == IF k > Len(B) THEN P
    ELSE IncFrom(B, k + 1, UNION {{Put(t, B[k], v) : v \in {x \in 1..N : Fits(t, <<B[k][1], B[k][2] - 1>>, x) /\ Fits(t, <<B[k][1] - 1, B[k][2]>>, x)}} : t \in P})
BoxSeq(mu, sh) == SortSeq(FoldSet(LAMBDA b, acc : Append(acc, b), <<>>, Diagram(mu, sh)), LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
IncTabs(mu, sh) == IncFrom(BoxSeq(mu, sh), 1, {EmptyT})
(* standard set-valued recording tableaux with k entries *)
RECURSIVE QStd(_, _, _)
QStd(mu, k, sh) ==
    IF mu = <<>> THEN IF k = 0 THEN {{}} ELSE {}
    ELSE IF k <= 0 THEN {}
    ELSE UNION {LET b == <<i, mu[i] + Off(sh, i)>>
                    signs == IF sh /\ b[1] # b[2] THEN {k, -k} ELSE {k}
                IN {x \cup {<<b, v>>} : x \in QStd(RemoveBox(mu, i), k - 1, sh) \cup QStd(mu, k - 1, sh), v \in signs}
                    : i \in {x \in 1..Len(mu) : CanRemove(mu, x, sh)}}
Pairs(kd, k, multi) ==
    LET sh == kd # "hecke"
    IN UNION {UNION {{<<t, f>> : t \in {u \in IncTabs(mu, sh) : kd = "sp" => IsSymplectic(ReadingWord(u))},
                                 f \in {g \in {QWith(z, r) : z \in QStd(mu, k, sh), r \in Recs(k)} : ValidQ(g, multi, sh)}}
                : mu \in {p \in PartsOf(m, m, m) : sh => IsStrict(p)}} : m \in 0..k}
Bijective == w = <<>> => \A k \in 0..L : \A multi \in BOOLEAN :
    LET im == Image(kind, k, multi) IN Cardinality(im) = SourceCount(kind, k, multi) /\ im = Pairs(kind, k, multi)
=============================================================================
