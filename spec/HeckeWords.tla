----------------------------- MODULE HeckeWords -----------------------------
(* The sets of words attached to a (signed) permutation, given by walks:     *)
(*   kind "red"   reduced words          w -> w s_i, length must rise        *)
(*   kind "hecke" Hecke words            w -> w o s_i                        *)
(*   kind "inv"   involution words       z -> s_i o z o s_i, must rise       *)
(*   kind "ihecke" involution Hecke words  same walk, staying put allowed    *)
(*   kind "fpf"   fpf involution words   from (1 2)(3 4)..., must rise       *)
(*   kind "shecke" symplectic Hecke words  as fpf, staying put allowed, a    *)
(*                 generator with z(i) = i + 1 forbidden                     *)
(* n is the rank of the fpf start (ignored for other kinds).                 *)
EXTENDS Perms

Start(kind, n) == IF kind \in {"fpf", "shecke"} THEN MinFpf(n) ELSE Id
CanStep(kind, w, i) ==
    CASE kind \in {"red", "inv"} -> i \notin RDes(w)
      [] kind = "fpf" -> i \notin RDes(w)
      [] kind = "shecke" -> FpfAllowed(w, i)
      [] OTHER -> TRUE
DoStep(kind, w, i) ==
    CASE kind = "red" -> Step(w, i)
      [] kind = "hecke" -> HStep(w, i)
      [] kind \in {"inv", "ihecke"} -> IStep(w, i)
      [] kind \in {"fpf", "shecke"} -> FStep(w, i)
(* the word's element, or <<0>> when some step is forbidden *)
None == <<0>>
Value(kind, n, a) == FoldLeft(LAMBDA w, i : IF w = None THEN None ELSE IF CanStep(kind, w, i) THEN DoStep(kind, w, i) ELSE None,
                              Start(kind, n), a)
(* predecessors of an element under letter i *)
Preds(kind, w, i) ==
    IF i \notin RDes(w) THEN {}
    ELSE CASE kind = "red" -> {Step(w, i)}
           [] kind = "hecke" -> {Step(w, i), w}
           [] kind = "inv" -> {IF Conj(w, i) = w THEN Step(w, i) ELSE Conj(w, i)}
           [] kind = "ihecke" -> {IF Conj(w, i) = w THEN Step(w, i) ELSE Conj(w, i), w}
           [] kind = "fpf" -> IF Act(w, i) = i + 1 THEN {} ELSE {Conj(w, i)}
           [] kind = "shecke" -> IF Act(w, i) = i + 1 THEN {} ELSE {Conj(w, i), w}
(* number of words of length exactly k, by elements: a table built by backward steps *)
RECURSIVE CountWords(_, _, _, _)
CountWords(kind, n, w, k) ==
    IF k = 0 THEN IF w = Start(kind, n) THEN 1 ELSE 0
    ELSE SumOver(RDes(w), LAMBDA i : SumOver(Preds(kind, w, i), LAMBDA v : CountWords(kind, n, v, k - 1)))
(* the same counts by forward dynamic programming: function from elements to numbers *)
NextTable(kind, T, gens) ==
    LET moves == {<<v, i>> \in (DOMAIN T) \X gens : CanStep(kind, v, i)}
        img == {DoStep(kind, m[1], m[2]) : m \in moves}
    IN [w \in img |-> SumOver({m \in moves : DoStep(kind, m[1], m[2]) = w}, LAMBDA m : T[m[1]])]
RECURSIVE Table(_, _, _, _)
Table(kind, n, gens, k) == IF k = 0 THEN [w \in {Start(kind, n)} |-> 1] ELSE NextTable(kind, Table(kind, n, gens, k - 1), gens)
(* the length of every reduced word of the kind *)
RLen(kind, w) == CASE kind = "red" -> Length(w) [] kind = "inv" -> InvLength(w) [] kind = "fpf" -> FpfLength(w)
TotalWords(kind, n, w, bound) == SumOver(0..bound, LAMBDA k : CountWords(kind, n, w, k))

(* ---- statistics limiting the enumerations ----                            *)
(* weak ascents; and the greedy number of peaks: cut after the first peak,   *)
(* count again; a nonempty word without peaks counts 1                       *)
Asc(a) == Cardinality({i \in 1..(Len(a) - 1) : a[i] <= a[i + 1]})
PeakPos(a) == {i \in 2..(Len(a) - 1) : a[i - 1] <= a[i] /\ a[i] >= a[i + 1]}
RECURSIVE Peaks(_)
Peaks(a) == IF a = <<>> THEN 0
            ELSE IF PeakPos(a) = {} THEN 1
            ELSE LET p == MinSet(PeakPos(a), Len(a)) IN 1 + Peaks(SubSeq(a, p + 1, Len(a)))
StatOk(kind, a, stat) == IF stat < 0 THEN TRUE
                         ELSE IF kind \in {"ihecke", "inv"} THEN Peaks(a) <= stat ELSE Asc(a) < stat \/ a = <<>>
Gens(kind, n) == IF kind \in {"ihecke", "inv"} THEN 0..(n - 1) ELSE 1..(n - 1)
(* all words of length k with their elements; the statistics never decrease  *)
(* when letters are appended, so prefixes can be pruned                      *)
NextLevel(kind, n, stat, L) ==
    {<<DoStep(kind, p[1][1], p[2]), Append(p[1][2], p[2])>> :
        p \in {q \in L \X Gens(kind, n) : CanStep(kind, q[1][1], q[2]) /\ StatOk(kind, Append(q[1][2], q[2]), stat)}}
RECURSIVE WLevel(_, _, _, _)
WLevel(kind, n, stat, k) == IF k = 0 THEN {<<Start(kind, n), <<>>>>} ELSE NextLevel(kind, n, stat, WLevel(kind, n, stat, k - 1))
(* the levels 0..bound as a sequence, stopping before the first empty one; bound < 0 means no bound *)
RECURSIVE GrowLevels(_, _, _, _, _)
GrowLevels(kind, n, stat, bound, Ls) ==
    IF bound = Len(Ls) - 1 THEN Ls
    ELSE LET nx == NextLevel(kind, n, stat, Ls[Len(Ls)])
         IN IF nx = {} THEN Ls ELSE GrowLevels(kind, n, stat, bound, Append(Ls, nx))
WLevels(kind, n, stat, bound) == GrowLevels(kind, n, stat, bound, <<WLevel(kind, n, stat, 0)>>)
WordsOf(Ls, w) == {p[2] : p \in {q \in UNION SetOf(Ls) : q[1] = w}}
=============================================================================
