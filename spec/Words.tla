-------------------------------- MODULE Words --------------------------------
(* Words of integers: statistics, block weights (zeta functions), the sum    *)
(* over all ways of cutting a word into blocks, and wiring diagrams.         *)
EXTENDS Fold, TLC
LOCAL HW == INSTANCE HeckeWords

DescentSet(a) == {i \in 1..(Len(a) - 1) : a[i] > a[i + 1]}
WeakAscents(a) == HW!Asc(a)
PeaksOf(a) == HW!Peaks(a)
Incr(a) == \A i \in 1..(Len(a) - 1) : a[i] < a[i + 1]
Decr(a) == \A i \in 1..(Len(a) - 1) : a[i] > a[i + 1]
WIncr(a) == \A i \in 1..(Len(a) - 1) : a[i] <= a[i + 1]
WDecr(a) == \A i \in 1..(Len(a) - 1) : a[i] >= a[i + 1]
B2I(b) == IF b THEN 1 ELSE 0
Pre(a, i) == SubSeq(a, 1, i)
Post(a, i) == SubSeq(a, i + 1, Len(a))
(* a block weight per name; "plain" ones are indicator functions, the        *)
(* unimodal ones count the places where the block turns                      *)
Zeta(name, a) ==
    CASE name = "inc" -> B2I(Incr(a)) [] name = "dec" -> B2I(Decr(a))
      [] name = "winc" -> B2I(WIncr(a)) [] name = "wdec" -> B2I(WDecr(a))
      [] name = "uni" -> Cardinality({i \in 0..Len(a) : Decr(Pre(a, i)) /\ Incr(Post(a, i))})
      [] name = "runi" -> Cardinality({i \in 0..Len(a) : Decr(Pre(a, i)) /\ WIncr(Post(a, i))})
      [] name = "luni" -> Cardinality({i \in 0..Len(a) : WDecr(Pre(a, i)) /\ Incr(Post(a, i))})
      [] name = "wuni" -> Cardinality({i \in 0..Len(a) : WDecr(Pre(a, i)) /\ WIncr(Post(a, i))})
      [] name = "span" -> IF a = <<>> THEN 0 ELSE a[1] - 2 * a[Len(a)] + Len(a)       \* an arbitrary integer weight
      [] name = "one" -> 1
(* the function taking a composition of Len(a) to the product of the weights of its blocks *)
RECURSIVE Cuts(_, _)
Cuts(name, a) ==
    IF a = <<>> THEN {<<<<>>, 1>>}
    ELSE UNION {LET z == Zeta(name, Pre(a, i))
                IN IF z = 0 THEN {} ELSE {<<<<i>> \o c[1], z * c[2]>> : c \in Cuts(name, Post(a, i))} : i \in 1..Len(a)}

(* ---- wiring diagrams: lines of text, read off level by level ---- *)
RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE s \o Rep(s, n - 1)
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE Head(s) \o Join(Tail(s))
RECURSIVE JoinWith(_, _)
JoinWith(s, x) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o x \o JoinWith(Tail(s), x)
Wires(w) == MaxSet({w[k] : k \in 1..Len(w)}, 0) + 1
Idents(n) == [k \in 1..n |-> k]
(* C: positions in the word where the letter commutes with the involution so far *)
CommAt(w, k) == LET z == FoldLeft(HW!IStepPlain, HW!Id, SubSeq(w, 1, k - 1)) IN HW!Conj(z, w[k]) = z
Commutations(w) == {k \in 1..Len(w) : CommAt(w, k)}
Blank == "    "
Level(w, labels, C, k, n) ==
    LET i == w[k]
        gone == UNION {{w[j], w[j] + 1} : j \in {x \in C : x > k}}
        tail == ToString(k) \o (IF labels = <<>> THEN "" ELSE ": " \o labels[k])
        Base(r, p) == IF p \in gone THEN Blank ELSE IF r = 4 THEN "#   " ELSE "|   "
        Cell(r, p) == IF i > 0 /\ k \in C /\ p = i THEN IF r = 4 THEN "(---)" ELSE "|   "
                      ELSE IF i > 0 /\ k \in C /\ p = i + 1 THEN IF r = 4 THEN "   " ELSE "|   "
                      ELSE IF i > 0 /\ k \notin C /\ p = i /\ r < 4 THEN CASE r = 1 -> " \\ /" [] r = 2 -> "  X " [] r = 3 -> " / \\"
                      ELSE IF i > 0 /\ k \notin C /\ p = i + 1 /\ r < 4 THEN Blank
                      ELSE Base(r, p)
    IN [r \in 1..4 |-> Join([p \in 1..n |-> Cell(r, p)]) \o (IF r = 2 THEN tail ELSE "")]
RECURSIVE Levels(_, _, _, _, _)
Levels(w, labels, C, k, n) == IF k = 0 THEN <<>> ELSE Level(w, labels, C, k, n) \o Levels(w, labels, C, k - 1, n)
Numbers(n) == JoinWith([p \in 1..n |-> ToString(p)], "   ")
StrandLines(w, labels, C, n) == <<"", Rep("#   ", n)>> \o Levels(w, labels, C, Len(w), n)
DiagramLines(w, labels, C) == StrandLines(w, labels, C, Wires(w)) \o <<"", Numbers(Wires(w)), "">>
(* fpf diagrams have an even number of strands; their caps below the strands are not specified *)
FpfOk(w, labels, got) ==
    LET n == Wires(w) + (Wires(w) % 2) top == StrandLines(w, labels, {}, n)
    IN /\ Len(got) >= Len(top) + 2 /\ SubSeq(got, 1, Len(top)) = top
       /\ got[Len(got) - 1] = Numbers(n) /\ got[Len(got)] = ""
=============================================================================
