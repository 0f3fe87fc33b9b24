----------------------------- MODULE WordsModel -----------------------------
(* Words grown one letter at a time; a strand state follows the wiring       *)
(* diagram as the 0-Hecke-free product of the letters.                       *)
EXTENDS Words
CONSTANTS N, L
LOCAL HW == INSTANCE HeckeWords
VARIABLES w, strands
vars == <<w, strands>>
Init == w = <<>> /\ strands = [k \in 1..(N + 1) |-> k]
Next == /\ Len(w) < L
        /\ \E i \in 1..N : /\ w' = Append(w, i)
                           /\ strands' = [strands EXCEPT ![i] = strands[i + 1], ![i + 1] = strands[i]]
Spec == Init /\ [][Next]_vars
Names == {"inc", "dec", "winc", "wdec", "uni", "runi", "luni", "wuni", "span", "one"}
Statistics == /\ Cardinality(DescentSet(w)) + WeakAscents(w) = (IF w = <<>> THEN 0 ELSE Len(w) - 1)
              /\ PeaksOf(w) \in (IF w = <<>> THEN 0 ELSE 1)..(Len(w) + 1)
(* a strictly unimodal word turns at its least letter, which belongs to either side when it occurs once *)
Least == Cardinality({i \in 1..Len(w) : w[i] = MinSet(SetOf(w), 1000)})
Turns == /\ Zeta("uni", w) \in {0, 1, 2} /\ (w # <<>> /\ Zeta("uni", w) > 0 => Zeta("uni", w) = 3 - Least)
         /\ (Decr(w) => Zeta("dec", w) = 1) /\ (WIncr(w) <=> Zeta("winc", w) = 1)
         /\ Zeta("wuni", w) >= Zeta("uni", w)
(* block sums: every key is a composition of the length; the weight 1 gives all compositions;
   the strict indicators give the compositions finer than the runs *)
Blocks == \A nm \in Names : LET S == Cuts(nm, w) IN
    /\ \A c \in S : SumOfSeq(c[1]) = Len(w) /\ c[2] # 0
    /\ Cardinality({c[1] : c \in S}) = Cardinality(S)
RECURSIVE Starts(_, _)
Starts(c, k) == IF k = 0 THEN {} ELSE {SumOfSeq(SubSeq(c, 1, k))} \cup Starts(c, k - 1)
Refine == LET need == {i \in 1..(Len(w) - 1) : w[i] <= w[i + 1]}
          IN /\ {c[1] : c \in Cuts("dec", w)} = {c[1] : c \in {x \in Cuts("one", w) : need \subseteq Starts(x[1], Len(x[1]))}}
             /\ Cardinality(Cuts("one", w)) = (IF w = <<>> THEN 1 ELSE 2^(Len(w) - 1))
Strands == HW!TrimW(strands) = HW!Word(w)
Lines == Len(DiagramLines(w, <<>>, Commutations(w))) = 4 * Len(w) + 5
=============================================================================
