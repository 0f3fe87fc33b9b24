--------------------------- MODULE HeckeWordsModel ---------------------------
(* Design model of the word sets: walks of every kind of rank up to N, with  *)
(* the facts the trace specification relies on.                              *)
EXTENDS HeckeWords
CONSTANTS N, K, KINDS
VARIABLES kind, n, word, val
vars == <<kind, n, word, val>>
Init == /\ kind \in KINDS /\ n \in 0..N /\ (kind \in {"fpf", "shecke"} => n % 2 = 0)
        /\ word = <<>> /\ val = Start(kind, n)
Next == /\ Len(word) < K
        /\ \E i \in Gens(kind, n) : CanStep(kind, val, i) /\ word' = Append(word, i) /\ val' = DoStep(kind, val, i)
        /\ UNCHANGED <<kind, n>>
Spec == Init /\ [][Next]_vars
ValueOk == Value(kind, n, word) = val
(* each kind keeps its family *)
Family == CASE kind \in {"red", "hecke"} -> IsElt(val)
            [] kind \in {"inv", "ihecke"} -> IsElt(val) /\ IsInv(val)
            [] OTHER -> IsElt(val) /\ IsFpf(val) /\ Len(val) = n
(* reduced kinds: the length is the number of letters *)
Reduced == kind \in {"red", "inv", "fpf"} => RLen(kind, val) = Len(word)
(* the backward counts agree with explicit enumeration of all words *)
Counts == CountWords(kind, n, val, Len(word)) = Cardinality({p \in WLevel(kind, n, -1, Len(word)) : p[1] = val})
PredsOk == \A i \in Gens(kind, n) : \A v \in Preds(kind, val, i) : CanStep(kind, v, i) /\ DoStep(kind, v, i) = val
(* a Hecke word never has fewer letters than the reduced words *)
AtLeast == Len(word) >= (CASE kind \in {"red", "hecke"} -> Length(val) [] kind \in {"inv", "ihecke"} -> InvLength(val) [] OTHER -> FpfLength(val))
(* the statistics are monotone in the word *)
Monotone == word # <<>> => LET p == SubSeq(word, 1, Len(word) - 1) IN Asc(p) <= Asc(word) /\ Peaks(p) <= Peaks(word)
=============================================================================
