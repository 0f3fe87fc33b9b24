---------------------------- MODULE UnprimeModel -----------------------------
(* Design model: every tableau of every strict shape up to MaxBoxes boxes     *)
(* with entries up to N is unprimed one column insertion at a time.           *)
EXTENDS Unprime
CONSTANTS MaxBoxes, N
VARIABLES start, tab, row, fly, col
vars == <<start, tab, row, fly, col>>
Opt == [sh |-> TRUE, marked |-> TRUE, setv |-> TRUE, diag |-> "any", rpp |-> FALSE, grp |-> FALSE]
SortedRanks(V) == SortSeq(FoldSet(LAMBDA r, acc : Append(acc, r), <<>>, V), LAMBDA a, b : a < b)
AsTab(mu, p) == LET B == Boxes(mu, <<>>, TRUE) IN [b \in {B[k] : k \in 1..Len(B)} |-> SortedRanks(p[At(B, b)])]
StrictShapes == {mu \in UNION {[1..k -> 1..MaxBoxes] : k \in 1..3} : Size(mu) <= MaxBoxes /\ \A i \in 1..(Len(mu) - 1) : mu[i] > mu[i + 1]}
Init == \E mu \in StrictShapes : \E p \in Fillings(Opt, N, mu, <<>>) :
            start = AsTab(mu, p) /\ tab = start /\ row = 1 /\ fly = <<>> /\ col = 0
Open(u) == /\ fly = <<>> /\ <<row, row>> \in DOMAIN tab /\ u = tab[<<row, row>>]
Skip == \E u \in {tab[b] : b \in DOMAIN tab} : Open(u) /\ Tame(u) /\ row' = row + 1 /\ UNCHANGED <<start, tab, fly, col>>
Split == \E u \in {tab[b] : b \in DOMAIN tab} : Open(u) /\ ~Tame(u) /\ tab' = Put(tab, <<row, row>>, StayPart(u)) /\ fly' = MovePart(u)
            /\ col' = row + 1 /\ UNCHANGED <<start, row>>
Insert == /\ fly # <<>>
          /\ LET r == ColumnInsert(tab, fly, col) IN tab' = r[1] /\ fly' = r[2]
          /\ row' = IF fly' = <<>> THEN row + 1 ELSE row
          /\ col' = col + 1 /\ UNCHANGED start
Next == Skip \/ Split \/ Insert
Spec == Init /\ [][Next]_vars
Done == fly = <<>> /\ <<row, row>> \notin DOMAIN tab
(* no letter is lost or created on the way *)
WeightKept == \A k \in 1..N : SetWeight(tab, k) + Len(SelectSeq(fly, LAMBDA r : AbsOf(r) = k)) = SetWeight(start, k)
FlyIncreasing == WeaklyUp(fly)
StillTableau == fly = <<>> => IsShifted(tab) /\ SemiStd(tab)
TopRowsTame == \A i \in 1..(row - 1) : Tame(tab[<<i, i>>])
AtTheEnd == Done => DiagTame(tab) /\ Grows(start, tab) /\ (DiagTame(start) => tab = start) /\ tab = UnprimeOf(start)
NeverFar == col <= MaxBoxes + 2
=============================================================================
