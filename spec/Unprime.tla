------------------------------- MODULE Unprime -------------------------------
(* Removing primes from the main diagonal of a set-valued shifted tableau by  *)
(* column insertion of sets.  A tableau is a function from boxes <<i, j>> to  *)
(* increasing sequences of ranks (k has rank 2k, the primed k' has 2k - 1).   *)
(*                                                                            *)
(* The system has a tableau, a row (the diagonal box under treatment), a set  *)
(* of letters in flight and the column it goes into next.                     *)
EXTENDS Tabs
Last(s) == s[Len(s)]
MaxR(t, b) == IF b \in DOMAIN t THEN Last(t[b]) ELSE 0
Odd(r) == r % 2 = 1
Put(t, b, s) == [c \in (DOMAIN t) \cup {b} |-> IF c = b THEN s ELSE t[c]]
Height(t, c) == MaxSet({i \in 1..(1 + Cardinality(DOMAIN t)) : \A k \in 1..i : <<k, c>> \in DOMAIN t}, 0)

(* ---- one column ---- *)
(* v stops at the first entry that is larger (or equal, for an unprimed v); below all boxes otherwise *)
Stops(v, x) == v < x \/ (v = x /\ ~Odd(v))
RowOf(col, v) == MinSet({i \in 1..Len(col) : Stops(v, Last(col[i]))}, Len(col) + 1)
PosIn(box, v) == MinSet({k \in 1..Len(box) : Stops(v, box[k])}, Len(box) + 1)
(* the box to the left in the next row must stay compatible *)
Fits(bound, u) == bound = 0 \/ u < bound \/ (u = bound /\ Odd(u))
ColSeq(t, c) == [i \in 1..Height(t, c) |-> t[<<i, c>>]]
(* treat the rows from the bottom: state <<col, out>> *)
RECURSIVE InsRows(_, _, _, _, _, _)
InsRows(t, c, orig, S, i, st) ==
    IF i = 0 THEN st
    ELSE LET mine == SelectSeq(S, LAMBDA v : RowOf(orig, v) = i)
             col == st[1]
             out == st[2]
         IN IF mine = <<>> THEN InsRows(t, c, orig, S, i - 1, st)
            ELSE IF i = Len(orig) + 1 THEN InsRows(t, c, orig, S, i - 1, <<Append(col, mine), out>>)
            ELSE LET p == PosIn(orig[i], mine[1])
                     b == orig[i][p]
                     kept == <<mine[1]>> \o SelectSeq(Tail(mine), LAMBDA u : u <= b /\ Fits(MaxR(t, <<i + 1, c - 1>>), u))
                     left == SubSeq(mine, Len(kept) + 1, Len(mine))
                     col1 == [col EXCEPT ![i] = SubSeq(orig[i], 1, p - 1) \o kept]
                     col2 == IF left = <<>> THEN col1
                             ELSE IF i = Len(col1) THEN Append(col1, left)
                             ELSE [col1 EXCEPT ![i + 1] = left \o @]
                 IN InsRows(t, c, orig, S, i - 1, <<col2, SubSeq(orig[i], p, Len(orig[i])) \o out>>)
(* <<tableau, letters pushed out to the next column>> *)
ColumnInsert(t, S, c) ==
    IF Height(t, c) = 0 THEN <<Put(t, <<1, c>>, S), <<>>>>
    ELSE LET orig == ColSeq(t, c)
             r == TLCEval(InsRows(t, c, orig, S, Len(orig) + 1, <<orig, <<>>>>))
         IN <<[b \in (DOMAIN t) \cup {<<i, c>> : i \in 1..Len(r[1])} |-> IF b[2] = c /\ b[1] <= Len(r[1]) THEN r[1][b[1]] ELSE t[b]], r[2]>>

(* ---- the diagonal ---- *)
Primes(u) == SelectSeq(u, Odd)
Plain(u) == SelectSeq(u, LAMBDA r : ~Odd(r))
(* a diagonal box is left alone when it has one letter, no prime, or just its largest letter primed *)
Tame(u) == Len(u) = 1 \/ Primes(u) = <<>> \/ (Len(Primes(u)) = 1 /\ Odd(Last(u)))
StayPart(u) == LET v == Primes(u)[1] + 1 IN Append(SelectSeq(Plain(u), LAMBDA x : x < v), v)
MovePart(u) == LET v == Primes(u)[1] IN SelectSeq(u, LAMBDA x : x > v)
RECURSIVE Carry(_, _, _)
Carry(t, S, c) == IF S = <<>> THEN t ELSE LET r == TLCEval(ColumnInsert(t, S, c)) IN Carry(r[1], r[2], c + 1)
RECURSIVE UnprimeFrom(_, _)
UnprimeFrom(t, i) == IF <<i, i>> \notin DOMAIN t THEN t
    ELSE LET u == t[<<i, i>>] IN
         IF Tame(u) THEN UnprimeFrom(t, i + 1)
         ELSE UnprimeFrom(TLCEval(Carry(Put(t, <<i, i>>, StayPart(u)), MovePart(u), i + 1)), i + 1)
UnprimeOf(t) == UnprimeFrom(t, 1)

(* ---- what is promised ---- *)
WeaklyUp(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]
Increasing(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
SetWeight(t, k) == SumOver(DOMAIN t, LAMBDA b : Len(SelectSeq(t[b], LAMBDA r : AbsOf(r) = k)))
RowLen(t, i) == Cardinality({b \in DOMAIN t : b[1] = i})
NumRows(t) == Cardinality({b[1] : b \in DOMAIN t})
IsShifted(t) == /\ \A b \in DOMAIN t : b[2] >= b[1] /\ (b[2] > b[1] => <<b[1], b[2] - 1>> \in DOMAIN t) /\ (b[1] > 1 => <<b[1] - 1, b[2]>> \in DOMAIN t)
SemiStd(t) == \A b \in DOMAIN t :
    /\ t[b] # <<>> /\ WeaklyUp(t[b])
    /\ (<<b[1], b[2] + 1>> \in DOMAIN t => LET m == Last(t[b]) k == t[<<b[1], b[2] + 1>>][1] IN m < k \/ (m = k /\ ~Odd(m)))
    /\ (<<b[1] + 1, b[2]>> \in DOMAIN t => LET m == Last(t[b]) k == t[<<b[1] + 1, b[2]>>][1] IN m < k \/ (m = k /\ Odd(m)))
DiagTame(t) == \A b \in DOMAIN t : b[1] = b[2] => Tame(t[b])
IsSetValued(t) == \A b \in DOMAIN t : Increasing(t[b])
Grows(t, u) == NumRows(u) = NumRows(t) /\ (DOMAIN t) \subseteq DOMAIN u
GrowsByStrip(t, u) == NumRows(u) = NumRows(t) /\ (DOMAIN t) \subseteq DOMAIN u /\ \A i \in 1..NumRows(t) : RowLen(u, i) - RowLen(t, i) \in {0, 1}
=============================================================================
