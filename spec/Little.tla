------------------------------- MODULE Little -------------------------------
(* Little bumps: a nearly reduced word with one marked letter.  A push       *)
(* raises the marked letter; if the word is then not reduced the mark moves  *)
(* to the other letter whose removal leaves the same element.  kind is       *)
(* "red", "inv" or "fpf".                                                    *)
EXTENDS Atoms, HeckeWords
RECURSIVE PlainI(_, _)
PlainI(z, a) == IF a = <<>> THEN z ELSE PlainI(IStepPlain(z, a[1]), Tail(a))
RECURSIVE PlainF(_, _)
PlainF(z, a) == IF a = <<>> THEN z ELSE PlainF(Conj(z, a[1]), Tail(a))
Even(k) == k + (k % 2)
LRank(a) == IF a = <<>> THEN 0 ELSE Even(1 + MaxSet(SetOf(a), 0))
LVal(kind, a) == CASE kind = "red" -> Word(a) [] kind = "inv" -> PlainI(Id, a) [] kind = "fpf" -> FTrim(PlainF(MinFpf(LRank(a)), a))
LLen(kind, w) == CASE kind = "red" -> Length(w) [] kind = "inv" -> InvLength(w) [] kind = "fpf" -> FpfLength(w)
LReduced(kind, a) == LLen(kind, LVal(kind, a)) = Len(a)
Del(a, i) == [k \in 1..(Len(a) - 1) |-> IF k < i THEN a[k] ELSE a[k + 1]]
Raise(a, i) == [a EXCEPT ![i] = @ + 1]
LDescs(a) == {i \in 1..(Len(a) - 1) : a[i] > a[i + 1]}
(* result <<new word, new mark>>, mark 0 when reduced *)
Others(kind, new, i, v) == {j \in 1..Len(new) : j # i /\ LVal(kind, Del(new, j)) = v}
Push(kind, a, i) ==
    LET new == Raise(a, i) IN
    IF LReduced(kind, new) THEN <<new, 0>>
    ELSE IF kind = "fpf" /\ LLen(kind, LVal(kind, new)) = Len(new) - 1 THEN <<new, i>>
    ELSE <<new, MinSet(Others(kind, new, i, LVal(kind, Del(a, i))), 1000)>>
RECURSIVE PushAll(_, _, _)
PushAll(kind, a, i) == IF i = 0 \/ i = 1000 THEN a ELSE LET p == Push(kind, a, i) IN PushAll(kind, p[1], p[2])
Marks(kind, a, y) == {i \in 1..Len(a) : LReduced(kind, Del(a, i)) /\ LVal(kind, Del(a, i)) = y}
Bump(kind, a, y) == LET M == Marks(kind, a, y) IN IF M = {} THEN a ELSE PushAll(kind, a, MinSet(M, 1000))
(* the element below given by a pair of indices: {} or one element *)
Below(kind, w, j, k) ==
    LET t == Transp(j, k) IN
    CASE kind = "red" -> {v \in {Mul(w, t)} : Length(v) = Length(w) - 1}
      [] kind = "inv" -> {z \in {Dem(Inv(x), x) : x \in {u \in {Mul(a, t) : a \in AtomsOf(w)} : Length(u) = InvLength(w) - 1}} : InvLength(z) = InvLength(w) - 1}
      [] kind = "fpf" -> {z \in {FTrim(TrimW(Mul(Inv(x), Mul(MinFpf(Len(w) + 2 + Even(k)), x)))) : x \in {u \in {Mul(a, t) : a \in FpfAtomsOf(w)} : Length(u) = FpfLength(w) - 1}} :
                            FpfLength(z) = FpfLength(w) - 1}
=============================================================================
