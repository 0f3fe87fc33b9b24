-------------------------------- MODULE Fold --------------------------------
(* Small folds used by all specifications. *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL FSE == INSTANCE FiniteSetsExt
LOCAL SQE == INSTANCE SequencesExt
FoldSet(op(_, _), base, S) == FSE!FoldSet(op, base, S)
FoldLeft(op(_, _), base, s) == SQE!FoldLeft(op, base, s)

SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
SumOfSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
MaxSet(S, d) == FoldSet(LAMBDA x, acc : IF x > acc THEN x ELSE acc, d, S)
MinSet(S, d) == FoldSet(LAMBDA x, acc : IF x < acc THEN x ELSE acc, d, S)
MapOver(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]
SetOf(s) == {s[i] : i \in 1..Len(s)}
AbsV(x) == IF x < 0 THEN -x ELSE x
=============================================================================
