------------------------------- MODULE Perms --------------------------------
(* Signed permutations of the integers with finitely many moved points: an   *)
(* element is its one-line word <<w(1), ..., w(n)>> with trailing fixed      *)
(* points removed.  Generator 0 is the sign change of 1, generator i > 0     *)
(* exchanges i and i + 1.                                                    *)
EXTENDS Fold, TLC

RECURSIVE TrimW(_)
TrimW(s) == IF s # <<>> /\ s[Len(s)] = Len(s) THEN TrimW(SubSeq(s, 1, Len(s) - 1)) ELSE s
IsSigned(s) == /\ {AbsV(s[i]) : i \in 1..Len(s)} = 1..Len(s)
IsElt(s) == IsSigned(s) /\ (s # <<>> => s[Len(s)] # Len(s))
Id == <<>>
MaxN(a, b) == IF a > b THEN a ELSE b
Act(w, i) == IF i > 0 THEN (IF i <= Len(w) THEN w[i] ELSE i)
             ELSE IF i < 0 THEN (IF -i <= Len(w) THEN -w[-i] ELSE i) ELSE 0
Mul(u, v) == TrimW([i \in 1..MaxN(Len(u), Len(v)) |-> Act(u, Act(v, i))])
Inv(u) == [j \in 1..Len(u) |-> LET i == CHOOSE k \in 1..Len(u) : AbsV(u[k]) = j
                               IN IF u[i] > 0 THEN i ELSE -i]
Gen(i) == IF i = 0 THEN <<-1>> ELSE [k \in 1..(i + 1) |-> IF k = i THEN i + 1 ELSE IF k = i + 1 THEN i ELSE k]
Transp(i, j) == IF i = j THEN Id ELSE
    LET n == MaxN(i, j) IN [k \in 1..n |-> IF k = i THEN j ELSE IF k = j THEN i ELSE k]
NegTransp(i, j) == LET n == MaxN(i, j) IN [k \in 1..n |-> IF k = i THEN -j ELSE IF k = j THEN -i ELSE k]
W0(n) == TrimW([i \in 1..n |-> n + 1 - i])
Pos(w) == \A i \in 1..Len(w) : w[i] > 0

(* Coxeter length: inversions plus pairs i <= j with w(i) + w(j) < 0 *)
Length(w) == Cardinality({p \in (1..Len(w)) \X (1..Len(w)) : p[1] < p[2] /\ w[p[1]] > w[p[2]]})
           + Cardinality({p \in (1..Len(w)) \X (1..Len(w)) : p[1] <= p[2] /\ w[p[1]] + w[p[2]] < 0})
RDes(w) == {i \in 0..(Len(w) - 1) : IF i = 0 THEN w[1] < 0 ELSE w[i] > w[i + 1]}
LDes(w) == RDes(Inv(w))
(* right action of a generator, ordinary and 0-Hecke *)
Step(w, i) == Mul(w, Gen(i))
HStep(w, i) == IF i \in RDes(w) THEN w ELSE Step(w, i)
Word(a) == FoldLeft(Step, Id, a)
HWord(a) == FoldLeft(HStep, Id, a)
RECURSIVE AReducedWord(_)
AReducedWord(w) == IF w = Id THEN <<>> ELSE LET i == CHOOSE k \in RDes(w) : TRUE IN Append(AReducedWord(Step(w, i)), i)
Dem(u, v) == FoldLeft(HStep, u, AReducedWord(v))
RECURSIVE PowW(_, _)
PowW(w, n) == IF n = 0 THEN Id ELSE IF n < 0 THEN PowW(Inv(w), -n) ELSE Mul(w, PowW(w, n - 1))

(* ---- involutions ---- *)
IsInv(w) == Mul(w, w) = Id
IsFpf(w) == IsInv(w) /\ \A i \in 1..Len(w) : w[i] # i
AbsLen(w) == Cardinality({i \in 1..Len(w) : w[i] = -i}) + Cardinality({i \in 1..Len(w) : AbsV(w[i]) # i}) \div 2
InvLength(w) == (Length(w) + AbsLen(w)) \div 2
(* fixed-point-free involutions of even rank: length above (1 2)(3 4)... *)
MinFpf(n) == [i \in 1..n |-> IF i % 2 = 1 THEN i + 1 ELSE i - 1]
FpfLength(w) == (Length(w) - Len(w) \div 2) \div 2
Conj(z, i) == Mul(Gen(i), Mul(z, Gen(i)))
(* Demazure conjugation s o z o s *)
IStep(z, i) == IF i \in RDes(z) THEN z
               ELSE IF Conj(z, i) = z THEN Step(z, i) ELSE Conj(z, i)
IWord(a) == FoldLeft(IStep, Id, a)
(* involution word without collapsing: the plain (not 0-Hecke) conjugation walk *)
IStepPlain(z, i) == IF Conj(z, i) = z THEN Step(z, i) ELSE Conj(z, i)
(* for fpf involutions a generator commuting with z is not allowed *)
FpfAllowed(z, i) == Act(z, i) # i + 1
FStep(z, i) == IF i \in RDes(z) THEN z ELSE Conj(z, i)

(* ---- enumerations ---- *)
RECURSIVE PermsOf(_)
PermsOf(n) == IF n = 0 THEN {<<>>}
              ELSE {[k \in 1..n |-> IF k < j THEN p[k] ELSE IF k = j THEN n ELSE p[k - 1]] :
                       p \in PermsOf(n - 1), j \in 1..n}
Sym(n) == {TrimW(p) : p \in PermsOf(n)}
Hyp(n) == {TrimW([k \in 1..n |-> IF k \in S THEN -p[k] ELSE p[k]]) : p \in PermsOf(n), S \in SUBSET (1..n)}
Invols(n) == {w \in Sym(n) : IsInv(w)}
SInvols(n) == {w \in Hyp(n) : IsInv(w)}
Fpfs(n) == {w \in PermsOf(n) : IsFpf(w)}
Pad(w, n) == [i \in 1..n |-> Act(w, i)]
PadFpf(w, n) == [i \in 1..n |-> IF i <= Len(w) THEN w[i] ELSE IF i % 2 = 1 THEN i + 1 ELSE i - 1]
=============================================================================
