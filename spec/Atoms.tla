------------------------------- MODULE Atoms --------------------------------
(* Atoms of involutions, Bruhat order and its covers on permutations,        *)
(* involutions and fixed-point-free involutions, and the covering operation. *)
EXTENDS Perms

InvPred(z, i) == IF Conj(z, i) = z THEN Step(z, i) ELSE Conj(z, i)
(* the atoms of all involutions of one level at once, from those of the level below *)
RECURSIVE AtomsAt(_)
AtomsAt(S) == IF S \subseteq {Id} THEN [y \in S |-> {Id}]
              ELSE LET f == AtomsAt(UNION {{InvPred(y, i) : i \in RDes(y)} : y \in S})
                   IN TLCEval([y \in S |-> UNION {{Step(w, i) : w \in f[InvPred(y, i)]} : i \in RDes(y)}])
AtomsOf(z) == AtomsAt({z})[z]
(* defining condition: shortest w with inv(w) o w = z *)
IsAtom(w, z) == Length(w) = InvLength(z) /\ Dem(Inv(w), w) = z
FpfDes(z) == {i \in RDes(z) : Act(z, i) # i + 1}
RECURSIVE FpfAtomsAt(_)
FpfAtomsAt(S) == IF \A y \in S : FpfDes(y) = {} THEN [y \in S |-> {Id}]
                 ELSE LET f == FpfAtomsAt(UNION {{Conj(y, i) : i \in FpfDes(y)} : y \in S})
                      IN TLCEval([y \in S |-> UNION {{Step(w, i) : w \in f[Conj(y, i)]} : i \in FpfDes(y)}])
FpfAtomsOf(z) == FpfAtomsAt({z})[z]
IsFpfAtom(w, z) == Length(w) = FpfLength(z) /\ Pad(Mul(Inv(w), Mul(MinFpf(Len(z)), w)), Len(z)) = z
(* even signed permutations: generator 0 is s0 s1 s0 *)
DGen(i) == IF i = 0 THEN <<-2, -1>> ELSE Gen(i)
DLength(w) == Cardinality({p \in (1..Len(w)) \X (1..Len(w)) : p[1] < p[2] /\ w[p[1]] > w[p[2]]})
            + Cardinality({p \in (1..Len(w)) \X (1..Len(w)) : p[1] < p[2] /\ w[p[1]] + w[p[2]] < 0})
DDes(w) == {i \in 0..(Len(w) - 1) : DLength(Mul(w, DGen(i))) < DLength(w)}
DConj(z, i) == Mul(DGen(i), Mul(z, DGen(i)))
RECURSIVE DAtomsOf(_)
DAtomsOf(z) == IF z = Id THEN {Id}
    ELSE UNION {{Mul(w, DGen(i)) : w \in DAtomsOf(IF DConj(z, i) = z THEN Mul(z, DGen(i)) ELSE DConj(z, i))} : i \in DDes(z)}

(* Bruhat order by the lifting property *)
RECURSIVE BruhatLE(_, _)
BruhatLE(u, w) == IF w = Id THEN u = Id
                  ELSE LET i == CHOOSE k \in RDes(w) : TRUE
                       IN BruhatLE(IF i \in RDes(u) THEN Step(u, i) ELSE u, Step(w, i))
Reflections(n) == {Transp(p[1], p[2]) : p \in {q \in (1..n) \X (1..n) : q[1] < q[2]}}
SReflections(n) == Reflections(n) \cup {NegTransp(p[1], p[2]) : p \in {q \in (1..n) \X (1..n) : q[1] <= q[2]}}
LowerCovers(w) == {v \in {Mul(w, t) : t \in IF Pos(w) THEN Reflections(Len(w)) ELSE SReflections(Len(w))} : Length(v) = Length(w) - 1}
Pool(z) == IF Pos(z) THEN Invols(Len(z)) ELSE SInvols(Len(z))
InvLowerCovers(z) == {y \in Pool(z) : InvLength(y) = InvLength(z) - 1 /\ BruhatLE(y, z)}
(* the same, from a local enumeration: y and z agree off at most four letters (the model proves the two equal) *)
Around(z, S) == {TrimW([k \in 1..Len(z) |-> IF k \in S THEN g[k] ELSE z[k]]) : g \in {h \in [S -> S] : \A k \in S : h[h[k]] = k}}
Near(z) == UNION {Around(z, S) : S \in {Q \in {{a[1], a[2], a[3], z[a[1]], z[a[2]], z[a[3]]} : a \in (1..Len(z)) \X (1..Len(z)) \X (1..Len(z))} : Cardinality(Q) <= 4}
                                \cup {{a[1], a[2], z[a[1]], z[a[2]]} : a \in (1..Len(z)) \X (1..Len(z))}}
InvLowerCoversNear(z) == IF ~Pos(z) THEN InvLowerCovers(z) ELSE {y \in Near(z) : InvLength(y) = InvLength(z) - 1 /\ BruhatLE(y, z)}
RECURSIVE FTrim(_)
FTrim(z) == LET n == Len(z) IN IF n > 1 /\ z[n] = n - 1 /\ z[n - 1] = n THEN FTrim(SubSeq(z, 1, n - 2)) ELSE z
FpfLowerCovers(z) == {FTrim(y) : y \in {x \in Fpfs(Len(z)) : FpfLength(x) = FpfLength(z) - 1 /\ BruhatLE(x, z)}}

FpfLowerCoversNear(z) == {FTrim(y) : y \in {x \in Near(z) : Len(x) = Len(z) /\ IsFpf(x) /\ FpfLength(x) = FpfLength(z) - 1 /\ BruhatLE(x, z)}}

(* the covering operation: the involutions reached from atoms of y through the transposition (i j) *)
CoverTargets(y, i, j) == LET t == Transp(i, j)
                             C == {v \in {Mul(w, t) : w \in AtomsOf(y)} : Length(v) = InvLength(y) + 1}
                             Z == {Dem(Inv(v), v) : v \in C}
                         IN {z \in Z : InvLength(z) = InvLength(y) + 1}
UpperTrans(w, r) == {j \in (r + 1)..Len(w) : Length(Mul(w, Transp(r, j))) = Length(w) + 1}
LowerTrans(w, r) == {i \in 1..(r - 1) : Length(Mul(w, Transp(i, r))) = Length(w) + 1}
UpperInvTrans(y, r) == {j \in (r + 1)..Len(y) : CoverTargets(y, r, j) # {}}
LowerInvTrans(y, r) == {i \in 1..(r - 1) : CoverTargets(y, i, r) # {}}
ConjT(y, i, j) == Mul(Transp(i, j), Mul(y, Transp(i, j)))
FLen(z) == FpfLength(Pad(z, Len(z) + (Len(z) % 2)))
UpperFpfTrans(y, r) == LET n == Len(y) y2 == y \o <<n + 2, n + 1>> IN {j \in (r + 1)..(n + 2) : FpfLength(Pad(ConjT(y2, r, j), n + 2)) = FpfLength(y2) + 1}
LowerFpfTrans(y, r) == {i \in 1..(r - 1) : FpfLength(Pad(ConjT(y, i, r), Len(y))) = FpfLength(y) + 1}
=============================================================================
