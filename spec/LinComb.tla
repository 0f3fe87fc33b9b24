------------------------------ MODULE LinComb -------------------------------
(* Formal linear combinations (finite maps from keys to non-zero Laurent    *)
(* polynomials) and integer row reduction.                                  *)
EXTENDS PolyRing

VZero == [k \in {} |-> Zero]
VCoef(v, k) == IF k \in DOMAIN v THEN v[k] ELSE Zero
VBuild(D, f(_)) == LET S == {k \in D : f(k) # Zero} IN [k \in S |-> f(k)]
VAdd(v, w) == VBuild(DOMAIN v \cup DOMAIN w, LAMBDA k : PAdd(VCoef(v, k), VCoef(w, k)))
VScale(v, p) == VBuild(DOMAIN v, LAMBDA k : PMul(v[k], p))
VNeg(v) == VScale(v, PConst(-1))
VSub(v, w) == VAdd(v, VNeg(w))
VBase(k) == [x \in {k} |-> One]
(* product for a bilinear rule: rule(a, b) is a combination *)
VMul(v, w, rule(_, _)) ==
    FoldSet(LAMBDA ab, acc : VAdd(acc, VScale(rule(ab[1], ab[2]), PMul(v[ab[1]], w[ab[2]]))),
            VZero, (DOMAIN v) \X (DOMAIN w))
VPow(v, n, rule(_, _)) == FoldLeft(LAMBDA acc, i : VMul(acc, v, rule), v, [i \in 1..(n - 1) |-> i])
(* an entry-wise linear extension of a map from keys to combinations *)
VApply(v, f(_)) == FoldSet(LAMBDA k, acc : VAdd(acc, VScale(f(k), v[k])), VZero, DOMAIN v)
VFloorDiv(v, n) == VBuild(DOMAIN v, LAMBDA k : PFloorDiv(v[k], n))

(* JSON form: <<key, polynomial>> pairs *)
VWellFormed(js) == /\ Cardinality({js[i][1] : i \in DOMAIN js}) = Len(js)
                   /\ \A i \in DOMAIN js : PWellFormed(js[i][2]) /\ js[i][2] # <<>>
VFromJson(js) == LET idx == [k \in {js[i][1] : i \in DOMAIN js} |-> CHOOSE i \in DOMAIN js : js[i][1] = k]
                 IN [k \in DOMAIN idx |-> FromJson(js[idx[k]][2])]

(* ---- integer matrices: sequences of rows ---- *)
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN AbsV(a) ELSE GCD(b, AbsV(a) % AbsV(b))
RowGcd(r) == FoldLeft(GCD, 0, r)
TDiv(a, g) == IF a >= 0 THEN a \div g ELSE -((-a) \div g)
Primitive(r) == LET g == RowGcd(r) IN IF g <= 1 THEN r ELSE [j \in DOMAIN r |-> TDiv(r[j], g)]
IsZeroRow(r) == \A j \in DOMAIN r : r[j] = 0
Lead(r) == CHOOSE j \in DOMAIN r : r[j] # 0 /\ \A i \in 1..(j - 1) : r[i] = 0
(* remove from row r its entry in the pivot column of p *)
Reduce(r, p) == LET c == Lead(p) IN
                IF r[c] = 0 THEN r ELSE Primitive([j \in DOMAIN r |-> r[j] * p[c] - r[c] * p[j]])
(* a basis in echelon order of leads (a sequence of primitive rows with distinct leads) *)
ReduceBy(r, B) == LET S == SortSeq(B, LAMBDA a, b : Lead(a) < Lead(b))
                  IN FoldLeft(LAMBDA acc, p : Reduce(acc, p), r, S)
AddRow(B, r) == LET q == ReduceBy(r, B) IN IF IsZeroRow(q) THEN B ELSE Append(B, Primitive(q))
BasisOf(M) == FoldLeft(AddRow, <<>>, M)
MatRank(M) == Len(BasisOf(M))
InSpan(r, M) == IsZeroRow(ReduceBy(r, BasisOf(M)))
SameRowSpace(M, R) == /\ \A i \in DOMAIN R : InSpan(R[i], M)
                      /\ \A i \in DOMAIN M : InSpan(M[i], R)
IsEchelon(R) == /\ \A i, j \in DOMAIN R : (i < j /\ IsZeroRow(R[i])) => IsZeroRow(R[j])
                /\ \A i, j \in DOMAIN R : (i < j /\ ~IsZeroRow(R[i]) /\ ~IsZeroRow(R[j])) => Lead(R[i]) < Lead(R[j])
=============================================================================
