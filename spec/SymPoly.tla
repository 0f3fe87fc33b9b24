------------------------------- MODULE SymPoly ------------------------------
(* Symmetric polynomials in x_1..x_n: finite maps from partitions with at   *)
(* most n parts to non-zero Laurent polynomials in beta = variable 0.  A    *)
(* key lambda stands for the monomial symmetric polynomial m_lambda, the    *)
(* sum of x^alpha over the distinct rearrangements alpha of lambda padded   *)
(* with zeros to length n.                                                  *)
EXTENDS LinComb, Shapes

Beta == PVar(0, 1)
Pad(mu, n) == [i \in 1..n |-> Part(mu, i)]
(* distinct rearrangements of a sequence *)
RECURSIVE Rearr(_)
Rearr(s) == IF s = <<>> THEN {<<>>}
            ELSE UNION {{<<s[i]>> \o r : r \in Rearr(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))}
                           : i \in {k \in DOMAIN s : \A j \in 1..(k - 1) : s[j] # s[k]}}
PadWeights(n, mu) == Rearr(Pad(mu, n))
Canon(s) == TrimZ(SortDown(s))

(* m_mu * m_nu *)
MonoMul(n, mu, nu) ==
    LET A == PadWeights(n, mu)
        v == Pad(nu, n)
        cand == {Canon([i \in 1..n |-> a[i] + v[i]]) : a \in A}
        hits(lam) == LET L == Pad(lam, n) IN
                     Cardinality({a \in A : (\A i \in 1..n : a[i] <= L[i])
                                              /\ SortDown([i \in 1..n |-> L[i] - a[i]]) = v})
    IN TLCEval([lam \in cand |-> PConst(hits(lam))])
SMul(n, f, g) == VMul(f, g, LAMBDA a, b : MonoMul(n, a, b))
SOne == VBase(<<>>)
SPow(n, f, k) == IF k = 0 THEN SOne ELSE VPow(f, k, LAMBDA a, b : MonoMul(n, a, b))

STruncate(f, d) == [k \in {a \in DOMAIN f : Size(a) <= d} |-> f[k]]
Degrees(f) == {Size(k) : k \in DOMAIN f}
SPartOfDegree(f, d) == [k \in {a \in DOMAIN f : Size(a) = d} |-> f[k]]
SLowest(f) == SPartOfDegree(f, MinSet(Degrees(f), IF DOMAIN f = {} THEN 0 ELSE CHOOSE d \in Degrees(f) : TRUE))
SHighest(f) == SPartOfDegree(f, MaxSet(Degrees(f), 0))
SNegBeta(f) == [k \in DOMAIN f |-> PSubst(f[k], 0, PScale(Beta, -1))]

(* expansion in the variables sg*1, .., sg*n (sg = 1 for x, -1 for y) *)
XMon(w, sg) == {<<sg * i, w[i]>> : i \in {k \in DOMAIN w : w[k] # 0}}
MExpand(n, mu, sg) == [m \in {XMon(w, sg) : w \in PadWeights(n, mu)} |-> 1]
SExpand(n, f, sg) == FoldSet(LAMBDA k, acc : PAdd(acc, PMul(MExpand(n, k, sg), f[k])), Zero, DOMAIN f)
(* reading a symmetric polynomial back from an ordinary one *)
SKeyOf(n, m) == Canon([i \in 1..n |-> MExp(m, i)])
SFitsIn(n, f) == \A k \in DOMAIN f : IsPartition(k) /\ Len(k) <= n
=============================================================================
