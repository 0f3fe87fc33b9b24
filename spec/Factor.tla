------------------------------- MODULE Factor -------------------------------
(* Factorizations of the Hecke words of an element into blocks of given      *)
(* sizes: decreasing blocks ("dec") or blocks that decrease and then         *)
(* increase, counted once per turning place ("uni").                         *)
EXTENDS HeckeWords

MinLen(kind, w) == CASE kind = "hecke" -> Length(w) [] kind = "ihecke" -> InvLength(w) [] kind = "shecke" -> FpfLength(w)
LOCAL Down(S) == SortSeq(FoldSet(LAMBDA x, acc : Append(acc, x), <<>>, S), LAMBDA a, b : a > b)
LOCAL Up(S) == SortSeq(FoldSet(LAMBDA x, acc : Append(acc, x), <<>>, S), LAMBDA a, b : a < b)
(* blocks of size a as <<marker, word>> *)
FBlocks(style, gens, a) ==
    IF style = "dec" THEN {<<0, Down(S)>> : S \in {X \in SUBSET gens : Cardinality(X) = a}}
    ELSE UNION {{<<Cardinality(D), Down(D) \o Up(I)>> : I \in {X \in SUBSET gens : Cardinality(X) = a - Cardinality(D)}}
                   : D \in {X \in SUBSET gens : Cardinality(X) <= a}}
Walk(kind, v, a) == FoldLeft(LAMBDA w, i : IF w = None THEN None ELSE IF CanStep(kind, w, i) THEN DoStep(kind, w, i) ELSE None, v, a)
(* T: element |-> number of ways to reach it; append one block *)
(* generators that occur in words of z (all of them in the fixed-point-free case) *)
Supp(kind, n, z) == IF kind = "shecke" THEN Gens(kind, n)
                    ELSE {i \in Gens(kind, n) : IF i = 0 THEN ~Pos(z) ELSE (\E j \in 1..i : AbsV(Act(z, j)) > i) \/ \E j \in (i + 1)..Len(z) : z[j] < 0}
(* elements that are not longer than z *)
Short(kind, z, T) == LET m == MinLen(kind, z) IN [w \in {x \in DOMAIN T : MinLen(kind, IF kind = "shecke" THEN PadFpf(x, Len(z)) ELSE x) <= m} |-> T[w]]
NextByBlock(kind, style, gens, T, a) ==
    LET B == FBlocks(style, gens, a)
        reach == TLCEval([m \in (DOMAIN T) \X B |-> Walk(kind, m[1], m[2][2])])
        img == {reach[m] : m \in DOMAIN reach} \ {None}
        Into(S, m) == IF reach[m] = None THEN S ELSE [S EXCEPT ![reach[m]] = @ + T[m[1]]]
    IN FoldSet(LAMBDA m, S : Into(S, m), [w \in img |-> 0], DOMAIN reach)
WaysTable(kind, style, n, alpha) ==
    FoldLeft(LAMBDA T, a : NextByBlock(kind, style, Gens(kind, n), T, a), [w \in {Start(kind, n)} |-> 1], alpha)
Ways(kind, style, n, alpha, z) == LET T == WaysTable(kind, style, n, alpha) IN IF z \in DOMAIN T THEN T[z] ELSE 0
(* the longest block *)
MaxBlock(kind, style, n) == Cardinality(Gens(kind, n)) * (IF style = "uni" THEN 2 ELSE 1)
(* all partitions lam with Ways > 0, at most rows parts, size at most bound: as a table, by depth-first search *)
RECURSIVE WaysFrom(_, _, _, _, _, _, _, _)
WaysFrom(kind, style, n, z, T, last, rows, bound) ==
    LET here == IF z \in DOMAIN T THEN {<<<<>>, T[z]>>} ELSE {}
    IN IF rows = 0 \/ bound = 0 \/ DOMAIN T = {} THEN here
       ELSE here \cup UNION {{<<<<a>> \o r[1], r[2]>> : r \in WaysFrom(kind, style, n, z,
                                     TLCEval(Short(kind, z, NextByBlock(kind, style, Supp(kind, n, z), T, a))), a, rows - 1, bound - a)}
                               : a \in 1..(IF last < bound THEN last ELSE bound)}
(* pairs <<partition, number>>; bound < 0: no bound on the length of the words *)
Factorizations(kind, style, n, z, rows, bound) ==
    LET mb == MaxBlock(kind, style, n)
        b == IF bound < 0 THEN mb * rows ELSE bound
    IN WaysFrom(kind, style, n, z, [w \in {Start(kind, n)} |-> 1], mb, rows, b)
=============================================================================
