------------------------------- MODULE Layers -------------------------------
(* The weight tables of Tabs computed letter by letter.  The boxes holding   *)
(* entries up to a rank form a shape between nu and mu; one more rank adds a *)
(* skew shape (a strip unless rpp) and, in set-valued fillings, may be       *)
(* written again into corner boxes of the earlier shape.  LayersModel checks *)
(* that this gives the tables of the explicit fillings.                      *)
(* The option record has one more field here: grp, for fillings with grouped *)
(* equal neighbours (valued-set tableaux), whose weight counts groups.       *)
EXTENDS Tabs

RECURSIVE Choose(_, _)
Choose(a, b) == IF b < 0 \/ b > a THEN 0 ELSE IF b = 0 THEN 1 ELSE (a * Choose(a - 1, b - 1)) \div b
ShapesBetween(opt, mu, nu) == IF opt.sh THEN BetweenStrict(mu, nu) ELSE Between(mu, nu)
LastCol(lam, i, sh) == Part(lam, i) + Off(sh, i)
(* columns and rows met by the new boxes *)
ColsOf(big, lam, sh) == UNION {(LastCol(lam, i, sh) + 1)..LastCol(big, i, sh) : i \in 1..Len(big)}
RowsOf(big, lam) == {i \in 1..Len(big) : big[i] > Part(lam, i)}
(* ranks of this kind may not stand on the diagonal *)
Barred(opt, primed) == IF primed THEN opt.diag = "noprime" ELSE opt.diag = "onlyprime"
StripOk(opt, big, lam, primed) ==
    /\ (~opt.rpp /\ primed => \A i \in 1..Len(big) : big[i] <= Part(lam, i) + 1)
    (* no new box below a new box *)
    /\ (~opt.rpp /\ ~primed => \A i \in 1..(Len(big) - 1) : big[i + 1] > Part(lam, i + 1) => LastCol(big, i + 1, opt.sh) <= LastCol(lam, i, opt.sh))
    (* a shifted shape starts a row on the diagonal *)
    /\ (opt.sh /\ Barred(opt, primed) => Len(big) = Len(lam))
(* corners of lam outside nu in which the rank may be repeated *)
Again(opt, big, lam, nu, primed) ==
    {i \in 1..Len(lam) : /\ lam[i] > Part(nu, i) /\ CanRemove(lam, i, opt.sh)
                         /\ IF primed THEN big[i] = lam[i] ELSE i = Len(big) \/ LastCol(big, i + 1, opt.sh) < LastCol(lam, i, opt.sh)
                         /\ ~(opt.sh /\ lam[i] = 1 /\ Barred(opt, primed))}
(* weight |-> number of ways of passing from lam to big with one rank *)
Ways(opt, big, lam, nu, primed) ==
    LET w == Size(big) - Size(lam)
    IN IF ~ContainsP(big, lam) \/ ~StripOk(opt, big, lam, primed) THEN <<>>
       ELSE IF opt.rpp THEN (IF primed THEN Cardinality(RowsOf(big, lam)) ELSE Cardinality(ColsOf(big, lam, opt.sh))) :> 1
       ELSE IF opt.grp THEN LET k == IF primed THEN Cardinality(ColsOf(big, lam, opt.sh)) ELSE Cardinality(RowsOf(big, lam))
                            IN [a \in k..w |-> Choose(w - k, a - k)]
       ELSE IF opt.setv THEN LET m == Cardinality(Again(opt, big, lam, nu, primed)) IN [a \in w..(w + m) |-> Choose(m, a - w)]
       ELSE w :> 1
(* Step[lam] = function big |-> (weight |-> ways) *)
StepTable(opt, S, nu, primed) ==
    TLCEval([lam \in S |-> LET all == [big \in S |-> Ways(opt, big, lam, nu, primed)]
                           IN TLCEval([big \in {x \in S : all[x] # <<>>} |-> all[big]])])
AddAt(T, k, c) == IF k \in DOMAIN T THEN [T EXCEPT ![k] = @ + c] ELSE T @@ (k :> c)
(* one rank: tables shape |-> (pair of weight so far and amount of the current letter |-> number) *)
Cap(down, w) == IF down /\ w # <<>> THEN w[Len(w)] ELSE 1000000
Pass(state, step, down) ==
    LET one(lam, big, T) ==
            FoldSet(LAMBDA p, acc : FoldSet(LAMBDA a, acc2 : IF p[2] + a > Cap(down, p[1]) THEN acc2 ELSE AddAt(acc2, <<p[1], p[2] + a>>, state[lam][p] * step[lam][big][a]),
                                            acc, DOMAIN step[lam][big]),
                    T, DOMAIN state[lam])
        into(big) == FoldSet(LAMBDA lam, T : IF big \in DOMAIN step[lam] THEN one(lam, big, T) ELSE T, <<>>, DOMAIN state)
        nxt == TLCEval(UNION {DOMAIN step[lam] : lam \in DOMAIN state})
    IN TLCEval([big \in nxt |-> TLCEval(into(big))])
Close(state) == TLCEval([lam \in DOMAIN state |-> [p \in {<<Append(q[1], q[2]), 0>> : q \in DOMAIN state[lam]} |-> state[lam][<<SubSeq(p[1], 1, Len(p[1]) - 1), p[1][Len(p[1])]>>]]])
RECURSIVE Letters(_, _, _, _, _, _, _)
Letters(opt, k, M, state, up, un, down) ==
    IF k > M THEN state
    ELSE LET s1 == IF opt.marked THEN Pass(state, up, down) ELSE state
         IN Letters(opt, k + 1, M, Close(Pass(s1, un, down)), up, un, down)
Layered(opt, M, mu, nu, down) ==
    LET S == TLCEval(ShapesBetween(opt, mu, nu))
        up == IF opt.marked THEN StepTable(opt, S, nu, TRUE) ELSE <<>>
        un == StepTable(opt, S, nu, FALSE)
        end == Letters(opt, 1, M, (nu :> (<<(<<>>), 0>> :> 1)), up, un, down)
    IN IF mu \in DOMAIN end THEN [w \in {p[1] : p \in DOMAIN end[mu]} |-> end[mu][<<w, 0>>]] ELSE <<>>
(* only weakly decreasing weights, without trailing zeros *)
LayerTable(opt, M, mu, nu) ==
    LET T == TLCEval(Layered(opt, M, mu, nu, TRUE))
    IN [lam \in {TrimZ(w) : w \in DOMAIN T} |-> T[lam \o [i \in 1..(M - Len(lam)) |-> 0]]]
(* the number of all fillings *)
LayerCount(opt, M, mu, nu) ==
    LET S == TLCEval(ShapesBetween(opt, mu, nu))
        tot(step) == TLCEval([lam \in S |-> [big \in DOMAIN step[lam] |-> SumOver(DOMAIN step[lam][big], LAMBDA a : step[lam][big][a])]])
        up == IF opt.marked THEN tot(StepTable(opt, S, nu, TRUE)) ELSE <<>>
        un == tot(StepTable(opt, S, nu, FALSE))
        pass(v, t) == TLCEval([big \in S |-> SumOver({lam \in S : big \in DOMAIN t[lam]}, LAMBDA lam : v[lam] * t[lam][big])])
        end == FoldSet(LAMBDA k, v : pass(IF opt.marked THEN pass(v, up) ELSE v, un), [lam \in S |-> IF lam = nu THEN 1 ELSE 0], 1..M)
    IN IF ContainsP(mu, nu) THEN end[mu] ELSE 0
=============================================================================
