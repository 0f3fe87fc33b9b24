------------------------------ MODULE C06Trace ------------------------------
EXTENDS Atoms, TraceBase
VARIABLES l
NoBca(v) == \A i \in 1..(Len(v) - 2) : ~(v[i + 2] < v[i] /\ v[i] < v[i + 1])
SetVerdict(name, res, S, nodup) ==
    IF nodup /\ ~NoDup(res) THEN "listed_twice_" \o name
    ELSE IF ~(SetOf(res) \subseteq S) THEN "spurious_" \o name ELSE Ck("missing_" \o name, S \subseteq SetOf(res))
EltVerdict(e) ==
    LET w == e.w IN
    CASE e.op = "atoms" -> SetVerdict("atom", e.res, AtomsOf(w), TRUE)
      [] e.op = "fatoms" -> SetVerdict("fpf_atom", e.res, FpfAtomsOf(w), TRUE)
      [] e.op = "datoms" -> SetVerdict("d_atom", e.res, DAtomsOf(w), FALSE)
      [] e.op = "minatom" -> IF ~IsAtom(e.res, w) THEN "not_an_atom" ELSE Ck("not_minimal_atom", Pos(w) => NoBca(Pad(Inv(e.res), Len(w))))
      [] e.op = "covers" -> SetVerdict("cover", e.res, LowerCovers(w), TRUE)
      [] e.op = "icovers" -> SetVerdict("involution_cover", e.res, InvLowerCoversNear(w), TRUE)
      [] e.op = "fcovers" -> SetVerdict("fpf_cover", [i \in 1..Len(e.res) |-> FTrim(e.res[i])], FpfLowerCoversNear(w), TRUE)
      [] e.op = "tau" -> LET Z == CoverTargets(w, e.i, e.j) IN
                         IF ~IsElt(e.res) \/ ~IsInv(e.res) THEN "tau_not_an_involution"
                         ELSE IF Z # {} THEN Ck("tau_misses_the_cover", Z = {e.res})
                         ELSE Ck("tau_covers_without_atoms", InvLength(e.res) # InvLength(w) + 1)
      [] e.op = "up" -> SetVerdict("upper_transition", e.res, UpperTrans(w, e.r), TRUE)
      [] e.op = "down" -> SetVerdict("lower_transition", e.res, LowerTrans(w, e.r), TRUE)
      [] e.op = "iup" -> SetVerdict("upper_involution_transition", e.res, UpperInvTrans(w, e.r), TRUE)
      [] e.op = "idown" -> SetVerdict("lower_involution_transition", e.res, LowerInvTrans(w, e.r), TRUE)
      [] e.op = "fup" -> SetVerdict("upper_fpf_transition", e.res, UpperFpfTrans(w, e.r), TRUE)
      [] e.op = "fdown" -> SetVerdict("lower_fpf_transition", e.res, LowerFpfTrans(w, e.r), TRUE)
      [] e.op = "session" -> ""
      [] OTHER -> "unknown_event"
OpVerdict(e) == IF e.exc # "" THEN "raised_in_" \o e.op ELSE EltVerdict(e)
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, OpVerdict(Trace[l])) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
