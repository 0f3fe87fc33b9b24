------------------------------ MODULE C04Trace ------------------------------
(* Trace specification of the word enumerators.  gens holds the partially    *)
(* consumed enumerations of the session: what each one has emitted so far.   *)
EXTENDS HeckeWords, TraceBase
VARIABLES l, gens
vars == <<l, gens>>
NG == 4
(* element and rank at which a word is evaluated, for an element value of the implementation *)
RankOf(e) == IF e.kind \in {"fpf", "shecke"} THEN e.n ELSE 0
Sound(e, a) == /\ \A k \in 1..Len(a) : a[k] \in Int
               /\ Value(e.kind, RankOf(e), a) = e.w
               /\ StatOk(e.kind, a, e.stat)
               /\ (e.bound >= 0 => Len(a) <= e.bound)
Total(e) == IF e.kind \in {"red", "inv", "fpf"} THEN CountWords(e.kind, e.n, e.w, RLen(e.kind, e.w))
            ELSE IF e.stat < 0 THEN TotalWords(e.kind, e.n, e.w, e.bound)
            ELSE Cardinality(WordsOf(WLevels(e.kind, e.n, e.stat, e.bound), e.w))
ListVerdict(e) ==
    IF ~NoDup(e.res) THEN "listed_twice"
    ELSE IF \E a \in SetOf(e.res) : ~Sound(e, a) THEN "not_a_word_of_the_element"
    ELSE Ck("words_missing", Len(e.res) = Total(e))
(* all words of a rank, whatever the element *)
AllKind(e) == IF e.hecke THEN e.kind ELSE (IF e.kind = "ihecke" THEN "inv" ELSE "fpf")
Flat(Ls) == UNION SetOf(Ls)
AllVerdict(e) == IF ~NoDup(e.res) THEN "listed_twice"
                 ELSE Ck("wrong_set_of_words", SetOf(e.res) = {p[2] : p \in Flat(WLevels(AllKind(e), e.n, e.stat, e.bound))})
LevelsVerdict(e) == LET Ls == WLevels(AllKind(e), e.n, e.stat, e.bound)
                    IN IF \E k \in 1..Len(e.res) : ~NoDup(e.res[k]) THEN "listed_twice"
                       ELSE Ck("wrong_levels", [k \in 1..Len(e.res) |-> SetOf(e.res[k])] = Ls)
OneVerdict(e) == IF Value(e.kind, RankOf(e), e.res) # e.w THEN "not_a_word_of_the_element"
                 ELSE Ck("not_reduced", Len(e.res) = RLen(e.kind, e.w))
(* evaluation of involution and fpf words: None exactly when the strict walk is blocked *)
RECURSIVE PlainInv(_, _)
PlainInv(z, a) == IF a = <<>> THEN z ELSE PlainInv(IStepPlain(z, a[1]), Tail(a))
RECURSIVE PlainFpf(_, _)
PlainFpf(z, a) == IF a = <<>> THEN z ELSE PlainFpf(Conj(z, a[1]), Tail(a))
EvenUp(k) == k + (k % 2)
FpfRank(a) == IF a = <<>> THEN 0 ELSE EvenUp(1 + MaxSet(SetOf(a), 0))
EvalVerdict(e) ==
    LET a == e.word IN
    CASE e.kind = "inv" -> IF e.strict THEN Ck("strict_evaluation", e.res = Value("inv", 0, a))
                           ELSE Ck("plain_evaluation", e.res = PlainInv(Id, a))
      [] e.kind = "fpf" ->
            IF e.strict THEN LET ok == \A k \in 1..Len(a) : LET v == Value("shecke", FpfRank(a), SubSeq(a, 1, k - 1))
                                                               u == Value("fpf", FpfRank(a), SubSeq(a, 1, k - 1))
                                                          IN u # None /\ CanStep("fpf", u, a[k]) /\ Act(u, a[k]) # a[k] + 1
                             IN Ck("strict_evaluation", e.res = IF ok THEN TrimW(Value("fpf", FpfRank(a), a)) ELSE None)
            ELSE Ck("plain_evaluation", e.res = PlainFpf(MinFpf(FpfRank(a)), a))
(* counts promised to agree with the number of words *)
G(e) == gens[e.g]
NextVerdict(e) ==
    LET g == G(e) IN
    IF e.done THEN Ck("words_missing", Cardinality(g.emitted) = Total(g.req))
    ELSE IF e.res \in g.emitted THEN "listed_twice"
    ELSE Ck("not_a_word_of_the_element", Sound(g.req, e.res))
NextAllVerdict(e) ==
    LET g == G(e) IN
    IF e.done THEN Ck("words_missing", g.emitted = {p[2] : p \in Flat(WLevels(g.req.kind, g.req.n, g.req.stat, g.req.bound))})
    ELSE IF e.res \in g.emitted THEN "listed_twice"
    ELSE Ck("not_a_word", /\ Value(g.req.kind, g.req.n, e.res) # None
                          /\ SetOf(e.res) \subseteq Gens(g.req.kind, g.req.n)
                          /\ StatOk(g.req.kind, e.res, g.req.stat)
                          /\ Len(e.res) >= g.len
                          /\ (g.req.bound >= 0 => Len(e.res) <= g.req.bound))
OpVerdict(e) ==
    IF e.exc # "" THEN "raised_in_" \o e.op
    ELSE CASE e.op = "list" -> ListVerdict(e)
           [] e.op = "all" -> AllVerdict(e)
           [] e.op = "levels" -> LevelsVerdict(e)
           [] e.op = "one" -> OneVerdict(e)
           [] e.op = "eval" -> EvalVerdict(e)
           [] e.op = "open" -> ""
           [] e.op = "next" -> IF G(e).req.all THEN NextAllVerdict(e) ELSE NextVerdict(e)
           [] OTHER -> "unknown_event"
Blank == [emitted |-> {}, req |-> [all |-> FALSE], len |-> 0]
Init == l = 1 /\ gens = [g \in 1..NG |-> Blank]
Session == Trace[l].op = "session" /\ gens' = [g \in 1..NG |-> Blank]
Operation == /\ Trace[l].op # "session"
             /\ LET e == Trace[l] IN
                /\ Report(l, OpVerdict(e))
                /\ gens' = IF e.op = "open" THEN [gens EXCEPT ![e.g] = [emitted |-> {}, req |-> e, len |-> 0]]
                           ELSE IF e.op = "next" /\ e.exc = "" /\ ~e.done
                                THEN [gens EXCEPT ![e.g].emitted = @ \cup {e.res}, ![e.g].len = Len(e.res)]
                           ELSE gens
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Session \/ Operation)
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
