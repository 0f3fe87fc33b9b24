----------------------------- MODULE CodesModel -----------------------------
EXTENDS Codes
CONSTANTS N
VARIABLES kind, x
Init == \/ kind = "perm" /\ x \in Sym(N)
        \/ kind = "fpf" /\ x \in Fpfs(N + (N % 2))
        \/ kind = "part" /\ x \in Between(Stair(N, 1), <<>>)
Next == FALSE /\ UNCHANGED <<kind, x>>
Spec == Init /\ [][Next]_<<kind, x>>
Facts == CASE kind = "perm" ->
                /\ SumOfSeq(Code(x)) = Length(x) /\ TrimW(Decode(Code(x), 1..Len(x))) = x
                /\ Size(Shape(x)) = Length(x)
                /\ (IsInv(x) => SumOfSeq(InvCode(x)) = InvLength(x))
                /\ (IsGr(x) => x = Gr(Shape(x)))
                /\ (IsInv(x) => (IsInvGr(x) <=> x = InvGr(InvShape(x))))
           [] kind = "fpf" -> SumOfSeq(FpfCode(x)) = FpfLength(x)
           [] kind = "part" ->
                /\ IsGr(Gr(x)) /\ Shape(Gr(x)) = x
                /\ IsStrict(x) => /\ IsInvGr(InvGr(x)) /\ InvShape(InvGr(x)) = x
                                  /\ IsFpf(FpfGr(x)) /\ FpfShape(FpfGr(x)) = x
=============================================================================
