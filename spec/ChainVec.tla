------------------------------ MODULE ChainVec ------------------------------
(* left.chain(right): two independent vectors, shown one after the other. *)
EXTENDS Lib
CONSTANTS LVals, RVals, MaxLen, ReplLen, SimDepth
VARIABLES st, hist
vars == <<st, hist>>

Sides == {"l", "r"}
V(side) == IF side = "l" THEN LVals ELSE RVals
S0 == [l |-> <<>>, r |-> <<>>, open |-> {"l", "r"}]

Ops(s) == UNION {
    {[op |-> "diff", side |-> x, d |-> d] : d \in Diffs(s[x], V(x), SeqsUpTo(V(x), ReplLen), MaxLen)}
    \cup {[op |-> "close", side |-> x]} : x \in s.open}

Do(s, op) == IF op.op = "close" THEN [s EXCEPT !.open = @ \ {op.side}]
             ELSE [s EXCEPT ![op.side] = ApplyDiff(@, op.d)]

Obs(s) == [views |-> [chain |-> s.l \o s.r], ended |-> s.open = {}]

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', 0)
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, Obs(st))

SimOp(s) == LET x == RandomElement(Sides) IN
    [op |-> "diff", side |-> x, d |-> RandDiff(s[x], V(x), MaxLen, ReplLen)]
SimNext == \E op \in IF Len(hist) < SimDepth THEN {SimOp(st)} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> 0, obs |-> Obs(Do(st, op))])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

TypeOK == Len(st.l) <= MaxLen /\ Len(st.r) <= MaxLen
\* a change of one side never touches the other one's part of the result
Local == \A op \in Ops(st) : op.op = "diff" =>
    LET t == Do(st, op) IN
    IF op.side = "l" THEN SubSeq(Obs(t).views.chain, Len(t.l) + 1, Len(t.l) + Len(t.r)) = st.r
    ELSE SubSeq(Obs(t).views.chain, 1, Len(t.l)) = st.l
=============================================================================
