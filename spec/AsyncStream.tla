----------------------------- MODULE AsyncStream -----------------------------
(* from_stream: the newest item of a stream as a signal (None before the first one);
   sample_stream_cloned: every item of the stream, paired with the value that the
   signal has when the item is delivered. *)
EXTENDS Lib
CONSTANTS Vals, MaxQ, SimDepth
VARIABLES st, hist
vars == <<st, hist>>
S0 == [a |-> 0, ca |-> FALSE, q |-> <<>>, c |-> FALSE, first |-> TRUE, end |-> FALSE]
Ops(s) == (IF s.ca THEN {} ELSE {[op |-> "set", v |-> v] : v \in Vals} \cup {[op |-> "closesig"]})
     \cup (IF s.c THEN {} ELSE {[op |-> "item", v |-> v] : v \in IF Len(s.q) < MaxQ THEN Vals ELSE {}} \cup {[op |-> "close"]})
     \cup {[op |-> "drain"]}
Fin(s) == IF s.c /\ ~s.end THEN <<"END">> ELSE <<>>
FSOut(s) == (IF s.q # <<>> THEN << <<s.q[Len(s.q)]>> >> ELSE IF s.first THEN << <<>> >> ELSE <<>>) \o Fin(s)
SSOut(s) == [i \in 1 .. Len(s.q) |-> <<s.a, s.q[i]>>] \o Fin(s)
Drain(s) == [s EXCEPT !.q = <<>>, !.first = FALSE, !.end = s.c]
Do(s, op) ==
    CASE op.op = "set"   -> [s EXCEPT !.a = op.v]
      [] op.op = "closesig" -> [s EXCEPT !.ca = TRUE]
      [] op.op = "item"  -> [s EXCEPT !.q = Append(@, op.v)]
      [] op.op = "close" -> [s EXCEPT !.c = TRUE]
      [] op.op = "drain" -> Drain(s)
X(s, op) == IF op.op = "drain" THEN [out |-> [from_stream |-> FSOut(s), sample |-> SSOut(s)]] ELSE 0
Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', X(st, op))
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, 0)
SimOp(s) == LET k == RandomElement(1 .. 20) IN
    IF k <= 5 THEN [op |-> "drain"]
    ELSE IF k = 20 /\ Len(hist) > SimDepth \div 2 THEN RandomElement(Ops(s))
    ELSE LET c == {o \in Ops(s) : o.op = IF k <= 12 THEN "set" ELSE "item"} IN
         IF c = {} THEN [op |-> "drain"] ELSE RandomElement(c)
SimNext == \E op \in IF Len(hist) < SimDepth THEN {SimOp(st)} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> X(st, op), obs |-> 0])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)
TypeOK == Len(st.q) <= MaxQ /\ (st.end => st.c)
\* exactly one sample per item
Lossless == Len(SelectSeq(SSOut(st), LAMBDA x : ToString(x) # "\"END\"")) = Len(st.q)
=============================================================================
