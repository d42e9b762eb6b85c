------------------------------ MODULE AsyncMap ------------------------------
(* map_future, wait_for, to_future and from_future.  The future made for input value
   k completes once gate k is open, with the result k + 100. *)
EXTENDS Lib
CONSTANTS Vals, SimDepth
VARIABLES st, hist
vars == <<st, hist>>
None == 99
S0 == [v |-> 0, d |-> TRUE, c |-> FALSE,      \* input, unseen?, closed?
       fut |-> None,                          \* input value of the running future
       open |-> {}, first |-> TRUE, end |-> FALSE,
       wend |-> FALSE,                        \* wait_for is done
       fend |-> FALSE,                        \* to_future is done
       g |-> FALSE, gend |-> 0]               \* from_future: completed?, 0 new 1 waiting 2 ended

Ops(s) == (IF s.c THEN {} ELSE {[op |-> "set", v |-> v] : v \in Vals} \cup {[op |-> "close"]})
     \cup {[op |-> "gate", k |-> k] : k \in Vals \ s.open}
     \cup (IF s.g THEN {} ELSE {[op |-> "done"]})
     \cup {[op |-> "drain"]}

Run(s)  == IF s.d THEN s.v ELSE s.fut           \* the future that counts
Comp(s) == Run(s) # None /\ Run(s) \in s.open   \* it completes during this drain
Fut(s)  == IF Comp(s) THEN None ELSE Run(s)
Ended(s) == s.c /\ Fut(s) = None
Some(v) == <<v>>
Nothing == <<>>
Fin(b)  == IF b THEN <<"END">> ELSE <<>>
MFOut(s) == IF s.end THEN <<>>
            ELSE (IF Comp(s) THEN <<Some(Run(s) + 100)>>
                  ELSE IF s.first THEN <<Nothing>> ELSE <<>>) \o Fin(Ended(s))
WFOut(s) == IF s.wend THEN <<>>
            ELSE IF s.d /\ s.v = 2 THEN <<Some(2), "END">>
            ELSE IF s.c THEN <<Nothing, "END">> ELSE <<>>
TFOut(s) == IF s.c /\ ~s.fend THEN <<s.v, "END">> ELSE <<>>
FFOut(s) == IF s.gend = 2 THEN <<>>
            ELSE IF s.g THEN <<Some(5), "END">>
            ELSE IF s.gend = 0 THEN <<Nothing>> ELSE <<>>
Calls(s) == IF s.d /\ ~s.end THEN 1 ELSE 0

Drain(s) == [s EXCEPT !.d = FALSE, !.fut = Fut(s), !.first = FALSE, !.end = @ \/ Ended(s),
                      !.wend = @ \/ WFOut(s) # <<>>, !.fend = s.c, !.gend = IF s.g THEN 2 ELSE 1]
Do(s, op) ==
    CASE op.op = "set"   -> [s EXCEPT !.v = op.v, !.d = TRUE]
      [] op.op = "close" -> [s EXCEPT !.c = TRUE]
      [] op.op = "gate"  -> [s EXCEPT !.open = @ \cup {op.k}]
      [] op.op = "done"  -> [s EXCEPT !.g = TRUE]
      [] op.op = "drain" -> Drain(s)
X(s, op) == IF op.op = "drain"
    THEN [out |-> [map_future |-> MFOut(s) \o <<[calls |-> Calls(s)]>>, wait_for |-> WFOut(s),
                   to_future |-> TFOut(s), from_future |-> FFOut(s)]]
    ELSE 0
\* futures that are still held once the consumer is drained
Obs(s) == [held |-> [k \in Vals |-> IF s.fut = k THEN 1 ELSE 0]]

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', X(st, op))
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, Obs(st))

SimOp(s) == LET k == RandomElement(1 .. 20) IN
    IF k <= 7 THEN [op |-> "drain"]
    ELSE IF k >= 18 /\ Len(hist) > SimDepth \div 2 THEN RandomElement(Ops(s))
    ELSE LET c == {o \in Ops(s) : o.op = IF k <= 15 THEN "set" ELSE "gate"} IN
         IF c = {} THEN [op |-> "drain"] ELSE RandomElement(c)
SimNext == \E op \in IF Len(hist) < SimDepth THEN {SimOp(st)} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> X(st, op), obs |-> Obs(Do(st, op))])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

TypeOK == st.fut \in Vals \cup {None} /\ (st.end => st.c)
\* after a drain the running future is the one of the latest input, or it completed
Latest == LET t == Drain(st) IN t.fut \in {None, t.v}
Quiet  == MFOut(Drain(st)) = <<>> /\ WFOut(Drain(st)) = <<>> /\ TFOut(Drain(st)) = <<>> /\ FFOut(Drain(st)) = <<>>
NoStale == (Comp(st) /\ ~st.end) => MFOut(st)[1] = Some(Run(st) + 100)
=============================================================================
