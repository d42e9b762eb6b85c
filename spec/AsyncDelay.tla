----------------------------- MODULE AsyncDelay -----------------------------
(* throttle and for_each: after a value has been reported, a delay future runs and
   nothing more is reported before it completes; then the newest value follows.
   "tick" completes the running delay; in the mode "auto" delays complete at once. *)
EXTENDS Lib
CONSTANTS Vals, SimDepth
VARIABLES st, hist
vars == <<st, hist>>
S0 == [v |-> 0, d |-> TRUE, c |-> FALSE, wait |-> FALSE, auto |-> FALSE, end |-> FALSE]
Ops(s) == (IF s.c THEN {} ELSE {[op |-> "set", v |-> v] : v \in Vals} \cup {[op |-> "close"]})
     \cup (IF s.wait THEN {[op |-> "tick"]} ELSE {})
     \cup {[op |-> "auto", on |-> ~s.auto]}
     \cup {[op |-> "drain"]}
Rep(s)   == ~s.end /\ ~s.wait /\ s.d
Wait(s)  == s.wait \/ (Rep(s) /\ ~s.auto)
Ended(s) == s.c /\ ~Wait(s) /\ ~s.end
Out(s)   == (IF Rep(s) THEN <<s.v>> ELSE <<>>) \o (IF Ended(s) THEN <<"END">> ELSE <<>>)
Drain(s) == [s EXCEPT !.d = @ /\ ~Rep(s), !.wait = Wait(s), !.end = @ \/ Ended(s)]
Do(s, op) ==
    CASE op.op = "set"   -> [s EXCEPT !.v = op.v, !.d = TRUE]
      [] op.op = "close" -> [s EXCEPT !.c = TRUE]
      [] op.op = "tick"  -> [s EXCEPT !.wait = FALSE]
      [] op.op = "auto"  -> [s EXCEPT !.auto = op.on]
      [] op.op = "drain" -> Drain(s)
Calls(s) == IF Rep(s) THEN 1 ELSE 0
X(s, op) == IF op.op = "drain"
    THEN [out |-> [throttle |-> Out(s) \o <<[calls |-> Calls(s)]>>, for_each |-> Out(s), stream_each |-> Out(s)]]
    ELSE 0
Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', X(st, op))
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, 0)
SimOp(s) == LET k == RandomElement(1 .. 20) IN
    IF k <= 7 THEN [op |-> "drain"]
    ELSE IF k >= 19 THEN RandomElement(IF Len(hist) > SimDepth \div 2 THEN Ops(s) ELSE {o \in Ops(s) : o.op # "close"})
    ELSE LET c == {o \in Ops(s) : o.op = IF k <= 13 THEN "set" ELSE "tick"} IN
         IF c = {} THEN [op |-> "drain"] ELSE RandomElement(c)
SimNext == \E op \in IF Len(hist) < SimDepth THEN {SimOp(st)} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> X(st, op), obs |-> 0])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)
TypeOK == st.end => st.c
OnePerDelay == Len(SelectSeq(Out(st), LAMBDA x : ToString(x) # "\"END\"")) <= 1
\* once a pending delay is over, the newest value is reported
Newest == (~st.end /\ st.d) => Out([st EXCEPT !.wait = FALSE])[1] = st.v
=============================================================================
