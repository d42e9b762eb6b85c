------------------------------- MODULE FlatSig -------------------------------
(* switch and flatten: the outer signal chooses one of several inner signals. *)
EXTENDS Lib
CONSTANTS Inners, Vals, SimDepth
VARIABLES st, hist
vars == <<st, hist>>

None == 99
S0 == [o |-> 0, do |-> TRUE, co |-> FALSE,              \* outer value, unseen?, closed?
       in |-> [k \in Inners |-> k * 10], ci |-> {},     \* inner values, closed inners
       cur |-> None,                                    \* inner that is being followed
       dc |-> FALSE,                                    \* has it an unseen change?
       live |-> FALSE,                                  \* is it still held (not ended)?
       end |-> FALSE]

Ops(s) == (IF s.co THEN {} ELSE {[op |-> "outer", k |-> k] : k \in Inners} \cup {[op |-> "close"]})
     \cup {[op |-> "inner", k |-> k, v |-> k * 10 + v] : k \in Inners \ s.ci, v \in Vals}
     \cup {[op |-> "closein", k |-> k] : k \in Inners \ s.ci}
     \cup {[op |-> "drain"]}

\* after the drain: which inner is followed, and does it still live
Cur(s)  == IF s.do THEN s.o ELSE s.cur
Live(s) == (s.do \/ s.live) /\ Cur(s) \notin s.ci
Val(s)  == s.do \/ (s.live /\ s.dc)
Ended(s) == s.co /\ ~Live(s)
Out(s) == IF s.end THEN <<>>
          ELSE (IF Val(s) THEN <<s.in[Cur(s)]>> ELSE <<>>) \o (IF Ended(s) THEN <<"END">> ELSE <<>>)
Calls(s) == IF s.do /\ ~s.end THEN 1 ELSE 0
Drain(s) == [s EXCEPT !.do = FALSE, !.cur = Cur(s), !.dc = FALSE, !.live = Live(s), !.end = s.end \/ Ended(s)]

Do(s, op) ==
    CASE op.op = "outer"  -> [s EXCEPT !.o = op.k, !.do = TRUE]
      [] op.op = "close"  -> [s EXCEPT !.co = TRUE]
      [] op.op = "inner"  -> [s EXCEPT !.in[op.k] = op.v, !.dc = @ \/ s.cur = op.k]
      [] op.op = "closein" -> [s EXCEPT !.ci = @ \cup {op.k}]
      [] op.op = "drain"  -> Drain(s)
X(s, op) == IF op.op = "drain"
    THEN [out |-> [switch  |-> Out(s) \o <<[calls |-> Calls(s)]>>,
                   flatten |-> Out(s),
                   mapped  |-> IF s.end THEN <<>> ELSE [i \in 1 .. Len(Out(s)) |->
                                  IF i = 1 /\ Val(s) THEN Out(s)[1] + 1000 ELSE Out(s)[i]]]]
    ELSE 0
\* which inner signals may still be held by the consumers once they are drained
Obs(s) == [live |-> [k \in Inners |-> s.live /\ s.cur = k]]

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', X(st, op))
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, Obs(st))

SimOp(s) == LET k == RandomElement(1 .. 20) IN
    IF k <= 6 THEN [op |-> "drain"]
    ELSE IF k = 20 /\ Len(hist) > SimDepth \div 2 THEN RandomElement(Ops(s))
    ELSE LET c == {o \in Ops(s) : o.op = IF k <= 11 THEN "outer" ELSE "inner"} IN
         IF c = {} THEN [op |-> "drain"] ELSE RandomElement(c)
SimNext == \E op \in IF Len(hist) < SimDepth THEN {SimOp(st)} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> X(st, op), obs |-> Obs(Do(st, op))])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

\* ---- laws ---------------------------------------------------------------
TypeOK == st.cur \in Inners \cup {None} /\ (st.live => st.cur # None)
Quiet  == Out(Drain(st)) = <<>> /\ Calls(Drain(st)) = 0
\* a drain always leaves the consumer with the current inner's current value:
\* whatever is not reported was already reported and has not changed since
Fresh  == (st.live /\ ~st.do /\ ~st.dc) => Out(st) \in {<<>>, <<"END">>}
\* no report after a change of an inner that is not the current one
Isolated == \A op \in Ops(st) : (op.op = "inner" /\ op.k # st.cur /\ ~st.do) => Out(Do(st, op)) = Out(st)
=============================================================================
