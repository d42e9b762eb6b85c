------------------------------ MODULE SwitchVec ------------------------------
(* switch_signal_vec: a signal chooses which inner vector is shown. *)
EXTENDS Lib
CONSTANTS Inners, Closers, Tags, InnerMax, InnerRepl, SimDepth
VARIABLES st, hist
vars == <<st, hist>>

IV(k) == {k * 10 + t : t \in Tags}
S0 == [cur |-> CHOOSE k \in Inners : \A j \in Inners : k <= j,
       in |-> [k \in Inners |-> <<>>], closed |-> {}, open |-> TRUE]

InnerOps(s, k) == {[op |-> "inner", k |-> k, d |-> d] : d \in Diffs(s.in[k], IV(k), SeqsUpTo(IV(k), InnerRepl), InnerMax)}
Ops(s) == (IF s.open THEN {[op |-> "switch", k |-> k] : k \in Inners} \cup {[op |-> "end"]} ELSE {})
          \cup UNION {InnerOps(s, k) : k \in Inners \ s.closed}
          \cup {[op |-> "close", k |-> k] : k \in Closers \ s.closed}

Do(s, op) ==
    CASE op.op = "switch" -> [s EXCEPT !.cur = op.k]
      [] op.op = "inner"  -> [s EXCEPT !.in[op.k] = ApplyDiff(@, op.d)]
      [] op.op = "close"  -> [s EXCEPT !.closed = @ \cup {op.k}]
      [] op.op = "end"    -> [s EXCEPT !.open = FALSE]

\* how often the source made for each element may still be held (per view)
Obs(s) == [views |-> [switch |-> s.in[s.cur]], held |-> Counts(Inners, <<s.cur>>), ended |-> (~s.open /\ s.cur \in s.closed)]

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', 0)
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, Obs(st))

SimOp(s) ==
    IF RandomElement(1 .. 10) <= 4 THEN [op |-> "switch", k |-> RandomElement(Inners)]
    ELSE LET k == RandomElement(Inners) IN
         [op |-> "inner", k |-> k, d |-> RandDiff(s.in[k], IV(k), InnerMax, InnerRepl)]
SimNext == \E op \in IF Len(hist) < SimDepth THEN {SimOp(st)} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> 0, obs |-> Obs(Do(st, op))])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

TypeOK == st.cur \in Inners /\ \A k \in Inners : Len(st.in[k]) <= InnerMax
\* changes of a vector that is not shown change nothing that can be seen
Hidden == \A k \in Inners \ ({st.cur} \cup st.closed) : \A op \in InnerOps(st, k) :
    Obs(Do(st, op)).views.switch = Obs(st).views.switch
=============================================================================
