------------------------------- MODULE Cancel --------------------------------
(* cancelable_future: a handle and the future it can cancel.  fut is "new" (to be
   polled), "armed" (parked), "done" or "gone"; the inner future is "wait",
   "ready" (it will complete when polled), "done" or "dropped".  inplace: the task
   is polled by whoever wakes it, within the wake-up. *)
EXTENDS Lib
CONSTANTS SimDepth
VARIABLES st, hist
vars == <<st, hist>>

S0 == [h |-> "held", cancelled |-> FALSE, fut |-> "new", inner |-> "wait", left |-> 0, cb |-> 0, out |-> <<>>, inplace |-> FALSE]
Alive(s) == s.fut \in {"new", "armed"}

Ops(s) ==
    (IF s.h = "held" THEN {[op |-> "discard"], [op |-> "drop_handle"], [op |-> "leak"]} ELSE {})
    \cup (IF Alive(s) THEN {[op |-> "poll"], [op |-> "spurious"], [op |-> "drop_fut"]} ELSE {})
    \* the inner future wakes its task without being ready / becomes ready / wakes itself
    \* while it is polled, so many times
    \cup (IF Alive(s) /\ s.inner = "wait" THEN {[op |-> "wake"], [op |-> "ready"]} ELSE {})
    \cup (IF Alive(s) /\ s.inner = "wait" /\ s.left = 0 THEN {[op |-> "selfwake", n |-> n] : n \in {1, 2}} ELSE {})
    \* the handle is given away to the inner future, which discards it while it is polled
    \* and stays pending
    \cup (IF Alive(s) /\ s.h = "held" /\ s.inner = "wait" THEN {[op |-> "poll_discard"]} ELSE {})
    \cup (IF Alive(s) /\ ~ s.inplace THEN {[op |-> "inplace"]} ELSE {})

Wake(s) == IF s.fut = "armed" THEN "new" ELSE s.fut
\* polled until it is done or parked
Run(s) ==
    IF s.cancelled THEN [s EXCEPT !.fut = "done", !.inner = "dropped", !.cb = 1, !.out = <<"cancelled">>]
    ELSE IF s.inner = "ready" THEN [s EXCEPT !.fut = "done", !.inner = "done", !.out = <<"output">>]
    ELSE [s EXCEPT !.fut = "armed", !.left = 0]
Do1(s, op) ==
    CASE op.op \in {"discard", "drop_handle"} -> IF Alive(s) THEN [s EXCEPT !.h = "gone", !.cancelled = TRUE, !.fut = Wake(s)] ELSE [s EXCEPT !.h = "gone"]
      [] op.op = "leak" -> [s EXCEPT !.h = "gone"]
      [] op.op = "poll" -> IF s.fut = "new" THEN Run(s) ELSE s
      [] op.op = "spurious" -> Run(s)
      [] op.op = "wake"  -> [s EXCEPT !.fut = Wake(s)]
      [] op.op = "ready" -> [s EXCEPT !.inner = "ready", !.fut = Wake(s)]
      [] op.op = "selfwake" -> [s EXCEPT !.left = op.n]
      [] op.op = "poll_discard" -> IF s.cancelled THEN s ELSE Run([s EXCEPT !.h = "gone", !.cancelled = TRUE])
      [] op.op = "inplace" -> LET t == [s EXCEPT !.inplace = TRUE] IN IF s.fut = "new" THEN Run(t) ELSE t
      [] op.op = "drop_fut" -> [s EXCEPT !.fut = "gone", !.inner = "dropped"]
      [] OTHER -> s
Do(s, op) == LET t == Do1(s, op) IN IF s.inplace /\ s.fut = "armed" /\ t.fut = "new" THEN Run(t) ELSE t
\* must be woken: it was parked and there is something to do
X(s, op) == [woken |-> s.fut = "armed" /\ Do1(s, op).fut = "new", ret |-> IF Do(s, op).out = s.out THEN <<>> ELSE Do(s, op).out]
Obs(s) == [cb |-> s.cb, done |-> s.fut = "done",
           \* the inner future and the callback are kept at most as long as the future
           inner |-> IF s.inner \in {"wait", "ready"} THEN 1 ELSE IF s.inner = "dropped" THEN 0 ELSE 2]

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', X(st, op))
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, Obs(st))

Weigh(S) == LET calm == {o \in S : o.op \in {"poll", "spurious", "wake", "selfwake"}}
            IN IF calm # {} /\ RandomElement(1 .. 6) > 1 THEN RandomElement(calm)
               ELSE IF S # {} THEN RandomElement(S) ELSE [op |-> "idle"]
SimNext == \E op \in IF Len(hist) < SimDepth THEN {Weigh(Ops(st))} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> X(st, op), obs |-> Obs(Do(st, op))])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

\* polled in place, the future never lags
UpToDate == st.inplace => st.fut # "new"
TypeOK == st.cb \in {0, 1}
\* never parked with a cancellation or a result pending
NoLostWake == st.fut = "armed" => ~ st.cancelled /\ st.inner = "wait"
\* the callback runs iff the future was cancelled before it completed, and once
Once == (st.cb = 1) <=> (st.out = <<"cancelled">>)
OneOutput == st.fut = "done" <=> st.out # <<>>
=============================================================================
