--------------------------------- MODULE Life ---------------------------------
(* How long things live.  Every value (and key) handed to a container is counted:
   what the container holds, and what is on its way to each subscriber.  A source may
   keep a dropped subscriber's share only until it notifies again.  `churn` repeats a
   cycle that returns to the same state many times: memory must not grow with it. *)
EXTENDS Lib
CONSTANTS Kinds, Subs, MaxLen, MaxQ, Rounds, SimDepth
VARIABLES st, hist
vars == <<st, hist>>

\* n: elements held; h: handles; q[i]: values queued for subscriber i (-1: none);
\* t[i]: there is something to read at the next poll of i, c[i]: i has reached the end
\* g: values that may still be queued for dropped subscribers
S0 == [k |-> "none", n |-> 0, h |-> 0, q |-> [i \in Subs |-> -1], c |-> [i \in Subs |-> FALSE], g |-> 0]
IsSub(s, i) == s.q[i] >= 0
Some(s) == \E i \in Subs : IsSub(s, i)
\* a map holds a key and a value per element
Per(s) == IF s.k = "map" THEN 2 ELSE 1
Queues(s) == s.k \in {"vec", "map"}
Base(s) == IF Queues(s) THEN (IF s.h > 0 THEN s.n * Per(s) ELSE 0) ELSE 0
SumQ(s) == LET r[k \in 0 .. Cardinality(Subs)] == IF k = 0 THEN 0 ELSE r[k - 1] + (IF IsSub(s, k - 1) THEN s.q[k - 1] ELSE 0)
           IN r[Cardinality(Subs)]
Max(s) == LET vs == {s.q[i] : i \in Subs} IN CHOOSE x \in vs : \A y \in vs : y <= x

\* A change that sends a diff with w values to everybody
Send(s, w) == [s EXCEPT !.q = [i \in Subs |-> IF IsSub(s, i) /\ Queues(s) THEN s.q[i] + w ELSE s.q[i]], !.g = 0]
Room(s) == s.n < MaxLen
Ops(s) ==
    IF s.k = "none" THEN {[op |-> "make", k |-> k] : k \in Kinds}
    ELSE
      (IF s.h > 0 THEN
           (IF Queues(s)
            THEN (IF Room(s) /\ Max(s) < MaxQ THEN {[op |-> "push"]} ELSE {})
                 \cup (IF Max(s) < MaxQ THEN {[op |-> "replace", n |-> n] : n \in {0, MaxLen}} ELSE {})
                 \cup (IF s.n > 0 /\ Max(s) < MaxQ THEN {[op |-> "update"]} ELSE {})
                 \cup (IF s.n > 0 THEN {[op |-> "remove"], [op |-> "drop_elem"]} ELSE {})
                 \cup {[op |-> "clear"]}
            ELSE {[op |-> "set"], [op |-> "replace1"]})
           \cup {[op |-> "drop"]} \cup (IF s.h < 2 THEN {[op |-> "clone"]} ELSE {})
           \cup {[op |-> "sub", i |-> i] : i \in {j \in Subs : ~ IsSub(s, j)}}
           \* n rounds of: subscribe, (poll,) drop, change; everybody else reads along
           \cup {[op |-> "churn", n |-> n, poll |-> p] : n \in Rounds, p \in IF s.k = "bc" THEN {TRUE} ELSE BOOLEAN}
           \* n handles made and dropped / n changes, which are read by everybody (or, where
           \* only the newest value is kept, by nobody)
           \cup {[op |-> "handles", n |-> n] : n \in Rounds}
           \cup {[op |-> "writes", n |-> n, read |-> TRUE] : n \in Rounds}
           \cup (IF Queues(s) THEN {} ELSE {[op |-> "writes", n |-> n, read |-> FALSE] : n \in Rounds})
       ELSE {})
      \cup UNION {{[op |-> "unsub", i |-> i], [op |-> "read", i |-> i]} : i \in {j \in Subs : IsSub(s, j)}}

ReadAll(s) == [s EXCEPT !.q = [i \in Subs |-> IF IsSub(s, i) THEN 0 ELSE s.q[i]], !.g = 0]
Do(s, op) ==
    CASE op.op = "make"   -> [s EXCEPT !.k = op.k, !.h = 1]
      [] op.op = "push"   -> Send([s EXCEPT !.n = @ + 1], Per(s))
      [] op.op = "update" -> Send(s, Per(s))
      [] op.op = "replace" -> Send([s EXCEPT !.n = op.n], op.n * Per(s))
      \* removing takes the key of a map along
      [] op.op \in {"remove", "drop_elem"} -> Send([s EXCEPT !.n = @ - 1], Per(s) - 1)
      [] op.op = "clear"  -> IF s.n = 0 THEN s ELSE Send([s EXCEPT !.n = 0], 0)
      [] op.op = "clone"  -> [s EXCEPT !.h = @ + 1]
      [] op.op = "drop"   -> IF s.h = 1 THEN [s EXCEPT !.h = 0, !.n = 0, !.g = 0] ELSE [s EXCEPT !.h = @ - 1]
      [] op.op = "sub"    -> [s EXCEPT !.q[op.i] = Base(s), !.c[op.i] = FALSE]
      [] op.op = "unsub"  -> [s EXCEPT !.q[op.i] = -1, !.c[op.i] = FALSE, !.g = IF s.h > 0 /\ s.g < MaxQ THEN @ + s.q[op.i] ELSE @]
      [] op.op = "read"   -> [s EXCEPT !.q[op.i] = 0, !.c[op.i] = s.h = 0]
      [] op.op \in {"churn", "writes"} -> ReadAll(s)
      [] OTHER -> s

\* Bounds on the number of values alive
Alive(s) == s.k # "none" /\ (s.h > 0 \/ Some(s))
Lo(s) == CASE Queues(s) -> Base(s) [] s.k = "none" -> 0 [] OTHER -> IF s.h > 0 THEN 1 ELSE 0
Hi(s) == CASE Queues(s) -> Base(s) + SumQ(s) + s.g
           [] s.k = "mut" -> IF Alive(s) THEN 1 ELSE 0
           [] s.k = "bc"  -> IF Alive(s) THEN 2 ELSE 0
           [] OTHER -> 0
X(s, op) == [bytes |-> op.op \in {"churn", "handles", "writes"}]
Obs(s) == [lo |-> Lo(s), hi |-> Hi(s)]

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', X(st, op))
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, Obs(st))

Weigh(S) == LET calm == {o \in S : o.op \notin {"drop", "churn", "handles", "writes"}}
            IN IF calm # {} /\ RandomElement(1 .. 12) > 1 THEN RandomElement(calm)
               ELSE IF S # {} THEN RandomElement(S) ELSE [op |-> "idle"]
SimNext == \E op \in IF Len(hist) < SimDepth THEN {Weigh(Ops(st))} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> X(st, op), obs |-> Obs(Do(st, op))])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

TypeOK == st.n \in 0 .. MaxLen /\ st.h \in 0 .. 2
Bounds == Lo(st) <= Hi(st)
\* when everybody is gone, so is everything
Gone == ~ Alive(st) => Hi(st) = 0
\* once everybody has read everything only the contents are left
Settled == Queues(st) /\ st.g = 0 /\ (\A i \in Subs : st.q[i] <= 0) => Lo(st) = Hi(st)
=============================================================================
