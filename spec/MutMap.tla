------------------------------- MODULE MutMap -------------------------------
(* The whole MutableBTreeMap API and everything derived from one map without further
   sources: replicas, keys, entries, map_value, key_cloned.  State: the map (0 .. : the
   value, -1: absent) and the number of live handles. *)
EXTENDS Lib
CONSTANTS NKeys, Vals, Many, SimDepth

VARIABLES st, hist
vars == <<st, hist>>

Keys == 1 .. NKeys
Absent == -1
Empty == [k \in Keys |-> Absent]
Maps == [Keys -> Vals \cup {Absent}]
S0 == [m |-> Empty, h |-> 1]

Present(m) == SelectSeq([k \in Keys |-> k], LAMBDA k : m[k] # Absent)
Entries(m) == MapS(Present(m), LAMBDA k : <<k, m[k]>>)

Kinds == {"insert", "remove", "clear", "replace", "clone", "drop", "many"}
OpsOf(s, kind) ==
    CASE kind = "insert"  -> {[op |-> "insert", k |-> k, v |-> v] : k \in Keys, v \in Vals}
      [] kind = "remove"  -> {[op |-> "remove", k |-> k] : k \in Keys}
      [] kind = "clear"   -> {[op |-> "clear"]}
      [] kind = "replace" -> {[op |-> "replace", es |-> Entries(m)] : m \in Maps}
      [] kind = "clone"   -> IF s.h < 2 THEN {[op |-> "clone"]} ELSE {}
      [] kind = "drop"    -> {[op |-> "drop"]}
      \* n more handles made and dropped; n more subscribers, while key 1 is set twice and removed
      [] kind = "many"    -> {[op |-> "handles", n |-> n] : n \in Many}
                             \cup (IF s.m[1] = Absent THEN {[op |-> "crowd", n |-> n, k |-> 1] : n \in Many} ELSE {})
Ops(s) == IF s.h = 0 THEN {} ELSE UNION {OpsOf(s, k) : k \in Kinds}

Get(m, k) == IF m[k] = Absent THEN <<>> ELSE <<m[k]>>
FromEntries(es) == [k \in Keys |-> LET hit == {i \in 1 .. Len(es) : es[i][1] = k}
                                   IN IF hit = {} THEN Absent ELSE es[CHOOSE i \in hit : TRUE][2]]

RECURSIVE Contents(_, _)
Contents(m, op) ==
    CASE op.op = "insert"  -> [m EXCEPT ![op.k] = op.v]
      [] op.op = "remove"  -> [m EXCEPT ![op.k] = Absent]
      [] op.op = "clear"   -> Empty
      [] op.op = "replace" -> FromEntries(op.es)
      [] op.op = "batch"   -> LET r[k \in 0 .. Len(op.ops)] == IF k = 0 THEN m ELSE Contents(r[k - 1], op.ops[k])
                              IN  r[Len(op.ops)]
      [] OTHER             -> m
\* the contents before the k-th operation of a batch
At1(m, op, k) == Contents(m, [op EXCEPT !.ops = SubSeq(op.ops, 1, k - 1)])
Do(s, op) ==
    CASE op.op = "clone" -> [s EXCEPT !.h = @ + 1]
      [] op.op = "drop"  -> [s EXCEPT !.h = @ - 1]
      [] OTHER           -> [s EXCEPT !.m = Contents(s.m, op)]

RECURSIVE Ret(_, _)
Ret(s, op) == CASE op.op \in {"insert", "remove"} -> Get(s.m, op.k)
                [] op.op = "batch" -> [k \in 1 .. Len(op.ops) |-> Ret([s EXCEPT !.m = At1(s.m, op, k)], op.ops[k])]
                [] OTHER -> <<>>
RECURSIVE Silent(_, _)
Silent(s, op) ==
    \/ op.op \in {"clone", "drop", "handles"}
    \/ op.op = "batch" /\ \A k \in 1 .. Len(op.ops) : Silent([s EXCEPT !.m = At1(s.m, op, k)], op.ops[k])
    \/ op.op = "clear" /\ s.m = Empty
    \/ op.op = "remove" /\ s.m[op.k] = Absent
\* the values for which a closure of map_value must be called
RECURSIVE Calls(_)
Calls(op) == CASE op.op = "insert" -> <<op.v>>
               [] op.op = "replace" -> [i \in 1 .. Len(op.es) |-> op.es[i][2]]
               [] op.op = "batch" -> Flat([k \in 1 .. Len(op.ops) |-> Calls(op.ops[k])])
               [] op.op = "crowd" -> <<0, 1>>
               [] OTHER -> <<>>
\* the contents passed through on the way (silent steps of a batch left out)
Path(s, op) ==
    CASE op.op = "crowd" -> <<Entries([s.m EXCEPT ![1] = 0]), Entries([s.m EXCEPT ![1] = 1])>>
      [] op.op = "batch" -> Flat([k \in 1 .. Len(op.ops) |->
                               IF Silent([s EXCEPT !.m = At1(s.m, op, k)], op.ops[k]) THEN <<>>
                               ELSE <<Entries(At1(s.m, op, k + 1))>>])
      [] OTHER -> <<>>
X(s, op) == [ret |-> Ret(s, op), silent |-> Silent(s, op), calls |-> Calls(op), path |-> Path(s, op)]

Views(m) ==
    [ replica   |-> Entries(m),
      for_each  |-> Entries(m),
      map_value |-> MapS(Entries(m), LAMBDA e : <<e[1], e[2] + 100>>),
      keys      |-> Present(m),
      entries   |-> Entries(m),
      entries_cloned |-> Entries(m),
      key1      |-> Get(m, 1),
      key2      |-> Get(m, 2) ]
Obs(s) == [views |-> Views(s.m), contents |-> Entries(s.m), ended |-> s.h = 0]

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) :
            /\ st' = Do(st, op)
            /\ hist' = hist
            /\ EmitT(st, op, st', X(st, op))
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, Obs(st))

SimOp(s) ==
    LET k == RandomElement(1 .. 13) IN
    CASE k <= 6  -> [op |-> "insert", k |-> RandomElement(Keys), v |-> RandomElement(Vals)]
      [] k <= 9  -> [op |-> "remove", k |-> RandomElement(Keys)]
      [] k = 10  -> IF RandomElement(1 .. 3) = 1 THEN [op |-> "clear"]
                    ELSE [op |-> "replace", es |-> RandEntries(NKeys, Vals)]
      [] k = 11  -> IF s.h < 2 THEN [op |-> "clone"] ELSE [op |-> "drop"]
      [] k = 12  -> RandomElement(OpsOf(s, "many"))
      [] OTHER   -> [op |-> "remove", k |-> 1]
\* several operations through one write lock
RECURSIVE Batch(_, _)
Batch(s, n) == IF n = 0 THEN <<>>
               ELSE LET op == SimOp(s) IN
                    IF op.op \in {"clone", "drop", "handles", "crowd"} THEN Batch(s, n - 1)
                    ELSE <<op>> \o Batch([s EXCEPT !.m = Contents(s.m, op)], n - 1)
SimStep(s) == IF RandomElement(1 .. 6) = 1 THEN [op |-> "batch", ops |-> Batch(s, RandRange(0, 4))] ELSE SimOp(s)
SimNext == \E op \in IF Len(hist) < SimDepth THEN {SimStep(st)} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> X(st, op), obs |-> Obs(Do(st, op))])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

\* ---- laws -----------------------------------------------------------------
TypeOK == st.h \in 0 .. 2 /\ st.m \in Maps
RoundTrip == FromEntries(Entries(st.m)) = st.m
Ascending == LET p == Present(st.m) IN \A i \in 1 .. Len(p) - 1 : p[i] < p[i + 1]
SilentKeeps == \A op \in Ops(st) : Silent(st, op) => Contents(st.m, op) = st.m
\* inserting and then removing gives the value back and leaves the other keys alone
InsertRemove == \A op \in OpsOf(st, "insert") :
    LET a == Do(st, op)
        r == [op |-> "remove", k |-> op.k]
    IN  Ret(a, r) = <<op.v>> /\ Do(a, r).m = [st.m EXCEPT ![op.k] = Absent]
=============================================================================
