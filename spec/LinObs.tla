-------------------------------- MODULE LinObs --------------------------------
(* Mutables (and a Broadcaster over one of them) used from several threads.
   State: the value of each Mutable and how often it was written, the number of writable
   handles, and for each observer the write it has seen last and whether it has been
   notified since. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Diag
VARIABLES nd, i, st, pend

Roots == ndJsonDeserialize("roots.ndjson")
Nodes == ndJsonDeserialize("nodes.ndjson")

V(v) == "v" \o ToString(v)

\* init: vals (sequence, Mutable m has vals[m + 1]), handles (sequence of counts),
\*       obs (sequence of [o, m]): the observers that exist from the start
\*       strict: a value is told again only if it was written again (not for a Broadcaster,
\*       whose observers share what one of them has fetched)
Start(in) == [ strict |-> in.strict,
               val  |-> [m \in 0 .. Len(in.vals) - 1 |-> in.vals[m + 1]],
               ver  |-> [m \in 0 .. Len(in.vals) - 1 |-> 0],
               h    |-> [m \in 0 .. Len(in.vals) - 1 |-> in.handles[m + 1]],
               o    |-> [k \in {in.obs[j].o : j \in 1 .. Len(in.obs)} |->
                           [m |-> (CHOOSE x \in {in.obs[j] : j \in 1 .. Len(in.obs)} : x.o = k).m, seen |-> -1, note |-> TRUE, done |-> FALSE]] ]

Write(s, m, v) == [s EXCEPT !.val[m] = v, !.ver[m] = @ + 1,
                            !.o = [k \in DOMAIN @ |-> IF @[k].m = m THEN [@[k] EXCEPT !.note = s.strict \/ @] ELSE @[k]]]
A(s, r) == [st |-> s, ph |-> 0, r |-> r]

Acts(s, op, ph) ==
    CASE op.op = "set"       -> {A(Write(s, op.m, op.v), "ok")}
      [] op.op = "set_neq"   -> {A(IF s.val[op.m] = op.v THEN s ELSE Write(s, op.m, op.v), "ok")}
      [] op.op = "set_if_gt" -> {A(IF op.v > s.val[op.m] THEN Write(s, op.m, op.v) ELSE s, "ok")}
      [] op.op = "replace"   -> {A(Write(s, op.m, op.v), V(s.val[op.m]))}
      [] op.op \in {"replace_with", "lock_add"} -> {A(Write(s, op.m, s.val[op.m] + op.v), V(s.val[op.m]))}
      [] op.op = "take"      -> {A(Write(s, op.m, 0), V(s.val[op.m]))}
      [] op.op = "swap"      -> {A(IF op.m = op.n THEN Write(s, op.m, s.val[op.m])
                                   ELSE Write(Write(s, op.m, s.val[op.n]), op.n, s.val[op.m]), "ok")}
      [] op.op \in {"get", "ref2", "lock_look"} -> {A(s, V(s.val[op.m]))}
      [] op.op = "clone"     -> {A([s EXCEPT !.h[op.m] = @ + 1], "ok")}
      [] op.op = "drop"      -> {A([s EXCEPT !.h[op.m] = @ - 1], "ok")}
      [] op.op = "sub"       -> {A([s EXCEPT !.o = (op.o :> [m |-> op.m, seen |-> -1, note |-> TRUE, done |-> FALSE]) @@ @], "ok")}
      [] op.op = "unsub"     -> {A([s EXCEPT !.o = [k \in DOMAIN @ \ {op.o} |-> @[k]]], "ok")}
      [] op.op = "poll"      ->
           LET ob == s.o[op.o]
               m  == ob.m
               new == IF s.strict THEN ob.note ELSE ob.seen < s.ver[m]
               tell == A([s EXCEPT !.o[op.o].seen = s.ver[m]], V(s.val[m])) IN
           \* The notification is taken before the value is read: a value that is written in
           \* between may be told again, an older one never.
           IF ph = 1 \/ (~s.strict /\ new) THEN {tell}
           ELSE (IF ~s.strict THEN {tell} ELSE IF new THEN {[st |-> [s EXCEPT !.o[op.o].note = FALSE], ph |-> 1, r |-> ""]} ELSE {})
                \cup (IF ~new /\ s.h[m] > 0 THEN {A(s, "p")} ELSE {})
                \cup (IF ~new /\ s.h[m] = 0 THEN {A([s EXCEPT !.o[op.o].done = TRUE], "e")} ELSE {})

\* whoever waits has seen the newest value and something can still be written
Quiet(s, parked) == \A k \in parked : s.o[k].seen = s.ver[s.o[k].m] /\ s.h[s.o[k].m] > 0
Final(s, r) == r = "live0 cb0 in0"

INSTANCE Lin
=============================================================================
