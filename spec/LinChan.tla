-------------------------------- MODULE LinChan --------------------------------
(* channel: senders and one receiver in several threads.
   State: the pending value ("none" or a number), the number of open senders (0 also means
   closed: nothing opens it again), whether the receiver still exists.
   send looks whether the channel is open first and stores the value later, so a value
   may still be stored while another handle closes the channel. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Diag
VARIABLES nd, i, st, pend

Roots == ndJsonDeserialize("roots.ndjson")
Nodes == ndJsonDeserialize("nodes.ndjson")

Start(in) == [val |-> in.v, n |-> in.n, rx |-> TRUE]   \* -1: no value
A(s, r) == [st |-> s, ph |-> 0, r |-> r]

Acts(s, op, ph) ==
    CASE op.op = "send"  -> IF ph = 0 THEN IF s.rx /\ s.n > 0 THEN {[st |-> s, ph |-> 1, r |-> ""]}
                                           ELSE {A(s, "err" \o ToString(op.v))}
                            ELSE {A([s EXCEPT !.val = op.v], "ok")}
      [] op.op = "close" -> {A([s EXCEPT !.n = 0], "ok")}
      [] op.op = "clone" -> {A([s EXCEPT !.n = IF @ > 0 THEN @ + 1 ELSE 0], "ok")}
      [] op.op = "drop"  -> {A([s EXCEPT !.n = IF @ > 0 THEN @ - 1 ELSE 0], "ok")}
      [] op.op = "poll"  -> {IF s.val >= 0 THEN A([s EXCEPT !.val = -1], "v" \o ToString(s.val))
                             ELSE IF s.n > 0 THEN A(s, "p") ELSE A(s, "e")}
      [] op.op = "drop_rx" -> {A([s EXCEPT !.rx = FALSE], "ok")}

\* the receiver only waits if there is nothing for it
Quiet(s, parked) == parked # {} => s.val < 0 /\ s.n > 0
Final(s, r) == r = "live0 cb0 in0"

INSTANCE Lin
=============================================================================
