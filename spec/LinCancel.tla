------------------------------- MODULE LinCancel -------------------------------
(* cancelable_future: one task polls it, other threads discard (or leak) the handle and
   let the inner future complete.
   State: open - the inner future can complete; here - the handle still exists;
   cancelled - it was discarded; inside - the inner future discards the handle itself,
   while it is polled; fut - the future still exists. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Diag
VARIABLES nd, i, st, pend

Roots == ndJsonDeserialize("roots.ndjson")
Nodes == ndJsonDeserialize("nodes.ndjson")

Start(in) == [open |-> FALSE, here |-> TRUE, cancelled |-> FALSE, inside |-> in.inside, done |-> FALSE, cb |-> 0]
A(s, r) == [st |-> s, ph |-> 0, r |-> r]
P(s, n) == [st |-> s, ph |-> n, r |-> ""]

\* the callback has run exactly once if the task was cancelled and never otherwise
Cancelled(s) == A([s EXCEPT !.done = TRUE, !.cb = 1], "end2 cb1")
Completed(s) == A([s EXCEPT !.done = TRUE], "end1 cb0")

Acts(s, op, ph) ==
    CASE op.op = "discard" -> IF ph = 0 THEN IF s.here THEN {P([s EXCEPT !.here = FALSE], 1)} ELSE {A(s, "ok")}
                              ELSE {A([s EXCEPT !.cancelled = TRUE], "ok")}
      [] op.op = "leak"    -> {A([s EXCEPT !.here = FALSE], "ok")}
      [] op.op = "open"    -> {A([s EXCEPT !.open = TRUE], "ok")}
      [] op.op = "drop_fut" -> {A([s EXCEPT !.done = TRUE], "ok")}
      [] op.op = "poll" /\ s.done -> {A(s, "gone")}   \* (the harness does not poll it then)
      [] op.op = "poll" /\ ph = 0 ->
            \* a cancelled task never polls the inner future
            IF s.cancelled THEN {Cancelled(s)}
            \* the inner future is polled: it may be cancelled by itself, then looks whether it is complete
            ELSE IF s.inside /\ s.here THEN {P([s EXCEPT !.here = FALSE], 2)} ELSE {P(s, 1)}
      [] op.op = "poll" /\ ph = 2 -> {P([s EXCEPT !.cancelled = TRUE], 1)}
      \* complete, or (it may have been cancelled meanwhile) not
      [] op.op = "poll" /\ ph = 1 -> IF s.open THEN {Completed(s)} ELSE {P(s, 3)}
      \* (if it does not complete although it was cancelled, then it must be woken: see Quiet)
      [] op.op = "poll" /\ ph = 3 -> {A(s, "p")} \cup IF s.cancelled THEN {Cancelled(s)} ELSE {}

\* whoever waits is neither cancelled nor complete
Quiet(s, parked) == parked # {} => ~s.cancelled /\ ~s.open
Final(s, r) == r = "live0 cb" \o ToString(s.cb) \o " in0"

INSTANCE Lin
=============================================================================
