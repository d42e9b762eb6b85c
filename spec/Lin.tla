--------------------------------- MODULE Lin ---------------------------------
(* Checking recorded concurrent histories: a history is accepted if every call can be
   given instants between its call and its return, at which the specification's
   operation happens, such that all results agree.

   A history is a sequence of events
     [e |-> "call", t, op], [e |-> "ret", t, r],
     [e |-> "quiet", parked]   all threads have finished or wait to be woken,
     [e |-> "final", r]        what is left after everything was dropped.
   Anything else (panic, deadlock, livelock) is never accepted.

   The histories are given as a forest in which common prefixes are shared:
     Roots[k] = [init, kids], Nodes[n] = [ev, kids, h]; h > 0 is the number of the
   history that ends with this node. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Roots, Nodes, Diag

\* Parameters given by the object's specification through INSTANCE substitution:
\*   Start(init), Acts(st, op, ph) = set of [st, ph, r]; r = "" means: not finished yet,
\*   Quiet(st, parked), Final(st, r)
CONSTANTS Start(_), Acts(_, _, _), Quiet(_, _), Final(_, _)

VARIABLES nd, i, st, pend
vars == <<nd, i, st, pend>>

Thr    == 0 .. 5
Idle   == [on |-> FALSE, op |-> [op |-> "-"], ph |-> 0, r |-> ""]

More   == i <= Len(Nodes[nd].ev)
Ev     == Nodes[nd].ev[i]
Is(e)  == More /\ Ev.e = e

Init == \E k \in DOMAIN Roots :
        /\ nd \in {Roots[k].kids[j] : j \in DOMAIN Roots[k].kids}
        /\ i = 1
        /\ st = Start(Roots[k].init)
        /\ pend = [t \in Thr |-> Idle]

\* on to the next event, in this node or one of those that follow it
Advance == IF i < Len(Nodes[nd].ev) \/ Nodes[nd].kids = <<>>
           THEN nd' = nd /\ i' = i + 1
           ELSE nd' \in {Nodes[nd].kids[j] : j \in DOMAIN Nodes[nd].kids} /\ i' = 1

Call == /\ Is("call")
        /\ pend' = [pend EXCEPT ![Ev.t] = [on |-> TRUE, op |-> Ev.op, ph |-> 0, r |-> ""]]
        /\ Advance /\ UNCHANGED st

\* an operation takes effect; only before a return or the end (calls commute with it)
Effect(t) ==
        /\ Is("ret") \/ Is("quiet")
        /\ pend[t].on /\ pend[t].r = ""
        /\ \E a \in Acts(st, pend[t].op, pend[t].ph) :
              /\ st' = a.st
              /\ pend' = [pend EXCEPT ![t].ph = a.ph, ![t].r = a.r]
        /\ UNCHANGED <<nd, i>>

Ret ==  /\ Is("ret")
        /\ pend[Ev.t].on /\ pend[Ev.t].r = Ev.r
        /\ pend' = [pend EXCEPT ![Ev.t] = Idle]
        /\ Advance /\ UNCHANGED st

Rest == /\ Is("quiet")
        /\ \A t \in Thr : ~pend[t].on
        /\ Quiet(st, {Ev.parked[k] : k \in 1 .. Len(Ev.parked)})
        /\ Advance /\ UNCHANGED <<st, pend>>

Done == /\ Is("final")
        /\ Final(st, Ev.r)
        /\ PrintT(<<"ACCEPTED", Nodes[nd].h>>)
        /\ Advance /\ UNCHANGED <<st, pend>>

Next == Call \/ (\E t \in Thr : Effect(t)) \/ Ret \/ Rest \/ Done
Spec == Init /\ [][Next]_vars
Progress == Diag => PrintT(<<"AT", nd, i>>)
=============================================================================
