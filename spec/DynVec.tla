------------------------------- MODULE DynVec -------------------------------
(* map_signal and filter_signal_cloned: a vector of values, and one signal per
   value; every element made from value e follows the signal of e. *)
EXTENDS Lib
CONSTANTS Elems,        \* element values
          Closers,      \* those whose signal can end
          Levels,       \* values of the element signals
          MaxLen, ReplLen, SimDepth

VARIABLES st, hist
vars == <<st, hist>>

Repls == SeqsUpTo(Elems, ReplLen)
S0 == [v |-> <<>>, sig |-> [e \in Elems |-> 0], closed |-> {}, open |-> TRUE]

VecOps(s) == IF s.open THEN Diffs(s.v, Elems, Repls, MaxLen) \cup {[op |-> "end"]} ELSE {}
SigOps(s) == {[op |-> "sig", e |-> e, v |-> x] : e \in Elems \ s.closed, x \in Levels}
CloseOps(s) == {[op |-> "close", e |-> e] : e \in Closers \ s.closed}
Ops(s) == VecOps(s) \cup SigOps(s) \cup CloseOps(s)

Do(s, op) ==
    CASE op.op = "end"   -> [s EXCEPT !.open = FALSE]
      [] op.op = "sig"   -> [s EXCEPT !.sig[op.e] = op.v]
      [] op.op = "close" -> [s EXCEPT !.closed = @ \cup {op.e}]
      [] OTHER           -> [s EXCEPT !.v = ApplyDiff(s.v, op)]

Shown(s, e) == s.sig[e] % 2 = 1
MapView(s)    == [i \in 1 .. Len(s.v) |-> <<s.v[i], s.sig[s.v[i]]>>]
FilterView(s) == SelectSeq(s.v, LAMBDA e : Shown(s, e))
Done(s) == ~s.open /\ \A i \in 1 .. Len(s.v) : s.v[i] \in s.closed

\* how often the source made for each element may still be held (per view)
Obs(s) == [views |-> [map_signal |-> MapView(s), filter_signal |-> FilterView(s)],
           held |-> Counts(Elems, s.v),
           ended |-> Done(s)]

\* the values for which the closures must be called, once for each
X(op) == IF op.op \in {"end", "sig", "close"} THEN <<>> ELSE Entering(op)

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', X(op))
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, Obs(st))

SimOp(s) ==
    LET k == RandomElement(1 .. 10) IN
    CASE k <= 4 -> [op |-> "sig", e |-> RandomElement(Elems), v |-> RandomElement(Levels)]
      [] OTHER -> RandDiff(s.v, Elems, MaxLen, ReplLen)
SimNext == \E op \in IF Len(hist) < SimDepth THEN {SimOp(st)} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> X(op), obs |-> Obs(Do(st, op))])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

\* ---- laws ---------------------------------------------------------------
TypeOK == Len(st.v) <= MaxLen /\ st.closed \subseteq Closers
\* the filtered view is what remains of the mapped view when hidden ones go
Agree == FilterView(st) =
    LET f == SelectSeq(MapView(st), LAMBDA p : p[2] % 2 = 1) IN [i \in 1 .. Len(f) |-> f[i][1]]
\* nothing changes for elements whose signal ended
Frozen == \A op \in SigOps(st) : op.e \notin st.closed
=============================================================================
