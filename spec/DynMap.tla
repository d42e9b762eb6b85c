------------------------------- MODULE DynMap -------------------------------
(* map_value_signal: a map from keys to elements, and one signal per element; the value
   of a key follows the signal of its element. *)
EXTENDS Lib
CONSTANTS NKeys, Elems, Closers, Levels, SimDepth

VARIABLES st, hist
vars == <<st, hist>>

Keys == 1 .. NKeys
Absent == -1
Empty == [k \in Keys |-> Absent]
Maps == [Keys -> Elems \cup {Absent}]
S0 == [m |-> Empty, sig |-> [e \in Elems |-> 0], closed |-> {}, open |-> TRUE]

Present(m) == SelectSeq([k \in Keys |-> k], LAMBDA k : m[k] # Absent)
Entries(m) == MapS(Present(m), LAMBDA k : <<k, m[k]>>)
FromEntries(es) == [k \in Keys |-> LET hit == {i \in 1 .. Len(es) : es[i][1] = k}
                                   IN IF hit = {} THEN Absent ELSE es[CHOOSE i \in hit : TRUE][2]]

MapOps(s) == IF ~s.open THEN {} ELSE
    {[op |-> "insert", k |-> k, v |-> e] : k \in Keys, e \in Elems}
    \cup {[op |-> "remove", k |-> k] : k \in {k \in Keys : s.m[k] # Absent}}
    \cup {[op |-> "replace", es |-> Entries(m)] : m \in Maps}
    \cup {[op |-> "clear"], [op |-> "end"]}
SigOps(s) == {[op |-> "sig", e |-> e, v |-> x] : e \in Elems \ s.closed, x \in Levels}
CloseOps(s) == {[op |-> "close", e |-> e] : e \in Closers \ s.closed}
Ops(s) == MapOps(s) \cup SigOps(s) \cup CloseOps(s)

Do(s, op) ==
    CASE op.op = "end"     -> [s EXCEPT !.open = FALSE]
      [] op.op = "sig"     -> [s EXCEPT !.sig[op.e] = op.v]
      [] op.op = "close"   -> [s EXCEPT !.closed = @ \cup {op.e}]
      [] op.op = "insert"  -> [s EXCEPT !.m[op.k] = op.v]
      [] op.op = "remove"  -> [s EXCEPT !.m[op.k] = Absent]
      [] op.op = "clear"   -> [s EXCEPT !.m = Empty]
      [] op.op = "replace" -> [s EXCEPT !.m = FromEntries(op.es)]

Shown(s) == MapS(Present(s.m), LAMBDA k : <<k, s.m[k] * 10 + s.sig[s.m[k]]>>)
Done(s) == ~s.open /\ \A k \in Keys : s.m[k] = Absent \/ s.m[k] \in s.closed

\* the combination map_value_signal + key_cloned must follow key 1 alone
Key1(s) == IF s.m[1] = Absent THEN <<>> ELSE <<s.m[1] * 10 + s.sig[s.m[1]]>>

\* how often the source made for each element may still be held (per view)
Obs(s) == [views |-> [map_value_signal |-> Shown(s), key1 |-> Key1(s)],
           held |-> Counts(Elems, MapS(Present(s.m), LAMBDA k : s.m[k])),
           ended |-> Done(s)]

\* the values for which the closure must be called, once for each
X(op) == CASE op.op = "insert" -> <<op.v>>
           [] op.op = "replace" -> [i \in 1 .. Len(op.es) |-> op.es[i][2]]
           [] OTHER -> <<>>

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', X(op))
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, Obs(st))

SimOp(s) ==
    LET k == RandomElement(1 .. 10) IN
    CASE k <= 4 -> [op |-> "sig", e |-> RandomElement(Elems), v |-> RandomElement(Levels)]
      [] k \in {5, 6} /\ s.m # Empty -> [op |-> "remove", k |-> RandomElement({x \in Keys : s.m[x] # Absent})]
      [] k = 7 /\ RandomElement(1 .. 3) = 1 -> [op |-> "clear"]
      [] k = 8 -> [op |-> "replace", es |-> RandEntries(NKeys, Elems)]
      [] OTHER -> [op |-> "insert", k |-> RandomElement(Keys), v |-> RandomElement(Elems)]
SimNext == \E op \in IF Len(hist) < SimDepth THEN {SimOp(st)} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> X(op), obs |-> Obs(Do(st, op))])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

\* ---- laws ---------------------------------------------------------------
TypeOK == st.closed \subseteq Closers /\ st.m \in Maps
RoundTrip == FromEntries(Entries(st.m)) = st.m
KeyAgrees == Key1(st) = LET p == SelectSeq(Shown(st), LAMBDA e : e[1] = 1) IN [i \in 1 .. Len(p) |-> p[i][2]]
=============================================================================
