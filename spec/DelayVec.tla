------------------------------ MODULE DelayVec ------------------------------
(* delay_remove.  The state is the list of elements that are visible: live ones
   (still in the input) and ones on their way out (their future is not complete).
   The future of an element made from value e completes when gate e opens. *)
EXTENDS Lib
CONSTANTS Elems, MaxTotal, ReplLen, SimDepth
VARIABLES st, hist
vars == <<st, hist>>

\* an entry is <<value, leaving>>
S0 == [l |-> <<>>, gates |-> {}, open |-> TRUE]
Live(s) == LET f == SelectSeq(s.l, LAMBDA p : ~p[2]) IN [i \in 1 .. Len(f) |-> f[i][1]]
All(s)  == [i \in 1 .. Len(s.l) |-> s.l[i][1]]

\* 1-based position in l of the live element with 0-based index i
Pos(s, i) == CHOOSE p \in 1 .. Len(s.l) :
    /\ ~s.l[p][2]
    /\ Cardinality({q \in 1 .. (p - 1) : ~s.l[q][2]}) = i
\* 0-based insertion point for a new live element with index i
PosOrEnd(s, i) == IF i < Len(Live(s)) THEN Pos(s, i) - 1 ELSE Len(s.l)

Purge(s) == [s EXCEPT !.l = SelectSeq(s.l, LAMBDA p : ~(p[2] /\ p[1] \in s.gates))]
Leave(s, p) == Purge([s EXCEPT !.l[p] = <<@[1], TRUE>>])
LeaveAll(s) == Purge([s EXCEPT !.l = [i \in 1 .. Len(s.l) |-> <<s.l[i][1], TRUE>>]])

RECURSIVE PushAll(_, _)
PushAll(l, vs) == IF vs = <<>> THEN l ELSE PushAll(Append(l, <<Head(vs), FALSE>>), Tail(vs))

DoDiff(s, d) ==
    CASE d.op = "replace" -> LET t == LeaveAll(s) IN [t EXCEPT !.l = PushAll(t.l, d.vs)]
      [] d.op = "insert"  -> [s EXCEPT !.l = Ins(s.l, PosOrEnd(s, d.i), <<d.v, FALSE>>)]
      [] d.op = "update"  -> [s EXCEPT !.l[Pos(s, d.i)] = <<d.v, FALSE>>]
      [] d.op = "push"    -> [s EXCEPT !.l = Append(@, <<d.v, FALSE>>)]
      [] d.op = "move"    -> LET p == Pos(s, d.o)
                                 e == s.l[p]
                                 t == [s EXCEPT !.l = Del(s.l, p - 1)]
                             IN  [s EXCEPT !.l = Ins(t.l, PosOrEnd(t, d.n), e)]
      [] d.op = "remove"  -> Leave(s, Pos(s, d.i))
      [] d.op = "pop"     -> Leave(s, Pos(s, Len(Live(s)) - 1))
      [] d.op = "clear"   -> LeaveAll(s)

Fits(s, d) == Len(DoDiff(s, d).l) <= MaxTotal
\* (an identity move may or may not be seen as a change; it is left out)
Identity(d) == d.op = "move" /\ d.o = d.n
DiffOps(s, R) == {[op |-> "diff", d |-> d] : d \in {e \in Diffs(Live(s), Elems, R, MaxTotal) : ~Identity(e) /\ Fits(s, e)}}
GateOps(s) == {[op |-> "gate", e |-> e] : e \in Elems \ s.gates}
Ops(s) == (IF s.open THEN DiffOps(s, SeqsUpTo(Elems, ReplLen)) \cup {[op |-> "end"]} ELSE {}) \cup GateOps(s)

Do(s, op) ==
    CASE op.op = "diff" -> DoDiff(s, op.d)
      [] op.op = "gate" -> Purge([s EXCEPT !.gates = @ \cup {op.e}])
      [] op.op = "end"  -> [s EXCEPT !.open = FALSE]

Leaving(s) == \E i \in 1 .. Len(s.l) : s.l[i][2]
\* how often the source made for each element may still be held (per view)
Obs(s) == [views |-> [delay |-> All(s)], held |-> Counts(Elems, All(s)), ended |-> (~s.open /\ ~Leaving(s))]

\* the values for which the closure must be called, once for each
X(op) == IF op.op = "diff" THEN Entering(op.d) ELSE <<>>

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', X(op))
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, Obs(st))

SimOp(s) ==
    LET k == RandomElement(1 .. 14)
        d == RandDiff(Live(s), Elems, MaxTotal, ReplLen)
    IN  IF (k = 1 \/ Identity(d) \/ ~Fits(s, d)) /\ GateOps(s) # {} THEN RandomElement(GateOps(s))
        ELSE IF ~Identity(d) /\ Fits(s, d) THEN [op |-> "diff", d |-> d]
        ELSE [op |-> "diff", d |-> DClear]
SimNext == \E op \in IF Len(hist) < SimDepth THEN {SimOp(st)} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> X(op), obs |-> Obs(Do(st, op))])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

\* ---- laws ------------------------------------------------------------------
TypeOK == Len(st.l) <= MaxTotal
\* the live ones are exactly the input, whatever is on its way out
Mirrors == \A d \in {e \in Diffs(Live(st), Elems, {<<>>}, MaxTotal) : Fits(st, e)} :
              Live(DoDiff(st, d)) = ApplyDiff(Live(st), d)
\* nothing whose future is complete is still leaving; all gates open => equal to input
Gone == \A i \in 1 .. Len(st.l) : st.l[i][2] => st.l[i][1] \notin st.gates
Settled == st.gates = Elems => All(st) = Live(st)
=============================================================================
