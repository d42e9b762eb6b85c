------------------------------- MODULE SigOps -------------------------------
(* Combinators over one or two signals.  The inputs a and b are variables that are
   set and finally closed; a consumer that drains is told, per derived signal, the
   exact list of values it has to report since it last drained ("END" at the end),
   followed by the number of calls of the user's closure where that is counted. *)
EXTENDS Lib
CONSTANTS Vals, SimDepth
VARIABLES st, hist
vars == <<st, hist>>

S0 == [a |-> 0, b |-> 0, da |-> TRUE, db |-> TRUE,      \* value, unseen?
       ca |-> FALSE, cb |-> FALSE,                       \* closed?
       ea |-> FALSE, eb |-> FALSE,                       \* end seen?
       la |-> -1,                                        \* a at the last drain (-1: never)
       lm |-> -1,                                        \* last output of the deduped map
       stop |-> FALSE]                                   \* stop_if has stopped

Ops(s) == (IF s.ca THEN {} ELSE {[op |-> "set", k |-> "a", v |-> v] : v \in Vals} \cup {[op |-> "close", k |-> "a"]})
     \cup (IF s.cb THEN {} ELSE {[op |-> "set", k |-> "b", v |-> v] : v \in Vals} \cup {[op |-> "close", k |-> "b"]})
     \cup {[op |-> "drain"]}

\* ---- the functions the harness gives to the combinators ------------------
Test(v)   == v = 2              \* stop_if
Odd(v)    == v % 2 = 1
FM(v)     == IF Odd(v) THEN <<v + 200>> ELSE <<>>      \* filter_map: Some / None

\* ---- what is reported by a drain -----------------------------------------
First(s)  == s.la = -1
NewA(s)   == s.da
EndA(s)   == s.ca /\ ~s.ea
Fin(b)    == IF b THEN <<"END">> ELSE <<>>
One(c, v) == IF c THEN <<v>> ELSE <<>>
Calls(n)  == <<[calls |-> n]>>
B2N(c)    == IF c THEN 1 ELSE 0
Changed(s) == s.da /\ s.a # s.la
New2(s)   == s.da \/ s.db
End2(s)   == s.ca /\ s.cb /\ ~(s.ea /\ s.eb)

FMOut(s) == IF ~s.da THEN <<>>
            ELSE IF FM(s.a) # <<>> THEN <<FM(s.a)>>
            ELSE IF First(s) THEN << <<>> >> ELSE <<>>
\* stop_if: the value that satisfies the test is still reported
StopsNow(s) == ~s.stop /\ s.da /\ Test(s.a)
Bool(s, F(_)) == IF ~s.da \/ (s.la # -1 /\ F(s.a) = F(s.la)) THEN <<>> ELSE <<F(s.a)>>
DedupMapKey(v) == v \div 2                            \* dedupe after a map
DM(s) == IF s.da /\ DedupMapKey(s.a) # s.lm THEN <<DedupMapKey(s.a)>> ELSE <<>>

Outs(s) == LET end == Fin(EndA(s)) e2 == Fin(End2(s)) IN
    [ map      |-> One(s.da, s.a + 100) \o end \o Calls(B2N(s.da)),
      inspect  |-> One(s.da, s.a) \o end \o Calls(B2N(s.da)),
      stream   |-> One(s.da, s.a) \o end,
      boxed    |-> One(s.da, s.a) \o end,
      dedupe   |-> One(Changed(s), s.a) \o end,
      dedupe_cloned |-> One(Changed(s), s.a) \o end,
      dedupe_map    |-> One(Changed(s), s.a + 100) \o end \o Calls(B2N(Changed(s))),
      dedupe_mapped |-> DM(s) \o end,
      eq       |-> Bool(s, LAMBDA v : v = 1) \o end,
      neq      |-> Bool(s, LAMBDA v : v # 1) \o end,
      not      |-> One(s.da, ~Odd(s.a)) \o end,
      filter_map |-> FMOut(s) \o end \o Calls(B2N(s.da)),
      stop_if  |-> (IF s.stop THEN <<>>
                    ELSE One(s.da, s.a) \o (IF StopsNow(s) THEN <<"END">> ELSE end))
                   \o Calls(B2N(s.da /\ ~s.stop)),
      first    |-> IF First(s) THEN <<s.a, "END">> ELSE <<>>,
      option   |-> One(s.da, <<s.a>>) \o end,
      option_none |-> IF First(s) THEN << <<>>, "END">> ELSE <<>>,
      result   |-> One(s.da, <<s.a>>) \o end,
      result_err |-> IF First(s) THEN <<"err", "END">> ELSE <<>>,
      always   |-> IF First(s) THEN <<7, "END">> ELSE <<>>,
      signal_vec |-> One(s.da, [i \in 1 .. s.a |-> i]) \o end,
      map_ref  |-> One(New2(s), s.a * 10 + s.b) \o e2 \o Calls(B2N(New2(s))),
      map_mut  |-> One(New2(s), s.a * 10 + s.b) \o e2 \o Calls(B2N(New2(s))),
      map_ref_nested |-> One(New2(s), (s.a + s.b) * 100 + s.b) \o e2,
      map_ref_3 |-> One(New2(s), s.a * 100 + s.b * 10 + s.a) \o e2,
      diamond  |-> One(s.da, <<s.a, s.a + 100>>) \o end \o Calls(B2N(s.da)),
      and      |-> One(New2(s), Odd(s.a) /\ Odd(s.b)) \o e2,
      or       |-> One(New2(s), Odd(s.a) \/ Odd(s.b)) \o e2 ]

Do(s, op) ==
    CASE op.op = "set" -> IF op.k = "a" THEN [s EXCEPT !.a = op.v, !.da = TRUE]
                                        ELSE [s EXCEPT !.b = op.v, !.db = TRUE]
      [] op.op = "close" -> IF op.k = "a" THEN [s EXCEPT !.ca = TRUE] ELSE [s EXCEPT !.cb = TRUE]
      [] op.op = "drain" -> [s EXCEPT !.da = FALSE, !.db = FALSE, !.ea = s.ca, !.eb = s.cb,
                                      !.la = s.a, !.lm = DedupMapKey(s.a), !.stop = s.stop \/ StopsNow(s)]
X(s, op) == IF op.op = "drain" THEN [out |-> Outs(s)] ELSE 0

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', X(st, op))
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, 0)

SimOp(s) == LET k == RandomElement(1 .. 10)
                live == {o \in Ops(s) : o.op = "set"} IN
    IF k <= 3 \/ live = {} THEN [op |-> "drain"]
    ELSE IF k = 10 /\ Len(hist) > SimDepth \div 2 THEN RandomElement(Ops(s)) ELSE RandomElement(live)
SimNext == \E op \in IF Len(hist) < SimDepth THEN {SimOp(st)} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> X(st, op), obs |-> 0])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

\* ---- laws ---------------------------------------------------------------
TypeOK == {st.a, st.b} \subseteq Vals \cup {0} /\ (st.ea => st.ca) /\ (st.eb => st.cb)
\* a drain that follows a drain reports nothing new
Quiet == LET t == Do(st, [op |-> "drain"]) IN
    \A v \in DOMAIN Outs(t) : Outs(t)[v] \in {<<>>, Calls(0)}
\* everything ends once both inputs are closed, and only once
Ends == LET o == Outs(st) IN
    \A v \in DOMAIN o : Cardinality({i \in 1 .. Len(o[v]) : ToString(o[v][i]) = "\"END\""}) <= 1
=============================================================================
