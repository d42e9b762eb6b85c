------------------------------ MODULE Observers ------------------------------
(* Several observers of one shared value (a Mutable, or a Broadcaster over some
   signal), created, read and dropped at any time, each at its own pace; and the
   handles that keep the source alive. *)
EXTENDS Lib
CONSTANTS Vals, Obsrv, MaxH, Bursts, Crowds, SimDepth
VARIABLES st, hist
vars == <<st, hist>>

\* an observer: "none", "new" (unseen value), "seen" (waiting), "done" (ended)
S0 == [v |-> 0, h |-> 1, o |-> [i \in Obsrv |-> "none"]]
Closed(s) == s.h = 0
Mark(o) == [i \in DOMAIN o |-> IF o[i] = "seen" THEN "new" ELSE o[i]]

Ops(s) == (IF Closed(s) THEN {}
           ELSE {[op |-> "set", v |-> v] : v \in Vals} \cup {[op |-> "drop"]}
                \cup (IF s.h < MaxH THEN {[op |-> "clone"]} ELSE {}))
     \cup {[op |-> "sub", i |-> i] : i \in {j \in Obsrv : s.o[j] = "none"}}
     \cup UNION {{[op |-> "unsub", i |-> i], [op |-> "read", i |-> i], [op |-> "peek", i |-> i]}
                 : i \in {j \in Obsrv : s.o[j] # "none"}}
     \* n changes, each of them read at once by one observer while the others sleep
     \cup (IF Closed(s) THEN {} ELSE {[op |-> "burst", i |-> i, n |-> n, v |-> v] :
                i \in {j \in Obsrv : s.o[j] # "none"}, n \in Bursts, v \in Vals})
     \cup (IF Closed(s) THEN {}
           ELSE \* n more observers, which read, go away in two halves with a change before each
                {[op |-> "crowd", n |-> n, v |-> v] : n \in Crowds, v \in Vals}
                \* n more handles, made and dropped
                \cup {[op |-> "handles", n |-> n] : n \in Crowds \cup Bursts})

\* what observer i reports when it is polled as long as it is woken / once
ReadOut(s, i) == CASE s.o[i] = "new" -> IF Closed(s) THEN <<s.v, "END">> ELSE <<s.v>>
                   [] s.o[i] = "seen" /\ Closed(s) -> <<"END">>
                   [] OTHER -> <<>>
PeekOut(s, i) == IF ReadOut(s, i) = <<>> THEN <<>> ELSE <<ReadOut(s, i)[1]>>
After(s, i, all) == CASE s.o[i] = "new" -> IF Closed(s) /\ all THEN "done" ELSE "seen"
                      [] s.o[i] = "seen" /\ Closed(s) -> "done"
                      [] OTHER -> s.o[i]
Do(s, op) ==
    CASE op.op \in {"set", "crowd"} -> [s EXCEPT !.v = op.v, !.o = Mark(@)]
      [] op.op = "burst" -> [s EXCEPT !.v = op.v, !.o = [Mark(@) EXCEPT ![op.i] = "seen"]]
      [] op.op = "drop"  -> [s EXCEPT !.h = @ - 1]
      [] op.op = "clone" -> [s EXCEPT !.h = @ + 1]
      [] op.op = "sub"   -> [s EXCEPT !.o[op.i] = "new"]
      [] op.op = "unsub" -> [s EXCEPT !.o[op.i] = "none"]
      [] op.op = "read"  -> [s EXCEPT !.o[op.i] = After(s, op.i, TRUE)]
      [] op.op = "peek"  -> [s EXCEPT !.o[op.i] = After(s, op.i, FALSE)]
      [] op.op = "handles" -> s
X(s, op) == CASE op.op = "read" -> [got |-> ReadOut(s, op.i), v |-> s.v, done |-> After(s, op.i, TRUE) = "done"]
              [] op.op = "peek" -> [got |-> PeekOut(s, op.i)]
      [] op.op = "crowd" -> [v |-> s.v]
              [] OTHER -> 0

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', X(st, op))
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, [n |-> Cardinality({i \in Obsrv : st.o[i] # "none"})])

SimOp(s) == LET k == RandomElement(1 .. 20)
                pick(S) == LET c == {o \in Ops(s) : o.op \in S} IN
                           IF c = {} THEN [op |-> "clone"] ELSE RandomElement(c) IN
    CASE k <= 5  -> IF Closed(s) THEN pick({"read", "sub"}) ELSE pick({"set"})
      [] k <= 10 -> IF \A i \in Obsrv : s.o[i] = "none" THEN pick({"sub"}) ELSE pick({"read"})
      [] k <= 13 -> IF \A i \in Obsrv : s.o[i] = "none" THEN pick({"sub"}) ELSE pick({"peek"})
      [] k <= 15 -> IF \E i \in Obsrv : s.o[i] = "none" THEN pick({"sub"}) ELSE pick({"read"})
      [] k = 16 /\ ~Closed(s) /\ (\E i \in Obsrv : s.o[i] # "none") -> pick({"burst"})
      [] k = 17  -> IF \A i \in Obsrv : s.o[i] = "none" THEN pick({"sub"}) ELSE pick({"unsub"})
      [] k = 19 /\ ~Closed(s) /\ RandomElement(1 .. 3) = 1 -> pick({"crowd", "handles"})
      [] k = 18 /\ ~Closed(s) /\ s.h < MaxH -> pick({"clone"})
      [] k = 19 /\ s.h > 1 -> pick({"drop"})
      [] OTHER -> IF Len(hist) > SimDepth \div 2 THEN RandomElement(Ops(s))
                  ELSE RandomElement({o \in Ops(s) : o.op # "drop"})
SimNext == \E op \in IF Len(hist) < SimDepth THEN {SimOp(st)} ELSE {} :
            /\ op \in Ops(st)
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> X(st, op),
                         obs |-> [n |-> Cardinality({i \in Obsrv : Do(st, op).o[i] # "none"})]])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

TypeOK == st.h \in 0 .. MaxH
\* nobody is told twice, nobody is told too early that it is over
EndOnlyClosed == \A i \in Obsrv : st.o[i] = "done" => Closed(st)
\* whoever reads is up to date afterwards; whoever reads to the end of a closed source is done
UpToDate == \A i \in Obsrv : st.o[i] # "none" =>
    LET t == Do(st, [op |-> "read", i |-> i]) IN
        /\ ReadOut(t, i) = <<>>
        /\ t.o[i] = IF Closed(st) THEN "done" ELSE "seen"
=============================================================================
