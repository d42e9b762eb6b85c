------------------------------- MODULE Channel -------------------------------
(* signal::channel used from one thread: what send returns, what the receiver
   reads and when it is woken, when it ends, and how many values are kept.
   slot holds the newest value that has not been read (at most one). *)
EXTENDS Lib
CONSTANTS Vals, Senders, Bursts, SimDepth
VARIABLES st, hist
vars == <<st, hist>>

S0 == [tx |-> {0}, open |-> TRUE, slot |-> <<0>>, rx |-> "new", inplace |-> FALSE]
\* rx: "new" (never parked, or woken), "armed" (parked with a waker), "ended", "gone"
\* inplace: the task of the receiver is polled by whoever wakes it, within the wake-up
Live(s) == s.rx # "gone"
Open(s) == Live(s) /\ s.open /\ s.tx # {}

Ops(s) ==
    UNION {{[op |-> "send", i |-> i, v |-> v] : v \in Vals}
           \cup {[op |-> "close", i |-> i], [op |-> "drop", i |-> i], [op |-> "debug", i |-> i]}
           \cup {[op |-> "clone", i |-> i, j |-> j] : j \in Senders \ s.tx}
           \* many clones of the sender, which are then dropped again
           \cup {[op |-> "clones", i |-> i, n |-> n] : n \in Bursts}
           \* many sends, the receiver reads each of them (or none)
           \cup {[op |-> "sends", i |-> i, n |-> n, v |-> 1, read |-> r] : n \in IF s.inplace THEN {} ELSE Bursts, r \in BOOLEAN} : i \in s.tx}
    \cup (IF s.rx \in {"new", "armed"} THEN {[op |-> "read"]} \cup (IF s.inplace THEN {} ELSE {[op |-> "poll"], [op |-> "inplace"]}) ELSE {})
    \cup (IF Live(s) THEN {[op |-> "drop_rx"]} ELSE {})

Wake(s) == IF s.rx = "armed" THEN "new" ELSE s.rx
\* what one poll gives
Poll1(s) == IF s.slot # <<>> THEN s.slot ELSE IF Open(s) THEN <<>> ELSE <<"END">>
Read(s)  == s.slot \o (IF Open(s) THEN <<>> ELSE <<"END">>)

Do1(s, op) ==
    CASE op.op = "send"  -> IF Open(s) THEN [s EXCEPT !.slot = <<op.v>>, !.rx = Wake(s)] ELSE s
      [] op.op = "sends" -> IF ~ Open(s) THEN s
                            ELSE IF op.read /\ s.rx # "ended" THEN [s EXCEPT !.slot = <<>>, !.rx = "armed"]
                            ELSE [s EXCEPT !.slot = <<op.v>>, !.rx = Wake(s)]
      [] op.op = "close" -> IF Open(s) THEN [s EXCEPT !.open = FALSE, !.rx = Wake(s)] ELSE s
      [] op.op = "drop"  -> LET t == [s EXCEPT !.tx = @ \ {op.i}] IN IF Open(s) /\ ~ Open(t) THEN [t EXCEPT !.rx = Wake(s)] ELSE t
      [] op.op = "clone" -> [s EXCEPT !.tx = @ \cup {op.j}]
      [] op.op \in {"read", "inplace"} -> [s EXCEPT !.slot = <<>>, !.rx = IF Open(s) THEN "armed" ELSE "ended", !.inplace = @ \/ op.op = "inplace"]
      [] op.op = "poll"  -> IF s.slot # <<>> THEN [s EXCEPT !.slot = <<>>, !.rx = "new"]
                            ELSE [s EXCEPT !.rx = IF Open(s) THEN "armed" ELSE "ended"]
      [] op.op = "drop_rx" -> [s EXCEPT !.rx = "gone", !.slot = <<>>]
      [] OTHER -> s
InPlace(s, op) == s.inplace /\ s.rx = "armed" /\ Do1(s, op).rx = "new"
Do(s, op)  == IF InPlace(s, op) THEN Do1(Do1(s, op), [op |-> "read"]) ELSE Do1(s, op)
Got(s, op) == IF InPlace(s, op) THEN Read(Do1(s, op)) ELSE <<>>
Ret(s, op) ==
    CASE op.op = "send" -> IF Open(s) THEN <<>> ELSE <<op.v>>
      [] op.op = "sends" -> IF Open(s) THEN <<>> ELSE <<op.v>>
      [] op.op \in {"read", "inplace"} -> Read(s)
      [] op.op = "poll" -> Poll1(s)
      [] OTHER -> <<>>
\* the receiver must be woken: it was parked and now has something to find
X(s, op) == [ret |-> Ret(s, op), got |-> Got(s, op), woken |-> s.rx = "armed" /\ (Do1(s, op).rx = "new" \/ (op.op = "sends" /\ Open(s)))]
Obs(s) == [live |-> Len(s.slot), ended |-> s.rx = "ended"]

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', X(st, op))
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, Obs(st))

\* Closing ends a behaviour soon: choose those operations rarely
Weigh(S) == LET calm == {o \in S : o.op \notin {"close", "drop_rx", "clones", "sends", "inplace"}}
            IN IF calm # {} /\ RandomElement(1 .. 8) > 1 THEN RandomElement(calm)
               ELSE IF S # {} THEN RandomElement(S) ELSE [op |-> "idle"]
SimNext == \E op \in IF Len(hist) < SimDepth THEN {Weigh(Ops(st))} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> X(st, op), obs |-> Obs(Do(st, op))])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

\* polled in place, the receiver is always up to date
UpToDate == st.inplace => st.slot = <<>> /\ st.rx # "new"
TypeOK == Len(st.slot) <= 1 /\ st.tx \subseteq Senders
\* nobody is parked while there is something to read or the end to be seen
NoLostWake == st.rx = "armed" => st.slot = <<>> /\ Open(st)
\* the end is seen only after the last value, and is final
EndLast == st.rx = "ended" => ~ Open(st) /\ st.slot = <<>>
\* a closed channel never opens again
Closed == \A op \in Ops(st) : ~ Open(st) => ~ Open(Do(st, op))
\* an accepted value is the one the next read gives
Newest == \A op \in Ops(st) : op.op = "send" /\ Ret(st, op) = <<>> => (Got(st, op) \o Read(Do(st, op)))[1] = op.v
=============================================================================
