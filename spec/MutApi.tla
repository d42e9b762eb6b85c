------------------------------- MODULE MutApi -------------------------------
(* The operations of Mutable / ReadOnlyMutable: what each of them returns, what
   the closures given to them are called with, and which observers are woken by
   it.  Two Mutables (because of swap), several observers; every observer is
   "none", "new" (has something to read) or "armed" (caught up and parked). *)
EXTENDS Lib
CONSTANTS Vals, Obsrv, SimDepth
VARIABLES st, hist
vars == <<st, hist>>

Ms == {0, 1}
Of(i) == i % 2                                   \* the Mutable an observer belongs to
S0 == [v |-> <<0, 1>>, o |-> [i \in Obsrv |-> "none"]]
V(s, m) == s.v[m + 1]

\* The condition given to set_if: accepts iff the new value is larger
Accept(old, new) == new > old

Writes(m) ==
       {[op |-> o, m |-> m, v |-> v] : o \in {"set", "replace", "replace_with", "replace_with_mut", "lock_write", "lock_twice",
                                             "set_if", "set_neq"}, v \in Vals}
Reads(m) == {[op |-> o, m |-> m] : o \in {"get", "get_cloned", "lock_ref", "lock_read", "lock_idle", "debug", "serde", "signals", "ro"}}
Ops(s) == UNION {Writes(m) \cup Reads(m) \cup {[op |-> "reclone", m |-> m]} : m \in Ms}
     \cup {[op |-> "swap", m |-> m, n |-> 1 - m] : m \in Ms}
     \* swapping with itself changes nothing; whether observers are told is left open
     \cup {[op |-> "swap", m |-> m, n |-> m] : m \in {k \in Ms : \A i \in Obsrv : Of(i) = k => s.o[i] # "armed"}}
     \cup {[op |-> "sub", i |-> i] : i \in {j \in Obsrv : s.o[j] = "none"}}
     \cup UNION {{[op |-> "read", i |-> i], [op |-> "unsub", i |-> i]} : i \in {j \in Obsrv : s.o[j] # "none"}}

\* the value of Mutable m after op (m is one of those it writes to)
NewV(s, op, m) ==
    CASE op.op = "swap" -> V(s, IF m = op.m THEN op.n ELSE op.m)
      [] op.op = "replace_with" -> (V(s, m) + op.v) % 3
      [] op.op = "lock_twice" -> (op.v + 1) % 3
      [] OTHER -> op.v
\* the Mutables which op changes (or may have changed, as far as anybody can tell)
Touched(s, op) ==
    CASE op.op \in {"set", "replace", "replace_with", "replace_with_mut", "lock_write", "lock_twice"} -> {op.m}
      [] op.op = "set_if"  -> IF Accept(V(s, op.m), op.v) THEN {op.m} ELSE {}
      [] op.op = "set_neq" -> IF V(s, op.m) # op.v THEN {op.m} ELSE {}
      [] op.op = "swap" -> {op.m, op.n}
      [] OTHER -> {}
Woken(s, op) == {i \in Obsrv : s.o[i] = "armed" /\ Of(i) \in Touched(s, op)}
Do(s, op) ==
    CASE op.op \in {"sub"} -> [s EXCEPT !.o[op.i] = "new"]
      [] op.op = "unsub"   -> [s EXCEPT !.o[op.i] = "none"]
      [] op.op = "read"    -> [s EXCEPT !.o[op.i] = "armed"]
      [] OTHER -> [v |-> [k \in {1, 2} |-> IF k - 1 \in Touched(s, op) THEN NewV(s, op, k - 1) ELSE s.v[k]],
                   o |-> [i \in Obsrv |-> IF i \in Woken(s, op) THEN "new" ELSE s.o[i]]]
\* what the operation returns (and what its closures were called with)
Ret(s, op) ==
    CASE op.op \in {"replace", "replace_with"} -> <<V(s, op.m)>>
      \* the closure changes the value in place as well: that is what is given back
      [] op.op = "replace_with_mut" -> <<V(s, op.m) + 10>>
      [] op.op \in {"set_if"} -> <<V(s, op.m), op.v>>
      [] op.op \in {"get", "get_cloned", "lock_ref", "lock_read", "debug", "serde", "ro", "signals"} -> <<V(s, op.m)>>
      [] op.op = "read" -> IF s.o[op.i] = "new" THEN <<V(s, Of(op.i))>> ELSE <<>>
      [] OTHER -> <<>>
SetToSeq(S) == SelectSeq([k \in 1 .. 8 |-> k - 1], LAMBDA k : k \in S)
X(s, op) == [ret |-> Ret(s, op), woken |-> SetToSeq(Woken(s, op))]

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', X(st, op))
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, st)

SimNext == \E op \in IF Len(hist) < SimDepth THEN {RandomElement(Ops(st))} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> X(st, op), obs |-> Do(st, op)])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

TypeOK == \A m \in Ms : V(st, m) \in Vals
\* an observer that is caught up has nothing to read, reading twice reads nothing
Quiet == \A i \in Obsrv : st.o[i] # "none" => Ret(Do(st, [op |-> "read", i |-> i]), [op |-> "read", i |-> i]) = <<>>
\* an operation which wakes nobody although somebody is parked has changed nothing he can see
WakeLaw == \A op \in Ops(st) : \A i \in Obsrv :
    (st.o[i] = "armed" /\ i \notin Woken(st, op)) => V(Do(st, op), Of(i)) = V(st, Of(i))
=============================================================================
