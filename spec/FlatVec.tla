------------------------------- MODULE FlatVec -------------------------------
(* flatten: a vector whose elements are vectors, and switch_signal_vec: a signal
   that chooses one of the same inner vectors. *)
EXTENDS Lib
CONSTANTS Inners,       \* ids of the inner vectors
          Closers,      \* inner vectors that can end
          Tags,         \* the values of inner vector k are k * 10 + tag
          OuterMax, InnerMax, OuterRepl, InnerRepl, SimDepth
VARIABLES st, hist
vars == <<st, hist>>

IV(k) == {k * 10 + t : t \in Tags}
S0 == [o |-> <<>>, in |-> [k \in Inners |-> <<>>], closed |-> {}, open |-> TRUE]

OuterOps(s) == IF s.open
    THEN {[op |-> "outer", d |-> d] : d \in Diffs(s.o, Inners, SeqsUpTo(Inners, OuterRepl), OuterMax)} \cup {[op |-> "end"]}
    ELSE {}
InnerOps(s, k) == {[op |-> "inner", k |-> k, d |-> d] : d \in Diffs(s.in[k], IV(k), SeqsUpTo(IV(k), InnerRepl), InnerMax)}
CloseOps(s) == {[op |-> "close", k |-> k] : k \in Closers \ s.closed}
Ops(s) == OuterOps(s) \cup UNION {InnerOps(s, k) : k \in Inners \ s.closed} \cup CloseOps(s)

Do(s, op) ==
    CASE op.op = "outer" -> [s EXCEPT !.o = ApplyDiff(@, op.d)]
      [] op.op = "inner" -> [s EXCEPT !.in[op.k] = ApplyDiff(@, op.d)]
      [] op.op = "close" -> [s EXCEPT !.closed = @ \cup {op.k}]
      [] op.op = "end"   -> [s EXCEPT !.open = FALSE]

Flattened(s) == Flat([i \in 1 .. Len(s.o) |-> s.in[s.o[i]]])
Done(s) == ~s.open /\ \A i \in 1 .. Len(s.o) : s.o[i] \in s.closed
\* how often the source made for each element may still be held (per view)
Obs(s) == [views |-> [flatten |-> Flattened(s)], held |-> Counts(Inners, s.o), ended |-> Done(s)]

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', 0)
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, Obs(st))

SimOp(s) ==
    LET j == RandomElement(1 .. 10) IN
    IF j <= 5
    THEN [op |-> "outer", d |-> RandDiff(s.o, Inners, OuterMax, OuterRepl)]
    ELSE LET k == RandomElement(Inners) IN
         [op |-> "inner", k |-> k, d |-> RandDiff(s.in[k], IV(k), InnerMax, InnerRepl)]
SimNext == \E op \in IF Len(hist) < SimDepth THEN {SimOp(st)} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> 0, obs |-> Obs(Do(st, op))])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

TypeOK == Len(st.o) <= OuterMax /\ \A k \in Inners : Len(st.in[k]) <= InnerMax
RECURSIVE SumLen(_, _)
SumLen(s, i) == IF i = 0 THEN 0 ELSE Len(s.in[s.o[i]]) + SumLen(s, i - 1)
Length == Len(Flattened(st)) = SumLen(st, Len(st.o))
\* moving an inner vector moves its elements as one block
Blocks == \A o, n \in Idx(st.o) :
    Len(Flattened([st EXCEPT !.o = Mov(st.o, o, n)])) = Len(Flattened(st))
=============================================================================
