------------------------------- MODULE MutVec -------------------------------
(* The whole MutableVec API.  State: contents, number of live handles, and
   whether an operation panicked while it held the lock (after which the object
   can only be dropped).  Every transition carries the value the call must return
   and whether it must be silent (nothing to do => nothing sent). *)
EXTENDS Lib
CONSTANTS Vals, MaxLen, ReplLen, Many, SimDepth

VARIABLES st, hist
vars == <<st, hist>>

S0 == [v |-> <<>>, h |-> 1, dead |-> FALSE]

Repls == SeqsUpTo(Vals, ReplLen)
None == <<>>
Some(x) == <<x>>

DrainForms(s, a, b) ==
    {"half", "exclstart", "dropped", "some", "back"}
    \cup (IF b > a THEN {"incl"} ELSE {})
    \cup (IF a = 0 THEN {"to"} ELSE {})
    \cup (IF a = 0 /\ b > 0 THEN {"toincl"} ELSE {})
    \cup (IF b = Len(s) THEN {"from"} ELSE {})
    \cup (IF a = 0 /\ b = Len(s) THEN {"full"} ELSE {})
\* "exclstart" excludes the bound before a, so it needs one
Forms(s, a, b) == IF a = 0 THEN DrainForms(s, a, b) \ {"exclstart"} ELSE DrainForms(s, a, b)

\* The operation set, split by kind so that the simulator can choose a kind first
Kinds == {"push", "insert", "set", "remove", "pop", "clear", "replace", "move", "swap",
          "retain", "drain", "truncate", "reverse", "extend", "apply", "caps", "many", "clone", "drop", "oob"}

OpsOf(s, kind) ==
    LET v == s.v room == Len(v) < MaxLen IN
    CASE kind = "push"    -> IF room THEN {[op |-> "push", v |-> x] : x \in Vals} ELSE {}
      [] kind = "insert"  -> IF room THEN {[op |-> "insert", i |-> i, v |-> x] : i \in Gaps(v), x \in Vals} ELSE {}
      [] kind = "set"     -> {[op |-> "set", i |-> i, v |-> x] : i \in Idx(v), x \in Vals}
      [] kind = "remove"  -> {[op |-> "remove", i |-> i] : i \in Idx(v)}
      [] kind = "pop"     -> {[op |-> "pop"]}
      [] kind = "clear"   -> {[op |-> "clear"]}
      [] kind = "replace" -> {[op |-> "replace", vs |-> r] : r \in Repls}
      [] kind = "move"    -> {[op |-> "move", o |-> o, n |-> n] : o \in Idx(v), n \in Idx(v)}
      [] kind = "swap"    -> {[op |-> "swap", a |-> o, b |-> n] : o \in Idx(v), n \in Idx(v)}
      [] kind = "retain"  -> {[op |-> "retain", keep |-> k] : k \in SUBSET Vals}
      [] kind = "drain"   -> UNION {{[op |-> "drainrange", a |-> a, b |-> b, form |-> f] : f \in Forms(v, a, b)}
                                    : <<a, b>> \in {p \in Gaps(v) \X Gaps(v) : p[1] <= p[2]}}
      [] kind = "truncate" -> {[op |-> "truncate", n |-> n] : n \in 0 .. (Len(v) + 1)}
      [] kind = "reverse" -> {[op |-> "reverse"]}
      [] kind = "extend"  -> {[op |-> "extend", vs |-> r] : r \in {q \in Repls : Len(q) + Len(v) <= MaxLen}}
      [] kind = "apply"   -> {[op |-> "apply", d |-> d] : d \in Diffs(v, Vals, Repls, MaxLen)}
      \* operations which concern the capacity only; reading the whole thing in other ways
      [] kind = "caps"    -> {[op |-> "caps", call |-> c] : c \in {"reserve", "reserve_exact", "shrink_to_fit", "idle", "serde"}}
      \* n more handles made and dropped; n more subscribers, for the time of two changes
      [] kind = "many"    -> {[op |-> "handles", n |-> n] : n \in Many}
                             \cup (IF room THEN {[op |-> "crowd", n |-> n, v |-> x] : n \in Many, x \in {CHOOSE y \in Vals : TRUE}} ELSE {})
      [] kind = "clone"   -> IF s.h < 2 THEN {[op |-> "clone"]} ELSE {}
      [] kind = "drop"    -> {[op |-> "drop"]}
      [] kind = "oob"     -> {[op |-> "oob", call |-> c, i |-> Len(v)] : c \in {"set", "remove", "drain", "drainfrom"}}
                             \cup {[op |-> "oob", call |-> "insert", i |-> Len(v) + 1]}
                             \cup {[op |-> "oob", call |-> "swap", i |-> Len(v)]}
                             \cup (IF v # <<>> THEN {[op |-> "oob", call |-> "move", i |-> Len(v)]} ELSE {})

Ops(s) == IF s.h = 0 THEN {}
          ELSE IF s.dead THEN OpsOf(s, "drop")
          ELSE UNION {OpsOf(s, k) : k \in Kinds}

Retained(v, keep) == SelectSeq(v, LAMBDA x : x \in keep)

RECURSIVE Contents(_, _)
Contents(v, op) ==
    CASE op.op = "push"     -> Append(v, op.v)
      [] op.op = "insert"   -> Ins(v, op.i, op.v)
      [] op.op = "set"      -> Put(v, op.i, op.v)
      [] op.op = "remove"   -> Del(v, op.i)
      [] op.op = "pop"      -> IF v = <<>> THEN v ELSE Butlast(v)
      [] op.op = "clear"    -> <<>>
      [] op.op = "replace"  -> op.vs
      [] op.op = "move"     -> Mov(v, op.o, op.n)
      [] op.op = "swap"     -> Swp(v, op.a, op.b)
      [] op.op = "retain"   -> Retained(v, op.keep)
      [] op.op = "drainrange"    -> Cut(v, op.a, op.b)
      [] op.op = "truncate" -> IF op.n < Len(v) THEN SubSeq(v, 1, op.n) ELSE v
      [] op.op = "reverse"  -> Rev(v)
      [] op.op = "extend"   -> v \o op.vs
      [] op.op = "apply"    -> ApplyDiff(v, op.d)
      [] op.op = "batch"    -> LET r[k \in 0 .. Len(op.ops)] == IF k = 0 THEN v ELSE Contents(r[k - 1], op.ops[k])
                               IN  r[Len(op.ops)]
      [] OTHER              -> v

Do(s, op) ==
    CASE op.op = "clone" -> [s EXCEPT !.h = @ + 1]
      [] op.op = "drop"  -> [s EXCEPT !.h = @ - 1]
      [] op.op = "oob"   -> [s EXCEPT !.dead = TRUE]
      [] OTHER           -> [s EXCEPT !.v = Contents(s.v, op)]

\* What the call returns (a sequence: <<>> for nothing / None)
RECURSIVE Ret(_, _)
Ret(s, op) ==
    CASE op.op = "remove" -> Some(At(s.v, op.i))
      [] op.op = "pop"    -> IF s.v = <<>> THEN None ELSE Some(s.v[Len(s.v)])
      \* an iterator that is not used up drops the rest of the range
      [] op.op = "drainrange"  ->
            LET d == SubSeq(s.v, op.a + 1, op.b) IN
            CASE op.form = "dropped" -> <<>>
              [] op.form = "some"    -> IF d = <<>> THEN <<>> ELSE <<d[1]>>
              [] op.form = "back"    -> Rev(d)
              [] OTHER               -> d
      [] op.op = "batch" -> LET r[k \in 0 .. Len(op.ops)] ==
                                    IF k = 0 THEN [v |-> s.v, ret |-> <<>>]
                                    ELSE [v |-> Contents(r[k - 1].v, op.ops[k]),
                                          ret |-> Append(r[k - 1].ret, Ret([s EXCEPT !.v = r[k - 1].v], op.ops[k]))]
                            IN  r[Len(op.ops)].ret
      [] op.op = "retain" -> s.v        \* the values the predicate is called with, in order
      [] OTHER            -> None

RECURSIVE Silent(_, _)
Silent(s, op) ==
    \/ op.op \in {"clone", "drop", "oob", "caps", "handles"}
    \/ op.op = "batch" /\ LET r[k \in 0 .. Len(op.ops)] ==
                                   IF k = 0 THEN [v |-> s.v, quiet |-> TRUE]
                                   ELSE [v |-> Contents(r[k - 1].v, op.ops[k]),
                                         quiet |-> r[k - 1].quiet /\ Silent([s EXCEPT !.v = r[k - 1].v], op.ops[k])]
                           IN  r[Len(op.ops)].quiet
    \/ op.op \in {"pop", "clear"} /\ s.v = <<>>
    \/ op.op = "move" /\ op.o = op.n
    \/ op.op = "swap" /\ op.a = op.b
    \/ op.op \in {"retain", "drainrange", "truncate"} /\ Contents(s.v, op) = s.v
    \/ op.op = "reverse" /\ Len(s.v) <= 1
    \/ op.op = "extend" /\ op.vs = <<>>
    \/ op.op = "apply" /\ op.d.op = "clear" /\ s.v = <<>>
    \/ op.op = "apply" /\ op.d.op = "move" /\ op.d.o = op.d.n

\* the contents passed through on the way
At1(v, op, k) == Contents(v, [op EXCEPT !.ops = SubSeq(op.ops, 1, k - 1)])
Path(s, op) ==
    CASE op.op = "crowd" -> <<Append(s.v, op.v)>>
      [] op.op = "batch" -> Flat([k \in 1 .. Len(op.ops) |->
                               IF Silent([s EXCEPT !.v = At1(s.v, op, k)], op.ops[k]) THEN <<>> ELSE <<At1(s.v, op, k + 1)>>])
      [] OTHER -> <<>>
X(s, op) == [ret |-> Ret(s, op), silent |-> Silent(s, op), path |-> Path(s, op)]
Obs(s) == [views |-> [replica |-> s.v], contents |-> s.v, ended |-> s.h = 0, dead |-> s.dead]

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) :
            /\ st' = Do(st, op)
            /\ hist' = hist
            /\ EmitT(st, op, st', X(st, op))
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, Obs(st))

\* one random operation of a kind (sizes at which OpsOf cannot be enumerated)
RandDrain(v) ==
    LET p == RandomElement(Gaps(v)) IN
    LET b == RandomElement(p .. Len(v)) IN
    [op |-> "drainrange", a |-> p, b |-> b, form |-> RandomElement(Forms(v, p, b))]
RandOp(s, kind) ==
    LET v == s.v room == MaxLen - Len(v) IN
    CASE kind = "push" /\ room > 0    -> [op |-> "push", v |-> RandomElement(Vals)]
      [] kind = "insert" /\ room > 0  -> [op |-> "insert", i |-> RandomElement(Gaps(v)), v |-> RandomElement(Vals)]
      [] kind = "set" /\ v # <<>>     -> [op |-> "set", i |-> RandomElement(Idx(v)), v |-> RandomElement(Vals)]
      [] kind = "remove" /\ v # <<>>  -> [op |-> "remove", i |-> RandomElement(Idx(v))]
      [] kind = "replace"             -> [op |-> "replace", vs |-> RandSeq(Vals, RandLen(ReplLen))]
      [] kind = "move" /\ v # <<>>    -> [op |-> "move", o |-> RandomElement(Idx(v)), n |-> RandomElement(Idx(v))]
      [] kind = "swap" /\ v # <<>>    -> [op |-> "swap", a |-> RandomElement(Idx(v)), b |-> RandomElement(Idx(v))]
      [] kind = "drain"               -> RandDrain(v)
      [] kind = "extend"              -> [op |-> "extend", vs |-> RandSeq(Vals, RandRange(0, IF room < ReplLen THEN room ELSE ReplLen))]
      [] kind = "apply"               -> [op |-> "apply", d |-> RandDiff(v, Vals, MaxLen, ReplLen)]
      [] kind \in {"clear", "retain", "truncate", "reverse", "clone", "caps", "many"} /\ OpsOf(s, kind) # {}
                                      -> RandomElement(OpsOf(s, kind))
      [] OTHER                        -> [op |-> "pop"]
SimKinds == {"push", "insert", "set", "remove", "pop", "clear", "replace", "move", "swap",
             "retain", "drain", "truncate", "reverse", "extend", "apply", "clone", "caps", "many"}
\* the kinds that keep the contents long, at the larger sizes
KeepKinds == {"push", "insert", "set", "remove", "pop", "move", "swap", "drain", "reverse", "extend", "apply"}
SimOp(s) ==
    LET j == RandomElement(1 .. 5) IN
    LET k == RandomElement(IF MaxLen <= 10 \/ j = 1 THEN SimKinds ELSE KeepKinds) IN
    IF k = "drain" /\ MaxLen > 10
    THEN LET p == RandomElement(Gaps(s.v)) IN
         LET b == RandomElement(p .. (IF p + 3 < Len(s.v) THEN p + 3 ELSE Len(s.v))) IN
         [op |-> "drainrange", a |-> p, b |-> b, form |-> RandomElement(Forms(s.v, p, b))]
    ELSE RandOp(s, k)
\* several operations through one write lock
RECURSIVE Batch(_, _)
Batch(s, n) == IF n = 0 THEN <<>>
               ELSE LET op == RandOp(s, RandomElement(SimKinds \ {"clone", "many"})) IN
                    <<op>> \o Batch([s EXCEPT !.v = Contents(s.v, op)], n - 1)
SimStep(s) == IF RandomElement(1 .. 6) = 1 THEN [op |-> "batch", ops |-> Batch(s, RandRange(0, 4))] ELSE SimOp(s)
SimNext == \E op \in IF Len(hist) < SimDepth THEN {SimStep(st)} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> X(st, op), obs |-> Obs(Do(st, op))])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

\* ---- laws -----------------------------------------------------------------
TypeOK == Len(st.v) <= MaxLen /\ st.h \in 0 .. 2
SilentKeeps == \A op \in Ops(st) : Silent(st, op) => Contents(st.v, op) = st.v
Swaps == \A a, b \in Idx(st.v) : Swp(Swp(st.v, a, b), a, b) = st.v
Reverses == Rev(Rev(st.v)) = st.v
Conserve == \A op \in {o \in OpsOf(st, "drain") : o.form \notin {"dropped", "some"}} : Len(Ret(st, op)) + Len(Contents(st.v, op)) = Len(st.v)
=============================================================================
