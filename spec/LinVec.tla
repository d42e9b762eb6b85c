-------------------------------- MODULE LinVec --------------------------------
(* A MutableVec used from several threads: every observer sees every diff since it
   subscribed, in one order for all of them, starting with the contents at that moment. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Diag
VARIABLES nd, i, st, pend

Roots == ndJsonDeserialize("roots.ndjson")
Nodes == ndJsonDeserialize("nodes.ndjson")

Nothing   == <<>>
First(in) == in.vals
Show(c)   == ToString(c)
V(v)      == "v" \o ToString(v)

Writing == {"push", "push2", "insert", "pop", "remove0", "set0", "rotate", "clear", "replace"}
W(cs, r) == [cs |-> cs, r |-> r]
Writes(c, op) ==
    CASE op.op = "push"    -> W(<<Append(c, op.v)>>, "ok")
      [] op.op = "push2"   -> W(<<Append(c, op.v), c \o <<op.v, op.v + 1>> >>, "ok")
      [] op.op = "insert"  -> W(<< <<op.v>> \o c >>, "ok")
      [] op.op = "pop"     -> IF c = <<>> THEN W(<<>>, "n") ELSE W(<<SubSeq(c, 1, Len(c) - 1)>>, V(c[Len(c)]))
      [] op.op = "remove0" -> IF c = <<>> THEN W(<<>>, "n") ELSE W(<<Tail(c)>>, V(c[1]))
      [] op.op = "set0"    -> IF c = <<>> THEN W(<<>>, "ok") ELSE W(<<[c EXCEPT ![1] = op.v]>>, "ok")
      [] op.op = "rotate"  -> IF Len(c) < 2 THEN W(<<>>, "ok") ELSE W(<<Append(Tail(c), c[1])>>, "ok")
      [] op.op = "clear"   -> IF c = <<>> THEN W(<<>>, "ok") ELSE W(<< <<>> >>, "ok")
      [] op.op = "replace" -> W(<< <<op.v, op.v + 1>> >>, "ok")

\* contents after every diff since the start; the observers have a position in it
Start(in) == LET c == First(in) IN
             [ hist |-> <<c>>, sure |-> 1, busy |-> FALSE, todo |-> W(<<>>, ""), n |-> in.n,
               o    |-> [k \in {in.obs[j] : j \in 1 .. Len(in.obs)} |-> IF c = Nothing THEN 2 ELSE 1] ]

Now(s)   == s.hist[Len(s.hist)]
A(s, r)  == [st |-> s, ph |-> 0, r |-> r]
P(s, n)  == [st |-> s, ph |-> n, r |-> ""]

\* A change is made and told to the observers while the collection is locked. Until that is
\* done each of them may or may not have it already.
Change(s, c)  == [s EXCEPT !.busy = TRUE, !.hist = Append(@, c)]
Settle(s)     == [s EXCEPT !.busy = FALSE, !.sure = Len(s.hist)]
Locked(s, X)  == IF s.busy THEN {} ELSE X

Poll(s, k) == LET nxt == s.o[k] IN
              (IF nxt <= Len(s.hist) THEN {A([s EXCEPT !.o[k] = nxt + 1], "c" \o Show(s.hist[nxt]))} ELSE {})
              \cup (IF nxt > s.sure /\ (s.n > 0 \/ s.busy) THEN {A(s, "p")} ELSE {})
              \cup (IF nxt > Len(s.hist) /\ s.n = 0 THEN {A(s, "e")} ELSE {})

Others(s, op, ph) ==
    CASE op.op = "read"  -> Locked(s, {A(s, Show(Now(s)))})
      [] op.op = "clone" -> {A([s EXCEPT !.n = @ + 1], "ok")}
      [] op.op = "drop"  -> {A([s EXCEPT !.n = @ - 1], "ok")}
      [] op.op = "sub"   -> Locked(s, {A([s EXCEPT !.o = (op.o :> (Len(s.hist) + IF Now(s) = Nothing THEN 1 ELSE 0)) @@ @], "ok")})
      [] op.op = "unsub" -> {A([s EXCEPT !.o = [k \in DOMAIN @ \ {op.o} |-> @[k]]], "ok")}
      [] op.op = "poll"  -> Poll(s, op.o)

\* op: what is written (a sequence of contents, one per diff) and returned
Acts(s, op, ph) ==
    IF op.op \notin Writing THEN Others(s, op, ph)
    ELSE IF ph = 0 THEN Locked(s, LET w == Writes(Now(s), op) IN
                                  IF w.cs = <<>> THEN {A(s, w.r)}
                                  ELSE {P([Change(s, w.cs[1]) EXCEPT !.todo = [w EXCEPT !.cs = Tail(@)]], 1)})
    ELSE IF s.todo.cs # <<>> THEN {P([Change(s, s.todo.cs[1]) EXCEPT !.todo.cs = Tail(@)], 1)}
    ELSE {A([Settle(s) EXCEPT !.todo = W(<<>>, "")], s.todo.r)}

\* whoever waits has everything and something can still be written
Quiet(s, parked) == \A k \in parked : s.o[k] > Len(s.hist) /\ s.n > 0
Final(s, r) == r = "live0 cb0 in0"

INSTANCE Lin
=============================================================================
