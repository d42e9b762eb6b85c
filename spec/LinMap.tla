-------------------------------- MODULE LinMap --------------------------------
(* A MutableBTreeMap used from several threads: every observer sees every diff since it
   subscribed, in one order for all of them, starting with the contents at that moment. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Diag
VARIABLES nd, i, st, pend

Roots == ndJsonDeserialize("roots.ndjson")
Nodes == ndJsonDeserialize("nodes.ndjson")

\* the contents: a function from keys to values, kept as a sequence of pairs in key order
Keys      == 1 .. 4
Nothing   == <<>>
Has(c, k) == \E j \in DOMAIN c : c[j][1] = k
Get(c, k) == c[CHOOSE j \in DOMAIN c : c[j][1] = k][2]
Without(c, k) == SelectSeq(c, LAMBDA e : e[1] # k)
With(c, k, v) == SelectSeq(c, LAMBDA e : e[1] < k) \o << <<k, v>> >> \o SelectSeq(c, LAMBDA e : e[1] > k)
First(in) == in.entries
RECURSIVE Flat(_)
Flat(c)   == IF c = <<>> THEN <<>> ELSE c[1] \o Flat(Tail(c))
Show(c)   == ToString(Flat(c))
Old(c, k) == IF Has(c, k) THEN "v" \o ToString(Get(c, k)) ELSE "n"

Writing == {"insert", "bump", "remove", "clear", "replace"}
W(cs, r) == [cs |-> cs, r |-> r]
Writes(c, op) ==
    CASE op.op = "insert"  -> W(<<With(c, op.k, op.v)>>, Old(c, op.k))
      [] op.op = "bump"    -> W(<<With(c, op.k, (IF Has(c, op.k) THEN Get(c, op.k) ELSE 0) + op.v)>>, Old(c, op.k))
      [] op.op = "remove"  -> IF Has(c, op.k) THEN W(<<Without(c, op.k)>>, Old(c, op.k)) ELSE W(<<>>, "n")
      [] op.op = "clear"   -> IF c = <<>> THEN W(<<>>, "ok") ELSE W(<< <<>> >>, "ok")
      [] op.op = "replace" -> W(<< << <<op.k, op.v>> >> >>, "ok")

\* contents after every diff since the start; the observers have a position in it
Start(in) == LET c == First(in) IN
             [ hist |-> <<c>>, sure |-> 1, busy |-> FALSE, todo |-> W(<<>>, ""), n |-> in.n,
               o    |-> [k \in {in.obs[j] : j \in 1 .. Len(in.obs)} |-> IF c = Nothing THEN 2 ELSE 1] ]

Now(s)   == s.hist[Len(s.hist)]
A(s, r)  == [st |-> s, ph |-> 0, r |-> r]
P(s, n)  == [st |-> s, ph |-> n, r |-> ""]

\* A change is made and told to the observers while the collection is locked. Until that is
\* done each of them may or may not have it already.
Change(s, c)  == [s EXCEPT !.busy = TRUE, !.hist = Append(@, c)]
Settle(s)     == [s EXCEPT !.busy = FALSE, !.sure = Len(s.hist)]
Locked(s, X)  == IF s.busy THEN {} ELSE X

Poll(s, k) == LET nxt == s.o[k] IN
              (IF nxt <= Len(s.hist) THEN {A([s EXCEPT !.o[k] = nxt + 1], "c" \o Show(s.hist[nxt]))} ELSE {})
              \cup (IF nxt > s.sure /\ (s.n > 0 \/ s.busy) THEN {A(s, "p")} ELSE {})
              \cup (IF nxt > Len(s.hist) /\ s.n = 0 THEN {A(s, "e")} ELSE {})

Others(s, op, ph) ==
    CASE op.op = "read"  -> Locked(s, {A(s, Show(Now(s)))})
      [] op.op = "clone" -> {A([s EXCEPT !.n = @ + 1], "ok")}
      [] op.op = "drop"  -> {A([s EXCEPT !.n = @ - 1], "ok")}
      [] op.op = "sub"   -> Locked(s, {A([s EXCEPT !.o = (op.o :> (Len(s.hist) + IF Now(s) = Nothing THEN 1 ELSE 0)) @@ @], "ok")})
      [] op.op = "unsub" -> {A([s EXCEPT !.o = [k \in DOMAIN @ \ {op.o} |-> @[k]]], "ok")}
      [] op.op = "poll"  -> Poll(s, op.o)

\* op: what is written (a sequence of contents, one per diff) and returned
Acts(s, op, ph) ==
    IF op.op \notin Writing THEN Others(s, op, ph)
    ELSE IF ph = 0 THEN Locked(s, LET w == Writes(Now(s), op) IN
                                  IF w.cs = <<>> THEN {A(s, w.r)}
                                  ELSE {P([Change(s, w.cs[1]) EXCEPT !.todo = [w EXCEPT !.cs = Tail(@)]], 1)})
    ELSE IF s.todo.cs # <<>> THEN {P([Change(s, s.todo.cs[1]) EXCEPT !.todo.cs = Tail(@)], 1)}
    ELSE {A([Settle(s) EXCEPT !.todo = W(<<>>, "")], s.todo.r)}

\* whoever waits has everything and something can still be written
Quiet(s, parked) == \A k \in parked : s.o[k] > Len(s.hist) /\ s.n > 0
Final(s, r) == r = "live0 cb0 in0"

INSTANCE Lin
=============================================================================
