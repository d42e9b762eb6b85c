------------------------------- MODULE Compose -------------------------------
(* Pipelines put together from the library's combinators.  Sources: vectors A and B,
   one signal per key G, a selector signal T, a map M.  A pipeline is a start followed
   by stages, each a function of the vector before it and of the sources; whatever the
   stages are, a consumer that polls only when woken and has parked holds exactly that
   function of the current sources, and sees the end when (and only when) everything
   that can still contribute has ended. *)
EXTENDS Lib
CONSTANTS Vals, MaxA, BVals, MaxB, NG, NKeys, MaxPipe, ManyPipes, Closing, SimDepth
VARIABLES st, hist
vars == <<st, hist>>

Starts == {"A", "keys", "entries", "mvs", "keyc", "tsig", "fixed", "mfixed", "kfixed", "pushes"}
Plain  == {"map", "filter", "filter_map", "sort", "delay", "delay_late", "to_sig", "to_sig_map", "len", "sum", "empty",
           "bcast", "stream", "vstream", "sig_map", "dedupe", "dedupe_map", "future", "future_late", "throttle", "throttle_late", "inspect", "vdebug", "option"}
Twice  == {"tee", "diamond"}
WithB  == {"chain_b", "b_chain", "flat", "flat_b"}
WithG  == {"map_sig", "filter_sig", "sig_flat", "sig_ref"}
WithT  == {"switch", "sig_switch", "mapref", "mapmut", "guard"}
Odd    == {"enum"}
Stages == Plain \cup Twice \cup WithB \cup WithG \cup WithT \cup Odd
UsesA(p) == p[1] = "A"
UsesB(p) == \E i \in 1 .. Len(p) : p[i] \in WithB \cup {"switch"}
UsesG(p) == \E i \in 1 .. Len(p) : p[i] \in WithG \cup {"mvs"}
UsesT(p) == \E i \in 1 .. Len(p) : p[i] \in WithT \cup {"tsig"}
UsesP(p) == p[1] = "pushes"
UsesM(p) == p[1] \in {"keys", "entries", "mvs", "keyc"}

Keys == 1 .. NKeys
Absent == -1
S0 == [p |-> <<>>, A |-> <<>>, B |-> <<>>, G |-> [k \in 0 .. NG - 1 |-> 0], T |-> 0, M |-> [k \in Keys |-> Absent], P |-> <<>>, c |-> {}]

\* ---- what a pipeline shows -----------------------------------------------------
Present(m) == SelectSeq([k \in Keys |-> k], LAMBDA k : m[k] # Absent)
Bit(b) == IF b THEN 1 ELSE 0
Start(s, n) ==
    CASE n = "A" -> s.A
      [] n = "keys" -> Present(s.M)
      [] n = "entries" -> MapS(Present(s.M), LAMBDA k : (k * 3 + s.M[k]) % 10)
      [] n = "mvs" -> MapS(Present(s.M), LAMBDA k : (k + s.M[k] + s.G[s.M[k] % NG]) % 10)
      [] n = "keyc" -> IF s.M[1] = Absent THEN <<>> ELSE <<s.M[1]>>
      [] n = "tsig" -> <<s.T, 7>>
      [] n = "fixed" -> <<3, 1, 2>>
      \* a map that never changes, {1: 2, 2: 6}, with its values increased; its value of key 2
      [] n = "mfixed" -> <<4, 9>>
      [] n = "kfixed" -> <<6>>
      \* a stream of values, each of them pushed
      [] n = "pushes" -> s.P
\* the inner vector made for element v by "flat" / "flat_b"
Inner(s, v) == CASE v % 3 = 0 -> <<>> [] v % 3 = 1 -> s.B [] OTHER -> <<v, (v + 1) % 10>>
Apply(s, n, in) ==
    CASE n = "map" -> MapS(in, LAMBDA v : (v * 3 + 1) % 10)
      [] n = "filter" -> SelectSeq(in, LAMBDA v : v % 2 = 0)
      [] n = "filter_map" -> MapS(SelectSeq(in, LAMBDA v : v % 3 # 0), LAMBDA v : (v + 5) % 10)
      [] n = "sort" -> StableSort(in, LAMBDA v : v)
      [] n \in {"delay", "delay_late", "to_sig", "bcast", "stream", "vstream", "dedupe", "future", "future_late",
                "throttle", "throttle_late", "inspect", "vdebug", "option"} -> in
      [] n \in {"to_sig_map", "sig_map"} -> Rev(in)
      [] n = "dedupe_map" -> <<Len(in)>>
      [] n = "len" -> [i \in 1 .. Len(in) |-> i % 10]
      [] n = "sum" -> <<SumS(in) % 10>>
      [] n = "empty" -> <<Bit(in = <<>>)>>
      [] n = "tee" -> in \o in
      [] n = "diamond" -> Append(in, Len(in) % 10)
      [] n = "chain_b" -> in \o s.B
      [] n = "b_chain" -> s.B \o in
      [] n = "flat" -> Flat(MapS(in, LAMBDA v : Inner(s, v)))
      [] n = "flat_b" -> Flat(MapS(s.B, LAMBDA v : in))
      [] n = "map_sig" -> MapS(in, LAMBDA v : (v + s.G[v % NG]) % 10)
      [] n = "filter_sig" -> SelectSeq(in, LAMBDA v : s.G[v % NG] = 1)
      [] n = "sig_flat" -> Append(in, s.G[Len(in) % NG])
      [] n = "sig_ref" -> MapS(in, LAMBDA v : (v + s.G[0]) % 10)
      [] n = "switch" -> CASE s.T = 0 -> in [] s.T = 1 -> s.B [] OTHER -> <<>>
      [] n \in {"sig_switch", "mapref", "mapmut"} -> Append(in, s.T)
      [] n = "guard" -> IF s.T = 0 /\ in # <<>> THEN in ELSE <<9>>
      [] n = "enum" -> [i \in 1 .. Len(in) |-> (in[i] + i - 1) % 10]

\* ---- when it ends: "y", "n", or "a" (left open) ---------------------------------
Yes(b) == IF b THEN "y" ELSE "n"
And(x, y) == IF x = "n" \/ y = "n" THEN "n" ELSE IF x = "a" \/ y = "a" THEN "a" ELSE "y"
Closed(s, x) == Yes(x \in s.c)
StartEnds(s, n) ==
    CASE n = "A" -> Closed(s, "A")
      [] n \in {"keys", "entries", "keyc"} -> Closed(s, "M")
      [] n = "mvs" -> And(Closed(s, "M"), IF Present(s.M) = <<>> THEN "y" ELSE Closed(s, "G"))
      [] n = "tsig" -> Closed(s, "T")
      [] n \in {"fixed", "mfixed", "kfixed"} -> "y"
      [] n = "pushes" -> Closed(s, "P")
Ends(s, n, in, e) ==
    CASE n \in {"chain_b", "b_chain"} -> And(e, Closed(s, "B"))
      [] n = "flat" -> And(e, IF \E i \in 1 .. Len(in) : in[i] % 3 = 1 THEN Closed(s, "B") ELSE "y")
      [] n = "flat_b" -> And(Closed(s, "B"), IF s.B = <<>> THEN "y" ELSE e)
      [] n \in {"map_sig", "filter_sig"} -> And(e, IF in = <<>> THEN "y" ELSE Closed(s, "G"))
      [] n \in {"sig_flat", "sig_ref"} -> And(e, Closed(s, "G"))
      [] n = "switch" -> And(Closed(s, "T"), CASE s.T = 0 -> e [] s.T = 1 -> Closed(s, "B") [] OTHER -> "y")
      [] n \in {"sig_switch", "mapref", "mapmut", "guard"} -> And(e, Closed(s, "T"))
      \* (whether the index signals end is a matter of when they are dropped)
      [] n = "enum" -> IF in = <<>> THEN e ELSE And(e, "a")
      [] OTHER -> e
RECURSIVE Run(_, _, _)
Run(s, k, acc) == IF k > Len(s.p) THEN acc
                  ELSE LET n == s.p[k] IN Run(s, k + 1, [v |-> Apply(s, n, acc.v), e |-> Ends(s, n, acc.v, acc.e)])
Whole(s) == Run(s, 2, [v |-> Start(s, s.p[1]), e |-> StartEnds(s, s.p[1])])

\* Too much doubling is of no use
Fine(p) == Cardinality({i \in 1 .. Len(p) : p[i] \in Twice \cup {"flat", "flat_b"}}) <= 2
Pipes == UNION {{<<a>> \o q : a \in Starts, q \in [1 .. n -> Stages]} : n \in 0 .. MaxPipe}
RandomPipe == LET n == RandomElement(1 .. ManyPipes)
                  a == IF RandomElement(1 .. 3) > 1 THEN "A" ELSE RandomElement(Starts)
                  q == <<a>> \o [i \in 1 .. n |-> RandomElement(Stages)]
              IN IF Fine(q) THEN q ELSE <<a>> \o [i \in 1 .. n |-> RandomElement(Stages \ (Twice \cup {"flat", "flat_b"}))]

\* ---- transitions -----------------------------------------------------------------
Maps == [Keys -> (0 .. 2) \cup {Absent}]
Entries(m) == MapS(Present(m), LAMBDA k : <<k, m[k]>>)
Open(s, x) == x \notin s.c
Names == {"A", "B", "G", "T", "M", "P"}
Uses(s, x) == CASE x = "A" -> UsesA(s.p) [] x = "B" -> UsesB(s.p) [] x = "G" -> UsesG(s.p) [] x = "T" -> UsesT(s.p) [] x = "M" -> UsesM(s.p) [] x = "P" -> UsesP(s.p)
Can(s, x) == Open(s, x) /\ Uses(s, x)
Tag(x, D) == {[op |-> "vec", x |-> x, d |-> d] : d \in D}
OpsOf(s, x, repls) ==
    IF ~ Can(s, x) THEN {}
    ELSE CASE x = "A" -> Tag("A", Diffs(s.A, Vals, repls, MaxA))
           [] x = "B" -> Tag("B", Diffs(s.B, BVals, {r \in repls : \A i \in 1 .. Len(r) : r[i] \in BVals}, MaxB))
           [] x = "P" -> IF Len(s.P) < MaxA THEN {[op |-> "emit", v |-> v] : v \in Vals} ELSE {}
           [] x = "G" -> {[op |-> "sig", k |-> k, v |-> v] : k \in 0 .. NG - 1, v \in {0, 1}}
           [] x = "T" -> {[op |-> "sel", v |-> v] : v \in 0 .. 2}
           [] x = "M" -> {[op |-> "minsert", k |-> k, v |-> v] : k \in Keys, v \in 0 .. 2}
                         \cup {[op |-> "mremove", k |-> k] : k \in {j \in Keys : s.M[j] # Absent}}
                         \cup {[op |-> "mreplace", es |-> Entries(m)] : m \in {[k \in Keys |-> Absent], [k \in Keys |-> k % 3]}}
CloseOps(s) == {[op |-> "close", x |-> x] : x \in {y \in Names : Closing /\ Can(s, y)}}
Ops(s) == IF s.p = <<>> THEN {[op |-> "build", p |-> p, ng |-> NG] : p \in {q \in Pipes : Fine(q)}}
          ELSE UNION {OpsOf(s, x, SeqsUpTo(Vals, 1)) : x \in Names} \cup CloseOps(s)
FromEntries(es) == [k \in Keys |-> LET hit == {i \in 1 .. Len(es) : es[i][1] = k}
                                   IN IF hit = {} THEN Absent ELSE es[CHOOSE i \in hit : TRUE][2]]
Do(s, op) ==
    CASE op.op = "build" -> [s EXCEPT !.p = op.p]
      [] op.op = "vec" -> IF op.x = "A" THEN [s EXCEPT !.A = ApplyDiff(@, op.d)] ELSE [s EXCEPT !.B = ApplyDiff(@, op.d)]
      [] op.op = "sig" -> [s EXCEPT !.G[op.k] = op.v]
      [] op.op = "emit" -> [s EXCEPT !.P = Append(@, op.v)]
      [] op.op = "sel" -> [s EXCEPT !.T = op.v]
      [] op.op = "minsert" -> [s EXCEPT !.M[op.k] = op.v]
      [] op.op = "mremove" -> [s EXCEPT !.M[op.k] = Absent]
      [] op.op = "mreplace" -> [s EXCEPT !.M = FromEntries(op.es)]
      [] op.op = "close" -> [s EXCEPT !.c = @ \cup {op.x}]
      [] OTHER -> s
Obs(s) == IF s.p = <<>> THEN [views |-> [none |-> 0], ends |-> [out |-> "a"]]
          ELSE LET w == Whole(s) IN [views |-> [out |-> w.v], ends |-> IF w.e = "a" THEN [none |-> TRUE] ELSE [out |-> w.e = "y"]]

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', 0)
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, Obs(st))

RandSeqOf(S, n) == [i \in 1 .. RandomElement(0 .. n) |-> RandomElement(S)]
SimOp(s) ==
    IF s.p = <<>> THEN [op |-> "build", p |-> RandomPipe, ng |-> NG]
    ELSE LET able == {x \in Names : Can(s, x)}
             late == Len(hist) > SimDepth - 12
         IN  IF able = {} THEN [op |-> "idle"]
             ELSE LET x == RandomElement(able)
                      cl == IF late /\ Closing THEN RandomElement(1 .. 3) = 1 ELSE FALSE
                      os == OpsOf(s, x, {RandSeqOf(IF x = "B" THEN BVals ELSE Vals, IF x = "B" THEN MaxB ELSE MaxA)})
                      calm == {o \in os : o.op # "vec" \/ o.d.op # "clear" \/ RandomElement(1 .. 3) = 1}
                  IN  IF cl THEN [op |-> "close", x |-> x]
                      ELSE IF calm = {} THEN [op |-> "idle"] ELSE RandomElement(calm)
SimNext == \E op \in IF Len(hist) < SimDepth THEN {SimOp(st)} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> 0, obs |-> Obs(Do(st, op))])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

\* ---- laws ------------------------------------------------------------------------
TypeOK == Len(st.A) <= MaxA /\ Len(st.B) <= MaxB /\ st.c \subseteq Names
\* nothing has ended while all sources are open (unless it needs none of them), and
\* everything has (or is left open) once all are closed
EndLaw == st.p # <<>> =>
    /\ (\A x \in Names : Uses(st, x) => x \in st.c) => Whole(st).e # "n"
    /\ (st.c = {} /\ (UsesA(st.p) \/ UsesM(st.p)) /\ ~ (\E i \in 1 .. Len(st.p) : st.p[i] \in {"switch", "flat_b"})) => Whole(st).e = "n"
\* a closed source does not change any more
Quiet == \A op \in Ops(st) : op.op = "vec" => op.x \notin st.c
=============================================================================
