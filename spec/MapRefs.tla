------------------------------- MODULE MapRefs -------------------------------
(* map_ref! and map_mut! over more than two signals, in all the spellings of the
   macros, and combinations of them.  Every input is set and closed independently;
   a drain reports one output if any input has news, computed from the newest value
   of every input, and END once every input has ended (an ended input keeps its last
   value).  map_mut! hands out the values held inside: what its closure writes into
   them stays until the input brings a new value.

   A combination of three or more signals is polled from first to last, and every
   input is polled each time: no news is lost when several change at once. *)
EXTENDS Lib
CONSTANTS N, Vals, SimDepth,
    Closes          \* sets of inputs that are closed together
VARIABLES st, hist
vars == <<st, hist>>
I == 1 .. N

S0 == [v |-> [i \in I |-> 0], d |-> [i \in I |-> TRUE],   \* values, unseen?
       c |-> [i \in I |-> FALSE], e |-> [i \in I |-> FALSE],  \* closed? end seen?
       h |-> <<0, 0>>]                                    \* held by map_mut for inputs 1 and 3

Ops(s) == {[op |-> "set", k |-> i, v |-> x] : i \in {j \in I : ~s.c[j]}, x \in Vals}
     \cup {[op |-> "close", ks |-> K] : K \in {J \in Closes : \A j \in J : ~s.c[j]}}
     \cup {[op |-> "drain"]}

Odd(x) == x % 2 = 1
Fin(b) == IF b THEN <<"END">> ELSE <<>>
One(b, x) == IF b THEN <<x>> ELSE <<>>
New(s, K) == \E i \in K : s.d[i]
End(s, K) == Fin((\A i \in K : s.c[i]) /\ (\E i \in K : ~s.e[i]))
Calls(b)  == <<[calls |-> IF b THEN 1 ELSE 0]>>
Num(s, is) == LET RECURSIVE F(_, _)
                  F(k, acc) == IF k > Len(is) THEN acc ELSE F(k + 1, acc * 10 + s.v[is[k]])
              IN F(1, 0)
View(s, is) == LET K == {is[k] : k \in 1 .. Len(is)} IN One(New(s, K), Num(s, is)) \o End(s, K)

\* what map_mut holds after a drain: its closure adds one (mod 3) to what it is handed
Held(s) == LET n == New(s, {1, 2, 3})
               H(k, j) == LET b == IF s.d[k] THEN s.v[k] ELSE s.h[j] IN IF n THEN (b + 1) % 3 ELSE b
           IN <<H(1, 1), H(3, 2)>>

Outs(s) == LET h == Held(s)
               n3 == New(s, {1, 2, 3})
               n4 == New(s, I) IN
    [ names3   |-> View(s, <<1, 2, 3>>) \o Calls(n3),        \* map_ref!(a, b, c => ..)
      mixed3   |-> View(s, <<3, 1, 2>>) \o Calls(n3),        \* let/name/let
      move3    |-> View(s, <<2, 3, 1>>),                     \* the old `=> move` spelling
      one      |-> View(s, <<4>>),                           \* a single input
      names4   |-> View(s, <<1, 2, 3, 4>>) \o Calls(n4),
      mut4     |-> View(s, <<4, 3, 2, 1>>) \o Calls(n4),
      five     |-> View(s, <<1, 2, 3, 4, 1>>),
      held     |-> One(n3, h[1] * 100 + s.v[2] * 10 + h[2]) \o End(s, {1, 2, 3}),
      nest_l   |-> View(s, <<1, 2, 3, 4>>),                  \* ((1 2) 3) 4
      nest_r   |-> View(s, <<1, 2, 3, 4>>),                  \* 1 (2 (3 4))
      pairs    |-> View(s, <<1, 2, 3, 4>>),                  \* (1 2) (3 4)
      patterns |-> View(s, <<1, 2, 3>>),                     \* destructuring patterns
      and3     |-> One(n3, Odd(s.v[1]) /\ Odd(s.v[2]) /\ Odd(s.v[3])) \o End(s, {1, 2, 3}),
      or3      |-> One(n3, Odd(s.v[1]) \/ Odd(s.v[2]) \/ Odd(s.v[3])) \o End(s, {1, 2, 3}),
      andor    |-> One(n4, (Odd(s.v[1]) /\ Odd(s.v[2])) \/ (Odd(s.v[3]) /\ ~Odd(s.v[4]))) \o End(s, I),
      mapped   |-> One(n3, s.v[1] + s.v[2] + s.v[3] + 60) \o End(s, {1, 2, 3}) ]

Do(s, op) ==
    CASE op.op = "set"   -> [s EXCEPT !.v[op.k] = op.v, !.d[op.k] = TRUE]
      [] op.op = "close" -> [s EXCEPT !.c = [i \in I |-> @[i] \/ i \in op.ks]]
      [] op.op = "drain" -> [s EXCEPT !.d = [i \in I |-> FALSE], !.e = s.c, !.h = Held(s)]
X(s, op) == IF op.op = "drain" THEN [out |-> Outs(s)] ELSE 0

Init == st = S0 /\ hist = <<>>
Next == \E op \in Ops(st) : /\ st' = Do(st, op) /\ hist' = hist /\ EmitT(st, op, st', X(st, op))
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, 0)

SimOp(s) == LET k == RandomElement(1 .. 10)
                live == {o \in Ops(s) : o.op = "set"} IN
    IF k <= 3 \/ live = {} THEN [op |-> "drain"]
    ELSE IF k = 10 /\ Len(hist) > SimDepth \div 2 THEN RandomElement(Ops(s)) ELSE RandomElement(live)
SimNext == \E op \in IF Len(hist) < SimDepth THEN {SimOp(st)} ELSE {} :
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> X(st, op), obs |-> 0])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

\* ---- laws ---------------------------------------------------------------
TypeOK == \A i \in I : st.v[i] \in Vals \cup {0} /\ (st.e[i] => st.c[i])
\* a drain that follows a drain reports nothing new
Quiet == LET o == Outs(Do(st, [op |-> "drain"])) IN
    \A w \in DOMAIN o : o[w] \in {<<>>, Calls(FALSE)}
\* the ways of combining the same four signals agree
Agree == LET o == Outs(st) IN o.nest_l = o.nest_r /\ o.nest_l = o.pairs /\ o.names4 = o.nest_l \o Calls(New(st, I))
=============================================================================
