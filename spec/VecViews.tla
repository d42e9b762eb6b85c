------------------------------ MODULE VecViews ------------------------------
(* One source vector and everything that can be derived from it by a single
   combinator.  The state is the contents of the source and whether it is still
   open; the transitions are all valid diffs.  Obs is what a consumer of each
   derived view must hold once it has caught up.
   Values are key * 2 + tag: predicates and comparisons look at the key only, so
   that ties are distinguishable. *)
EXTENDS Lib
CONSTANTS Keys, MaxLen, ReplLen, SimDepth

VARIABLES st, hist
vars == <<st, hist>>

Vals    == {k * 2 + t : k \in Keys, t \in {0, 1}}
Repls   == SeqsUpTo(Vals, ReplLen)
Key(v)  == v \div 2

\* The user functions given to the combinators (the harness uses the same ones)
MapF(v)     == v + 100
Keeps(v)    == Key(v) % 2 = 1            \* filter
KeepsM(v)   == Key(v) % 2 = 0            \* filter_map keeps these ...
FMapF(v)    == v + 200                   \* ... and maps them
SortKey(v)  == 0 - Key(v)                \* descending by key

S0 == [v |-> <<>>, open |-> TRUE]

Ops(s) == IF s.open
          THEN Diffs(s.v, Vals, Repls, MaxLen) \cup {[op |-> "end"]}
          ELSE {}

Do(s, op) == IF op.op = "end" THEN [s EXCEPT !.open = FALSE]
             ELSE [s EXCEPT !.v = ApplyDiff(s.v, op)]

Enter(op) == IF op.op = "end" THEN <<>> ELSE Entering(op)

Views(v) ==
    [ plain      |-> v,
      map        |-> MapS(v, MapF),
      filter     |-> Keep(v, Keeps),
      filter_map |-> MapS(Keep(v, KeepsM), FMapF),
      sort       |-> StableSort(v, SortKey),
      sort_asc   |-> StableSort(v, LAMBDA x : x),
      enumerate  |-> [i \in 1 .. Len(v) |-> <<i - 1, v[i]>>],
      len        |-> Len(v),
      is_empty   |-> (v = <<>>),
      sum        |-> SumS(v),
      to_signal  |-> v,
      to_signal_map |-> <<Len(v), SumS(v)>> ]

Obs(s) == [views |-> Views(s.v), ended |-> ~s.open]

Init == st = S0 /\ hist = <<>>

\* Exhaustive exploration (prints the LTS)
Next == \E op \in Ops(st) :
            /\ st' = Do(st, op)
            /\ hist' = hist
            /\ EmitT(st, op, st', Enter(op))
Spec == Init /\ [][Next]_vars
EmitState == EmitS(st, Obs(st))

\* Random behaviours at larger constants (-simulate)
Pick(s) == RandDiff(s.v, Vals, MaxLen, ReplLen)

SimNext == \E op \in {IF Len(hist) = SimDepth - 1 /\ RandomElement(1 .. 3) = 1
                        THEN [op |-> "end"] ELSE Pick(st)} :
            /\ Len(hist) < SimDepth
            /\ st' = Do(st, op)
            /\ hist' = Append(hist, [op |-> op, x |-> Enter(op), obs |-> Obs(Do(st, op))])
SimSpec == Init /\ [][SimNext]_vars
EmitSim == Len(hist) = SimDepth => EmitB(hist)

\* ---- properties of the specification itself -------------------------------
Count(s, v) == Cardinality({i \in 1 .. Len(s) : s[i] = v})
IsPerm(s, t) == Len(s) = Len(t) /\ \A v \in Vals : Count(s, v) = Count(t, v)

TypeOK == Len(st.v) <= MaxLen /\ \A i \in 1 .. Len(st.v) : st.v[i] \in Vals

Laws == LET w == Views(st.v) IN
    /\ IsPerm(w.sort, st.v)
    /\ \A i, j \in 1 .. Len(w.sort) : i < j => Key(w.sort[i]) >= Key(w.sort[j])
    /\ \A k \in Keys : Keep(w.sort, LAMBDA v : Key(v) = k) = Keep(st.v, LAMBDA v : Key(v) = k)
    /\ Len(w.filter) + Len(w.filter_map) = Len(st.v)
    /\ \A i, j \in 1 .. Len(w.sort_asc) : i < j => w.sort_asc[i] <= w.sort_asc[j]
    /\ w.is_empty <=> w.len = 0
    /\ w.to_signal_map[2] = w.sum
    /\ \A i \in 1 .. Len(w.enumerate) : w.enumerate[i][1] = i - 1

\* Removing and re-inserting is the same as moving; every diff keeps its promise
DiffLaws == \A op \in Ops(st) : op.op # "end" => ValidDiff(st.v, op)
MoveLaw == \A o, n \in Idx(st.v) :
    /\ Len(Mov(st.v, o, n)) = Len(st.v)
    /\ At(Mov(st.v, o, n), n) = At(st.v, o)
    /\ Mov(Mov(st.v, o, n), n, o) = st.v
=============================================================================
