-------------------------------- MODULE Lib --------------------------------
(* Shared vocabulary: 0-based sequence editing (as in Rust's Vec), printing of
   labelled transition systems, and small helpers. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

\* ---- 0-based editing of sequences --------------------------------------
Idx(s)          == 0 .. (Len(s) - 1)            \* valid indices of an element
Gaps(s)         == 0 .. Len(s)                  \* valid insertion points
At(s, i)        == s[i + 1]
Ins(s, i, v)    == SubSeq(s, 1, i) \o <<v>> \o SubSeq(s, i + 1, Len(s))
Del(s, i)       == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
Put(s, i, v)    == [s EXCEPT ![i + 1] = v]
Mov(s, o, n)    == Ins(Del(s, o), n, At(s, o))
Cut(s, a, b)    == SubSeq(s, 1, a) \o SubSeq(s, b + 1, Len(s))   \* drop [a, b)
Swp(s, a, b)    == [s EXCEPT ![a + 1] = s[b + 1], ![b + 1] = s[a + 1]]
Rev(s)          == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
Butlast(s)      == SubSeq(s, 1, Len(s) - 1)

SeqsUpTo(S, n)  == UNION {[1 .. k -> S] : k \in 0 .. n}

Keep(s, T(_))   == SelectSeq(s, T)
MapS(s, F(_))   == [i \in 1 .. Len(s) |-> F(s[i])]
\* how often each of V occurs in s
Counts(V, s)    == {<<k, Cardinality({i \in 1 .. Len(s) : s[i] = k})>> : k \in V}

RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* Stable sort by a key operator: values paired with their positions
StableSort(s, SKey(_)) ==
    LET pairs == [i \in 1 .. Len(s) |-> <<SKey(s[i]), i, s[i]>>]
        r == SortSeq(pairs, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
    IN  [i \in 1 .. Len(s) |-> r[i][3]]

\* ---- vec diffs ----------------------------------------------------------
\* A diff is a record with field "op"; only its own parameters are present.
DReplace(vs)   == [op |-> "replace", vs |-> vs]
DInsert(i, v)  == [op |-> "insert", i |-> i, v |-> v]
DUpdate(i, v)  == [op |-> "update", i |-> i, v |-> v]
DRemove(i)     == [op |-> "remove", i |-> i]
DMove(o, n)    == [op |-> "move", o |-> o, n |-> n]
DPush(v)       == [op |-> "push", v |-> v]
DPop           == [op |-> "pop"]
DClear         == [op |-> "clear"]

ApplyDiff(s, d) ==
    CASE d.op = "replace" -> d.vs
      [] d.op = "insert"  -> Ins(s, d.i, d.v)
      [] d.op = "update"  -> Put(s, d.i, d.v)
      [] d.op = "remove"  -> Del(s, d.i)
      [] d.op = "move"    -> Mov(s, d.o, d.n)
      [] d.op = "push"    -> Append(s, d.v)
      [] d.op = "pop"     -> Butlast(s)
      [] d.op = "clear"   -> <<>>

\* A diff is in range for contents s
ValidDiff(s, d) ==
    CASE d.op = "insert"  -> d.i \in Gaps(s)
      [] d.op = "update"  -> d.i \in Idx(s)
      [] d.op = "remove"  -> d.i \in Idx(s)
      [] d.op = "move"    -> d.o \in Idx(s) /\ d.n \in Idx(s)
      [] d.op = "pop"     -> s # <<>>
      [] OTHER            -> TRUE

\* All diffs that keep the contents within maxLen, with values from V and
\* replacement contents from R.
Diffs(s, V, R, maxLen) ==
    {DReplace(vs) : vs \in R}
    \cup (IF Len(s) < maxLen
          THEN {DInsert(i, v) : i \in Gaps(s), v \in V} \cup {DPush(v) : v \in V}
          ELSE {})
    \cup {DUpdate(i, v) : i \in Idx(s), v \in V}
    \cup {DRemove(i) : i \in Idx(s)}
    \cup {DMove(o, n) : o \in Idx(s), n \in Idx(s)}
    \cup (IF s # <<>> THEN {DPop} ELSE {})
    \cup {DClear}

\* Values that enter the contents with a diff (in order)
Entering(d) ==
    CASE d.op = "replace" -> d.vs
      [] d.op \in {"insert", "update", "push"} -> <<d.v>>
      [] OTHER -> <<>>

\* ---- random choices (simulation at sizes where Diffs cannot be enumerated) ---
RECURSIVE RandSeq(_, _)
RandSeq(V, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<RandomElement(V)>>
                 ELSE RandSeq(V, n \div 2) \o RandSeq(V, n - n \div 2)
RandRange(a, b) == RandomElement(a .. b)
\* a length up to n; where n is beyond 256 mostly one near that size
RandLen(n) == IF n <= 256 THEN RandRange(0, n)
              ELSE RandomElement({0, 3, 127, 128, 129, 254, 255, 256, 257, 258, n - 1, n})
\* the entries of a random map from (some of) the keys 1 .. n
RECURSIVE RandEntries(_, _)
RandEntries(n, V) == IF n = 0 THEN <<>>
    ELSE IF RandomElement({0, 1}) = 0 THEN RandEntries(n - 1, V)
    ELSE Append(RandEntries(n - 1, V), <<n, RandomElement(V)>>)
\* one diff, kinds weighted so that contents grow to about maxLen
RandDiff(s, V, maxLen, repl) ==
    LET k == RandomElement(1 .. 14) IN
    CASE k <= 9 /\ s = <<>> /\ repl > 256 -> DReplace(RandSeq(V, RandLen(repl)))
      [] k <= 3 /\ Len(s) < maxLen -> DInsert(RandomElement(Gaps(s)), RandomElement(V))
      [] k = 4 /\ Len(s) < maxLen  -> DPush(RandomElement(V))
      [] k \in {5, 6} /\ s # <<>>  -> DUpdate(RandomElement(Idx(s)), RandomElement(V))
      [] k \in {7, 8} /\ s # <<>>  -> DRemove(RandomElement(Idx(s)))
      [] k \in {9, 10, 11} /\ s # <<>> -> DMove(RandomElement(Idx(s)), RandomElement(Idx(s)))
      [] k = 12 /\ s # <<>>        -> DPop
      [] k = 13                    -> IF RandomElement(1 .. 4) = 1 THEN DClear ELSE DReplace(RandSeq(V, RandLen(repl)))
      [] OTHER -> IF Len(s) < maxLen THEN DPush(RandomElement(V)) ELSE DRemove(RandomElement(Idx(s)))

\* ---- exporting a labelled transition system -------------------------------
\* One line per transition and one per state; read by run/lts.py
EmitT(s, op, t, extra) == PrintT("@T@" \o ToJson([s |-> s, op |-> op, t |-> t, x |-> extra]))
EmitS(s, o)            == PrintT("@S@" \o ToJson([s |-> s, obs |-> o]))
EmitB(h)               == PrintT("@B@" \o ToJson(h))
=============================================================================
