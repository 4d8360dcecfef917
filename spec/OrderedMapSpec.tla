--------------------------- MODULE OrderedMapSpec ---------------------------
(* The ordered map as a state machine over all short operation histories.   *)
(* State: the sequence of <<key, value>> in order of first insertion, or    *)
(* nil (the zero map).  Every maximal history is emitted with the abstract  *)
(* state after each operation; the harness replays it on the real map and   *)
(* compares every observation (lookup, size, both iteration orders, keys,   *)
(* values, pair walking, channel iteration, YAML).                          *)
EXTENDS VIO, Integers
CONSTANTS Keys, Vals, MaxOps, Mode
VARIABLES m, hist, done
vars == <<m, hist, done>>

Index(s, k) == IF \E i \in 1..Len(s) : s[i][1] = k THEN CHOOSE i \in 1..Len(s) : s[i][1] = k ELSE 0
Put(s, k, v) == LET i == Index(s, k) IN IF i = 0 THEN Append(s, <<k, v>>) ELSE [s EXCEPT ![i] = <<k, v>>]
Del(s, k) == SelectSeq(s, LAMBDA p : p[1] # k)
\* byte-wise alphabetical order of the keys used here
Rank == "B" :> 1 @@ "a" :> 2 @@ "a1" :> 3 @@ "b" :> 4 @@ "10" :> -2 @@ "9" :> -1
Sorted(s) == SortSeq(s, LAMBDA p, q : Rank[p[1]] < Rank[q[1]])

Init == m = <<>> /\ hist = <<>> /\ done = FALSE
Step(op, k, v, s2) == /\ m' = s2 /\ hist' = Append(hist, [op |-> op, k |-> k, v |-> v, s |-> s2]) /\ UNCHANGED done
Set(k, v) == Step("set", k, v, Put(m, k, v))
Delete(k) == Step("del", k, 0, Del(m, k))
Sort == Step("sort", "", 0, Sorted(m))       \* SortAlpha returns a new map
Copy == Step("copy", "", 0, m)               \* From(FromOldest)
Pairs == Step("pairs", "", 0, m)             \* FromPairs(NewPair...)
Rev == Step("rev", "", 0, Reverse(m))        \* From(FromNewest)
GoMap == Step("gomap", "", 0, Sorted(m))     \* ToOrderedMap(builtin map)
Write(k, v) == /\ Index(m, k) # 0            \* writing through ValuePtr
               /\ Step("ptr", k, v, Put(m, k, v))

Ops == \/ \E k \in Keys : \/ \E v \in Vals : Set(k, v)
                          \/ Delete(k)
                          \/ Write(k, 9)
       \/ Sort \/ Copy \/ Pairs \/ Rev \/ GoMap
Next == \/ ~done /\ Len(hist) < MaxOps /\ Ops
        \/ ~done /\ Len(hist) = MaxOps /\ Emit([hist |-> hist]) /\ done' = TRUE /\ UNCHANGED <<m, hist>>
Spec == Init /\ [][Next]_vars

NoDuplicates == \A i, j \in 1..Len(m) : m[i][1] = m[j][1] => i = j
\* setting an existing key never moves it; a new key always goes last
OrderKept == [][\A k \in Keys : \A v \in Vals :
                  (hist' # hist /\ hist'[Len(hist')].op = "set" /\ hist'[Len(hist')].k = k) =>
                  LET i == Index(m, k) IN IF i = 0 THEN Index(m', k) = Len(m') ELSE Index(m', k) = i /\ Len(m') = Len(m)]_vars
=============================================================================
