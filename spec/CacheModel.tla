----------------------------- MODULE CacheModel -----------------------------
(* Exhaustive check of the design: a clock remembers when each key was last  *)
(* stored or looked up; the cache holds exactly the most recently used keys. *)
EXTENDS Cache
CONSTANTS K, MaxCap, MaxT
VARIABLES ord, cap, clock, used, gone
vars == <<ord, cap, clock, used, gone>>
Init == ord = <<>> /\ cap \in 1..MaxCap /\ clock = 0 /\ used = [k \in K |-> 0] /\ gone = {}
Op(o, k) == [op |-> o, k |-> k, v |-> clock, kvs |-> <<>>]
Next ==
  /\ clock < MaxT /\ clock' = clock + 1 /\ cap' = cap
  /\ \E k \in K, o \in {"set", "get", "del", "has", "setdefault", "peek"} :
       /\ ord' = After(ord, Op(o, k), cap)
       /\ used' = IF o \in {"set", "setdefault"} \/ (o = "get" /\ k \in Keys(ord)) THEN [used EXCEPT ![k] = clock + 1] ELSE used
       \* keys deleted since they were last stored
       /\ gone' = IF o = "del" THEN gone \cup {k} ELSE IF o \in {"set", "setdefault"} THEN gone \ {k} ELSE gone
Spec == Init /\ [][Next]_vars
Bounded == Len(ord) <= cap
NoDup == Cardinality(Keys(ord)) = Len(ord)
\* in order of last use
Ordered == \A i, j \in 1..Len(ord) : i < j => used[ord[i][1]] < used[ord[j][1]]
\* an entry that is present was used after every stored, undeleted entry that is not
Recent == \A k \in Keys(ord), m \in K : (m \notin Keys(ord) /\ used[m] > 0 /\ m \notin gone) => used[m] < used[k]
\* only an insertion beyond the capacity drops an entry that is not deleted, and it drops the oldest
EvictOld == [][\A k \in Keys(ord) : (k \notin Keys(ord') /\ ~(\E j \in K : ord' = Drop(ord, j) /\ j = k)) =>
                 (Len(ord) = cap /\ ord[1][1] = k)]_vars
=============================================================================
