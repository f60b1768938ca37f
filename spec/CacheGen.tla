------------------------------ MODULE CacheGen ------------------------------
(* Histories of the cache: random (MODE=rand, with -simulate) or all of a    *)
(* length (MODE=all, breadth first).                                         *)
EXTENDS Cache, Json, IOUtils
Mode == IOEnv.MODE
MaxOps == atoi(IOEnv.MAXOPS)
VARIABLES hist, cap, fin
vars == <<hist, cap, fin>>
R(X) == RandomElement(X)
E(o, k, v, kvs) == [op |-> o, k |-> k, v |-> v, kvs |-> kvs]
NK == 5
RandE(x) ==
  LET o == R(1..20)  k == R(1..NK) IN
  CASE o <= 7 -> E("set", k, x, <<>>)
    [] o <= 12 -> E("get", k, 0, <<>>)
    [] o = 13 -> E("has", k, 0, <<>>)
    [] o = 14 -> E("del", k, 0, <<>>)
    [] o = 15 -> E("update", 0, 0, [i \in 1..R(1..4) |-> <<R(1..NK), 100 * x + i>>])
    [] o = 16 -> E("setdefault", k, x, <<>>)
    [] o = 17 -> E("iter", 0, 0, <<>>)
    [] o = 18 -> E("popitem", 0, 0, <<>>)
    [] o = 19 -> E("pop", k, 0, <<>>)
    [] OTHER -> E(IF R(1..4) = 1 THEN "clear" ELSE "len", 0, 0, <<>>)
All(x) == {E(o, k, x, <<>>) : o \in {"set", "get", "has", "del"}, k \in 1..3}
Start(c) == E("new", c, 0, IF Mode = "rand" THEN [i \in 1..R(0..4) |-> <<R(1..NK), 1000 + i>>] ELSE <<>>)
Init == hist = <<>> /\ cap = 0 /\ fin = FALSE
Next ==
  \/ /\ hist = <<>> /\ fin' = FALSE
     /\ \E c \in (IF Mode = "rand" THEN {R(1..4)} ELSE 1..2) : cap' = c /\ \E e \in {Start(c)} : hist' = <<e>>
  \/ /\ hist /= <<>> /\ Len(hist) <= MaxOps /\ UNCHANGED <<cap, fin>>
     /\ \E e \in (IF Mode = "rand" THEN {RandE(Len(hist))} ELSE All(Len(hist))) : hist' = Append(hist, e)
  \/ /\ Len(hist) > MaxOps /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<hist, cap>> /\ PrintT("PROGRAM " \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================
