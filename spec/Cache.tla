------------------------------- MODULE Cache --------------------------------
(* The bounded cache: a mapping kept in order of use.  ord is the sequence of *)
(* <<key, value>> from least to most recently used.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Keys(ord) == {ord[i][1] : i \in 1..Len(ord)}
Pos(ord, k) == CHOOSE i \in 1..Len(ord) : ord[i][1] = k
Drop(ord, k) == SelectSeq(ord, LAMBDA x : x[1] /= k)
Val(ord, k) == ord[Pos(ord, k)][2]
Touch(ord, k) == Append(Drop(ord, k), <<k, Val(ord, k)>>)
\* only as many of the most recent entries as fit
Fit(ord, cap) == IF Len(ord) > cap THEN SubSeq(ord, Len(ord) - cap + 1, Len(ord)) ELSE ord
Put(ord, k, v, cap) == Fit(Append(Drop(ord, k), <<k, v>>), cap)
RECURSIVE PutAll(_, _, _)
PutAll(ord, kvs, cap) == IF kvs = <<>> THEN ord ELSE PutAll(Put(ord, kvs[1][1], kvs[1][2], cap), Tail(kvs), cap)

\* e: [op, k, v, kvs]; the cache after it
After(ord, e, cap) ==
  CASE e.op = "set" -> Put(ord, e.k, e.v, cap)
    [] e.op \in {"get", "setdefault"} -> IF e.k \in Keys(ord) THEN Touch(ord, e.k)
                                         ELSE IF e.op = "get" THEN ord ELSE Put(ord, e.k, e.v, cap)
    [] e.op \in {"del", "pop"} -> Drop(ord, e.k)
    [] e.op = "update" -> PutAll(ord, e.kvs, cap)
    [] e.op = "popitem" -> IF ord = <<>> THEN ord ELSE SubSeq(ord, 2, Len(ord))
    [] e.op = "clear" -> <<>>
    [] OTHER -> ord                                  \* has, len, iterate, peek
\* what it returns: -1 for a missing key
Result(ord, e) ==
  CASE e.op \in {"get", "pop", "peek"} -> IF e.k \in Keys(ord) THEN Val(ord, e.k) ELSE -1
    [] e.op = "del" -> IF e.k \in Keys(ord) THEN 0 ELSE -1
    [] e.op = "setdefault" -> IF e.k \in Keys(ord) THEN Val(ord, e.k) ELSE e.v
    [] e.op = "has" -> IF e.k \in Keys(ord) THEN 1 ELSE 0
    [] e.op = "len" -> Len(ord)
    [] e.op = "popitem" -> IF ord = <<>> THEN -1 ELSE ord[1][2]
    [] OTHER -> 0
=============================================================================
