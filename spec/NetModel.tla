------------------------------- MODULE NetModel ------------------------------
(* Exhaustive check of the drawing: for every graph of N nodes, every choice  *)
(* of roots and every parameter, each reachable node has exactly one line,    *)
(* every edge is drawn exactly once, an ellipsis stands exactly where edges   *)
(* are drawn elsewhere, and the drawing can be read back.                     *)
EXTENDS NetText
CONSTANTS N, Directed
VARIABLES g, p, rs, L
vars == <<g, p, rs, L>>
Asc(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE m \in T : \A k \in T : m <= k IN <<m>> \o F(T \ {m}) IN F(S)
Dsc(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE m \in T : \A k \in T : m >= k IN <<m>> \o F(T \ {m}) IN F(S)
Pairs == IF Directed THEN (1..N) \X (1..N) ELSE {q \in (1..N) \X (1..N) : q[1] <= q[2]}
Of(E, up) ==
  LET s(u) == {v \in 1..N : <<u, v>> \in E \/ (~Directed /\ <<v, u>> \in E)}
      t(u) == {v \in 1..N : <<v, u>> \in E \/ (~Directed /\ <<u, v>> \in E)}
      O(S) == IF up THEN Asc(S) ELSE Dsc(S)
  IN [dir |-> Directed, n |-> N, succ |-> [u \in 1..N |-> O(s(u))], pred |-> [u \in 1..N |-> O(t(u))]]
RootChoices(gg) == UNION {{s \in [1..m -> 1..N] : \A i, j \in 1..m : i < j => s[i] /= s[j]} : m \in 1..2}
Init == /\ \E E \in SUBSET Pairs, up \in {TRUE, FALSE} : g = Of(E, up)
        /\ p \in [maxd : {-1, 1, 2, 3}, coll : {{}, {1}}, vert : {TRUE, FALSE}]
        /\ (p.vert => p.maxd = -1 /\ p.coll = {})
        /\ rs \in RootChoices(g)
        /\ L = <<>>
Next == L = <<>> /\ L' = Draw(g, p, rs) /\ UNCHANGED <<g, p, rs>>
Spec == Init /\ [][Next]_vars
Whole == p.maxd = -1 /\ p.coll = {}
Lines(u) == {i \in 1..Len(L) : L[i].node = u}
NodeOnce == L /= <<>> => \A u \in 1..N : Cardinality(Lines(u)) <= 1
ReachShown == (L /= <<>> /\ Whole) => {L[i].node : i \in 1..Len(L)} \ {0} = ReachN(g, Els(rs))
Shown == {L[i].node : i \in 1..Len(L)} \ {0}
ShownEdges == {e \in Edges(g) : e[1] \in Shown /\ e[2] \in Shown}
Drawn == TreeEdges(L) \cup SideEdges(L)
\* no edge that is not there, every edge between the drawn nodes (a directed edge into a drawn node always)
EdgesReal == L /= <<>> => IF g.dir THEN Drawn \subseteq Edges(g) ELSE Und(Drawn) \subseteq Und(Edges(g))
EdgesShown == L /= <<>> => IF g.dir THEN {e \in Edges(g) : e[2] \in Shown} = Drawn ELSE Whole => Und(Drawn) = Und(ShownEdges)
\* drawn once
EdgeOnce == (L /= <<>> /\ Whole) =>
  /\ TreeEdges(L) \cap SideEdges(L) = {}
  /\ ~g.dir => /\ Cardinality(Und(Drawn)) = Cardinality(Drawn)
EllipsisHonest == L /= <<>> => \A i \in 1..Len(L) : L[i].node = 0 =>
     LET q == L[ParentOf(L, i)].node IN \E v \in Els(g.succ[q]) : \A j \in Lines(v) : ParentOf(L, j) = 0 \/ L[ParentOf(L, j)].node /= q
EllipsisThere == (L /= <<>> /\ g.dir) => \A i \in 1..Len(L) : L[i].node /= 0 =>
     ((\E v \in Els(g.succ[L[i].node]) : ~(\E j \in Lines(v) : ParentOf(L, j) = i)) <=> (\E j \in 1..Len(L) : L[j].node = 0 /\ ParentOf(L, j) = i))
\* the parents the drawing was made with are those it is read with
ReadBack == L /= <<>> => \A i \in 1..Len(L) : ParentOf(L, i) = L[i].par
DepthBound == (L /= <<>> /\ p.maxd > 0) => \A i \in 1..Len(L) : L[i].ind <= p.maxd + (IF L[i].node = 0 THEN 1 ELSE 0)
LastIsLast == L /= <<>> => \A i \in 1..Len(L) : L[i].k = "last" => \A j \in 1..Len(L) : (j /= i /\ L[j].par = L[i].par) => j < i
MidIsNot == L /= <<>> => \A i \in 1..Len(L) : L[i].k = "mid" => \E j \in (i + 1)..Len(L) : L[j].par = L[i].par
=============================================================================
