------------------------------ MODULE NetText -------------------------------
(* Drawing a graph as text.  A graph is [dir, n, succ, pred]: nodes 1..n and, *)
(* for each, the sequence of its successors and of its predecessors (both are *)
(* the neighbors when it is undirected).  A drawing is a sequence of lines    *)
(* [ind, k, node, oth, lo, par]: the number of indentation units before the   *)
(* label, the connection ("root", "mid", "last" or "vert"), the node (0 for   *)
(* an ellipsis), the nodes listed on the right (all of lo, none but oth), and *)
(* the line of the tree parent; cont[u] tells what unit u of the indentation  *)
(* continues.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Els(s) == {s[i] : i \in 1..Len(s)}
Edges(g) == {<<u, v>> : u \in 1..g.n, v \in 1..g.n} \cap UNION {{<<u, g.succ[u][i]>> : i \in 1..Len(g.succ[u])} : u \in 1..g.n}
Und(E) == {{e[1], e[2]} : e \in E}
RECURSIVE ReachN(_, _)
ReachN(g, S) == LET T == S \cup UNION {Els(g.succ[u]) : u \in S} IN IF T = S THEN S ELSE ReachN(g, T)
\* all pairs, for the components
RECURSIVE Without(_, _)
Without(s, S) == SelectSeq(s, LAMBDA x : x \notin S)

(* p: [maxd (-1: none), coll (set of collapsed nodes), vert]                  *)
(* a drawing in progress: [seen, lines]                                       *)
Trunc(p, node, dep) == node \in p.coll \/ (p.maxd >= 0 /\ dep = p.maxd - 1)
RECURSIVE Node(_, _, _, _, _, _, _, _, _)
RECURSIVE Kids(_, _, _, _, _, _, _, _, _)
\* draws node; the glyph of its connection is set by the caller
Node(g, p, d, node, par, pline, ind, k, dep) ==
  LET seen == d.seen \cup {node}
      all == IF g.dir THEN g.succ[node] ELSE Without(g.succ[node], seen)
      cut == Trunc(p, node, dep)
      oth == {x \in Els(g.pred[node]) : x /= par /\ (g.dir \/ x \notin Els(all))}
      up == IF cut THEN {x \in Els(g.pred[node]) : x /= par} ELSE oth
      line == [ind |-> ind, k |-> k, node |-> node, oth |-> up, lo |-> oth, par |-> pline]
      d1 == [seen |-> seen, lines |-> Append(d.lines, line)]
      me == Len(d1.lines)
      one == p.vert /\ Cardinality(Els(all)) = 1 /\ ~cut
  IN IF cut THEN (IF Len(all) = 0 THEN d1 ELSE
                  [d1 EXCEPT !.lines = Append(@, [ind |-> ind + 1, k |-> "last", node |-> 0, oth |-> {}, lo |-> {}, par |-> me])])
     ELSE Kids(g, p, d1, all, node, me, IF one THEN ind ELSE ind + 1, IF one THEN "vert" ELSE "mid", dep + 1)
\* the first kids of kid, in order; after the last one the ellipsis
Kids(g, p, d, kids, par, pline, ind, k, dep) ==
  LET new == {i \in 1..Len(kids) : kids[i] \notin d.seen} IN
  IF new = {} THEN
    LET missing == {i \in 1..Len(kids) : \A l \in 1..Len(d.lines) : d.lines[l].node = kids[i] => d.lines[l].par /= pline}
        mine == {l \in 1..Len(d.lines) : d.lines[l].par = pline}
        lastl == CHOOSE l \in mine : \A m \in mine : m <= l
    IN IF missing /= {} THEN [d EXCEPT !.lines = Append(@, [ind |-> IF k = "vert" THEN ind + 1 ELSE ind, k |-> "last", node |-> 0, oth |-> {}, lo |-> {}, par |-> pline])]
       ELSE IF mine = {} \/ k = "vert" THEN d ELSE [d EXCEPT !.lines[lastl].k = "last"]
  ELSE LET i == CHOOSE i \in new : \A j \in new : i <= j
       IN Kids(g, p, Node(g, p, d, kids[i], par, pline, ind, k, dep), kids, par, pline, ind, k, dep)
RECURSIVE Roots(_, _, _, _)
Roots(g, p, d, rs) ==
  IF rs = <<>> THEN d
  ELSE Roots(g, p, IF rs[1] \in d.seen THEN d ELSE Node(g, p, d, rs[1], 0, 0, 1, "root", 0), Tail(rs))
Draw(g, p, rs) == Roots(g, p, [seen |-> {}, lines |-> <<>>], rs).lines

\* what unit u of the indentation of line i continues: the ancestor whose label stands there
RECURSIVE Anc(_, _, _)
Anc(L, i, u) == IF i = 0 THEN 0 ELSE IF L[i].ind <= u THEN (IF L[i].k = "vert" THEN Anc(L, L[i].par, u) ELSE i) ELSE Anc(L, L[i].par, u)
\* 1: more siblings follow, 0: none
Cont(L, i, u) == LET a == Anc(L, i, u) IN
                 IF L[a].k = "mid" THEN 1 ELSE IF L[a].k = "last" THEN 0
                 ELSE IF \E j \in (a + 1)..Len(L) : L[j].k = "root" THEN 1 ELSE 0

(* Reading a drawing back: the parent of a line is the closest node line above *)
(* that has one unit less of indentation, or the line above for a vertical    *)
(* connection.                                                                *)
ParentOf(L, i) ==
  IF L[i].k = "root" THEN 0 ELSE
  LET c == {j \in 1..(i - 1) : L[j].node /= 0 /\ (IF L[i].k = "vert" THEN TRUE ELSE L[j].ind = L[i].ind - 1)}
  IN CHOOSE j \in c : \A m \in c : m <= j
TreeEdges(L) == {<<L[ParentOf(L, i)].node, L[i].node>> : i \in {j \in 1..Len(L) : L[j].node /= 0 /\ L[j].k /= "root"}}
SideEdges(L) == UNION {{<<v, L[i].node>> : v \in L[i].oth} : i \in 1..Len(L)}

\* the smallest sets of nodes that reach every node: one for each component that nothing else reaches
Reach1(g) == [u \in 1..g.n |-> ReachN(g, {u})]
IsSource(g, R, u) == \A v \in 1..g.n : u \in R[v] => v \in R[u]
Deg(g, u) == IF g.dir THEN Len(g.pred[u])
             ELSE Cardinality(Els(g.succ[u])) + (IF u \in Els(g.succ[u]) THEN 1 ELSE 0)
GoodRoots(g, rs) ==
  LET R == Reach1(g) IN
  /\ \A i \in 1..Len(rs) : IsSource(g, R, rs[i]) /\ (\A v \in 1..g.n : (v \in R[rs[i]] /\ rs[i] \in R[v]) => Deg(g, rs[i]) <= Deg(g, v))
  /\ \A i, j \in 1..Len(rs) : i < j => rs[j] \notin R[rs[i]]
  /\ UNION {R[rs[i]] : i \in 1..Len(rs)} = 1..g.n
=============================================================================
