------------------------------- MODULE NetTrace ------------------------------
EXTENDS NetText, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
Init == tid \in 1..Len(Traces) /\ l = 1
Ev == Traces[tid].ev
If(c, s) == IF c THEN {s} ELSE {}
Comps(g) == LET RECURSIVE C(_) C(S) == IF S = {} THEN 0 ELSE LET u == CHOOSE u \in S : TRUE IN 1 + C(S \ ReachN([g EXCEPT !.succ = [v \in 1..g.n |-> g.succ[v] \o g.pred[v]]], {u})) IN C(1..g.n)
NEdges(g) == IF g.dir THEN Cardinality(Edges(g)) ELSE Cardinality(Und(Edges(g)))
IsForest(g) == g.n = 0 \/ NEdges(g) = g.n - Comps(g)
\* o: [err, succ, pred, lines, whole ("" or the single line of an empty drawing), out, parse]
Clauses(e, o) ==
  LET g == [dir |-> e.dir, n |-> e.n, succ |-> o.succ, pred |-> o.pred]
      p == [maxd |-> e.maxd, coll |-> Els(e.coll), vert |-> e.vert]
      M == o.lines
      roots == LET q == SelectSeq(M, LAMBDA x : x.k = "root") IN [i \in 1..Len(q) |-> q[i].node]
      auto == e.rs = <<>>
      rs == IF auto THEN roots ELSE e.rs
      known == \A i \in 1..Len(M) : M[i].node >= 0 /\ \A j \in 1..Len(M[i].oth) : M[i].oth[j] > 0
      L == Draw(g, p, rs)
      lastroot == auto \/ ((\A i \in 1..(Len(rs) - 1) : rs[i] /= rs[Len(rs)]) /\ \E i \in 1..Len(L) : L[i].k = "root" /\ L[i].node = rs[Len(rs)])
      whole == e.maxd = -1 /\ p.coll = {}
      pe == {<<o.parse.edges[i][1], o.parse.edges[i][2]>> : i \in 1..Len(o.parse.edges)}
      nodes == Els(o.parse.nodes)
      want == TreeEdges(L) \cup SideEdges(L)
  IN IF o.err /= "" THEN (IF e.via = "forest" /\ o.err = "NetworkXNotImplemented" THEN If(IsForest(g), "C25 forest-refused") ELSE {"C25 raised"})
     ELSE IF e.via = "forest" /\ ~IsForest(g) THEN {"C25 forest-accepted"}
     ELSE IF e.maxd = 0 \/ e.n = 0 THEN If(o.whole /= (IF e.maxd = 0 THEN "..." ELSE "empty"), "C25 empty-drawing") \cup If(o.out /= 1, "C25 output-differs")
     ELSE IF ~known THEN {"C25 unknown-label"}
     ELSE IF auto /\ (Els(roots) = {} \/ ~(\A i \in 1..Len(roots) : roots[i] > 0)) THEN {"C25 no-root"}
     ELSE
     If(auto /\ ~GoodRoots(g, roots), "C25 sources-not-minimal")
     \cup If([i \in 1..Len(M) |-> M[i].node] /= [i \in 1..Len(L) |-> L[i].node], "C25 each-node-once-in-depth-first-order")
     \cup (IF Len(M) /= Len(L) THEN {} ELSE
       If(\E i \in 1..Len(M) : M[i].ind /= L[i].ind, "C25 nesting")
       \cup If(\E i \in 1..Len(M) : (M[i].node /= 0 \/ L[i].k /= "vert") /\ M[i].k /= L[i].k, "C25 connection")
       \cup If(\E i \in 1..Len(M) : (M[i].node /= 0 /\ L[i].node = M[i].node) /\ ~(L[i].lo \subseteq Els(M[i].oth) /\ Els(M[i].oth) \subseteq L[i].oth /\ Len(M[i].oth) = Cardinality(Els(M[i].oth))), "C25 other-edges")
       \cup If((\A i \in 1..Len(M) : M[i].ind = L[i].ind /\ M[i].k = L[i].k) /\
               (\E i \in 1..Len(M) : \E u \in 1..Len(M[i].cont) : (u > 1 \/ lastroot) /\ LET a == Anc(L, i, u) IN
                   M[i].cont[u] /= (IF a /= 0 /\ L[a].k = "root" THEN 2 * Cont(L, i, u) ELSE Cont(L, i, u))), "C25 indentation")
       \cup If(lastroot /\ (\E i \in 1..Len(M) : M[i].rl /= 2 /\ (M[i].rl = 1) /= (\A j \in (i + 1)..Len(M) : M[j].k /= "root")), "C25 root-glyph"))
     \cup If(o.out /= 1, "C25 output-differs")
     \cup (IF ~whole THEN {} ELSE
       If(o.parse.err /= "", "C25 parse-raised")
       \cup (IF o.parse.err /= "" THEN {} ELSE
         If(nodes /= ({L[i].node : i \in 1..Len(L)} \ {0}) \cup UNION {L[i].oth : i \in 1..Len(L)}, "C25 parsed-nodes")
         \cup If(want /= {} /\ o.parse.dir /= g.dir, "C25 parsed-kind")
         \cup If(o.parse.dir = g.dir /\ (IF g.dir THEN pe /= want ELSE Und(pe) /= Und(want)), "C25 parsed-edges")))
Next ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l].e  o == Ev[l].o IN
     /\ \A x \in Clauses(e, o) : PrintT(<<"CLAUSE", Traces[tid].id, l, x, e.via>>)
     /\ l' = l + 1 /\ tid' = tid
     /\ l < Len(Ev) \/ PrintT(<<"DONE", Traces[tid].id, Len(Ev)>>)
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
