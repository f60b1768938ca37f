-------------------------------- MODULE NetGen -------------------------------
(* Graphs to draw: random (MODE=rand, with -simulate) or every small graph   *)
(* (MODE=all, breadth first).                                                *)
EXTENDS NetText, Json, IOUtils
Mode == IOEnv.MODE
MaxOps == atoi(IOEnv.MAXOPS)
VARIABLES hist, fin
R(X) == RandomElement(X)
SeqOf(s) == s[RandomElement(1..Len(s))]
RECURSIVE Shuf(_)
Shuf(S) == IF S = {} THEN <<>> ELSE CHOOSE q \in {<<x>> \o Shuf(S \ {x}) : x \in {R(S)}} : TRUE
E(dir, n, ord, edges) == [dir |-> dir, n |-> n, ord |-> ord, edges |-> edges, rs |-> <<>>, maxd |-> -1, coll |-> {}, vert |-> FALSE,
                          ascii |-> FALSE, lab |-> "default", via |-> "gen"]
Tree(n) == {<<R(1..(v - 1)), v>> : v \in {u \in 2..n : R(1..4) > 1}}
Some(dir, n) ==
  LET dens == R(1..6) IN {q \in (1..n) \X (1..n) : (dir \/ q[1] <= q[2]) /\ R(1..10) <= dens /\ (q[1] /= q[2] \/ R(1..3) = 1)}
Pick(dir, n, t) == IF t <= 2 THEN Tree(n) ELSE IF t <= 4 THEN Tree(n) \cup {<<R(1..n), R(1..n)>> : i \in 1..R(0..3)} ELSE Some(dir, n)
Rand(x) ==
  CHOOSE e \in
   {[E(c[1], c[2], Shuf(1..c[2]), Shuf(Pick(c[1], c[2], R(1..6)))) EXCEPT
      !.rs = IF R(1..4) = 1 THEN [i \in 1..R(1..3) |-> R(1..c[2])] ELSE <<>>,
      !.maxd = IF R(1..4) = 1 THEN R(0..3) ELSE -1,
      !.coll = IF R(1..6) = 1 THEN {R(1..c[2]) : i \in 1..2} ELSE {},
      !.vert = R(1..3) = 1, !.ascii = R(1..3) = 1, !.lab = SeqOf(<<"default", "default", "attr", "name", "off">>),
      !.via = SeqOf(<<"gen", "gen", "callable", "handle", "path", "stdout", "forest">>)] : c \in {<<R({TRUE, FALSE}), R(1..9)>>}} : TRUE
\* depth limits are about indentation: not with vertical chains; forest_str has no such parameters
Norm(e) == [e EXCEPT !.vert = @ /\ e.maxd = -1 /\ e.coll = {} /\ e.via /= "forest",
                     !.maxd = IF e.via = "forest" THEN -1 ELSE @,
                     !.lab = IF e.via = "forest" /\ @ = "name" THEN "attr" ELSE @]
Small == [dir : {TRUE}, n : {3}, E : SUBSET ((1..3) \X (1..3))] \cup [dir : {FALSE}, n : {4}, E : SUBSET {q \in (1..4) \X (1..4) : q[1] <= q[2]}]
         \cup [dir : {TRUE, FALSE}, n : {0, 1}, E : {{}}] \cup [dir : {TRUE, FALSE}, n : {1}, E : {{<<1, 1>>}}]
         \cup [dir : {TRUE}, n : {2}, E : SUBSET ((1..2) \X (1..2))]
Asc(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE m \in T : TRUE IN <<m>> \o F(T \ {m}) IN F(S)
AllOf(s) ==
  LET e == E(s.dir, s.n, [i \in 1..s.n |-> i], Asc(s.E)) IN
  <<e, [e EXCEPT !.vert = TRUE], [e EXCEPT !.ascii = TRUE, !.via = "forest"], [e EXCEPT !.ascii = TRUE, !.vert = TRUE, !.via = "callable"],
    [e EXCEPT !.maxd = 2], [e EXCEPT !.maxd = 1]>> \o
  (IF s.n = 0 THEN <<>> ELSE <<[e EXCEPT !.rs = <<s.n>>], [e EXCEPT !.coll = {1, s.n}]>>)
Init == fin = FALSE /\ (IF Mode = "all" THEN hist \in {AllOf(s) : s \in Small} ELSE hist = <<>>)
Next ==
  \/ /\ Mode = "rand" /\ Len(hist) < MaxOps /\ UNCHANGED fin
     /\ \E e \in {Rand(Len(hist))} : hist' = Append(hist, Norm(e))
  \/ /\ (Mode = "all" \/ Len(hist) >= MaxOps) /\ ~fin /\ fin' = TRUE /\ UNCHANGED hist /\ PrintT("PROGRAM " \o ToJson(hist))
Spec == Init /\ [][Next]_<<hist, fin>>
=============================================================================
