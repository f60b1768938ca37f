------------------------------ MODULE ChanGen -------------------------------
(* Random histories of Chan (tlc -simulate), printed as JSON.                *)
EXTENDS Chan, Json, IOUtils

Profile == IOEnv.PROFILE
MaxOps == atoi(IOEnv.MAXOPS)

VARIABLES pool, hist, fin
vars == <<pool, hist, fin>>

R(X) == RandomElement(X)
Coin(k) == RandomElement(1..k) = 1
SeqOf(s) == s[RandomElement(1..Len(s))]

Roots == <<"a", "b", "a", "c x", "B1", "my_chan", "rgb", "u", "b">>
Names == <<"a", "b", "r", "g", "rgb", "rgba", "dxdy", "fxfy", "dx", "c x", "B1", "u0", "u1", "my_chan", "r">>
Forms == <<"z", "z", "d", "d", "c", "ds", "cs", "o", "oo", "os", "oos">>
\* zero-size ranges and steps are written only in fused specs of their own
SimpleForms == <<"z", "d", "z", "d", "c">>

RandCode(simple) ==
  LET k == R(1..6) IN
  CASE k <= 2 -> Plain(SeqOf(Names))
    [] k = 3 -> Item(SeqOf(Roots), R(0..4))
    [] OTHER -> LET f == IF simple THEN SeqOf(SimpleForms) ELSE SeqOf(Forms)
                    s0 == R({1, 1, 2, 3, -1, -2})
                    s == IF f \in {"ds", "cs", "os", "oos"} THEN s0 ELSE 1
                    a == IF f \in {"z", "o", "oo", "os", "oos"} THEN 0 ELSE R(0..5)
                    b == IF simple THEN a + R(1..4) ELSE IF s < 0 THEN R(0..4) ELSE R(0..7)
                IN Code("r", SeqOf(Roots), f, a, b, s)
RandFused(simple, lo) == LET n == R(lo..4) IN [i \in 1..n |-> RandCode(simple)]
\* streams that denote something
RandStream(simple) ==
  LET s == RandFused(TRUE, 1) IN [i \in 1..Len(s) |-> IF ~simple /\ Coin(4) /\ s[i].k = "r" /\ s[i].b > s[i].a + 1
                                   THEN [s[i] EXCEPT !.f = (IF s[i].a = 0 THEN "os" ELSE "ds"), !.s = 2] ELSE s[i]]
RandStreams(simple) == LET n == R({1, 1, 2, 2, 3}) IN
                       LET st == [i \in 1..n |-> RandStream(simple)] IN
                       IF n > 1 /\ Coin(5) THEN [st EXCEPT ![n] = st[1]] ELSE st

Sensors == <<"S1", "S2", "L8", "*", "S1", "my sen">>
RandItem(x) ==
  LET k == R(1..5)
      ls == IF k = 1 THEN <<>> ELSE IF k <= 3 THEN <<SeqOf(Sensors)>> ELSE [i \in 1..R(1..3) |-> SeqOf(Sensors)]
      rs0 == [i \in 1..R({1, 1, 2, 3}) |-> IF Coin(7) THEN <<>> ELSE RandFused(TRUE, 1)]
      sole == Len(rs0) = 1 /\ rs0[1] = <<>>
      rs == IF sole /\ ls = <<>> THEN <<<<Plain("a")>>>> ELSE rs0
  IN [ls |-> ls, lp |-> k > 3, rs |-> rs, rp |-> Len(rs) > 1 \/ (rs[1] /= <<>> /\ Coin(3))]
\* a form the grammar leaves open: "(x):..." reads as sensors, "x:3" after no sensor as a range
\* mostly without the sequences of K20a
Mend(it) == IF it.rp /\ ~Coin(40) THEN [it EXCEPT !.ls = IF @ = <<>> THEN <<"S2">> ELSE @,
                                             !.rs = [j \in 1..Len(@) |-> IF @[j] = <<>> THEN <<Item("a", j)>> ELSE @[j]]] ELSE it
RandItems(x) == LET n == R({1, 1, 2, 2, 3}) IN [i \in 1..n |-> Mend(RandItem(i))]

Pick(t) == {i \in 1..Len(pool) : pool[i].t \in t}
SomeOf(t) == LET c == Pick(t) IN IF Coin(2) /\ pool[Len(pool)].t \in t THEN Len(pool) ELSE R(c)

Base == [op |-> "", h |-> 1, g |-> 1, hs |-> <<>>, cs |-> <<>>, st |-> <<>>, items |-> <<>>, bs |-> <<>>, n |-> 0,
         a |-> 0, b |-> 0, idx |-> <<>>, i |-> 0, s |-> "", how |-> "", txt |-> "", gs |-> <<>>, axis |-> 0, mode |-> 0,
         tb |-> <<>>, keep |-> TRUE]

MakeOps == CASE Profile = "fused"  -> <<"f">>
             [] Profile = "multi"  -> <<"m", "m", "f", "mint">>
             [] Profile = "sensor" -> <<"s", "s", "s", "m">>
             [] OTHER -> <<"f", "m", "s", "fint", "mint", "f">>
RandMake(x) ==
  LET op == SeqOf(MakeOps) IN
  CASE op = "f" -> LET cs == IF Profile = "sensor" THEN RandFused(TRUE, 1) ELSE IF Profile = "multi" THEN RandStream(FALSE) ELSE RandFused(FALSE, 0)
                   IN [Base EXCEPT !.op = "f", !.cs = cs, !.txt = FText(cs), !.tb = Texts(cs), !.how = SeqOf(<<"coerce", "parse", "list", "coerce", "from_spec">>)]
    [] op = "m" -> LET st == IF Coin(12) THEN <<>> ELSE RandStreams(Profile = "sensor")
                   IN [Base EXCEPT !.op = "m", !.st = st, !.txt = MText(st), !.how = SeqOf(<<"coerce", "init", "from_spec">>)]
    [] op = "s" -> LET it == IF Coin(60) THEN <<>> ELSE RandItems(x)
                   IN [Base EXCEPT !.op = "s", !.items = it, !.txt = SText(it), !.how = SeqOf(<<"coerce", "init", "from_spec">>)]
    [] OTHER -> [Base EXCEPT !.op = op, !.n = R(0..4), !.how = "coerce"]

FOps == <<"norm", "concise", "union", "inter", "diff", "concat", "slice", "take", "late", "split", "tom", "union", "inter",
          "diff", "pickle", "fuse", "stream", "tof">>
MOps == <<"norm", "concise", "union", "inter", "diff", "late", "fuse", "split", "stream", "tof", "tom", "pickle", "late", "enc", "enc", "enc">>
SOps == <<"norm", "concise", "split", "late", "late", "match", "match", "stream", "chans", "tos", "pickle">>

\* bands for operands given as a list or a set
SomeBands(V) == LET b == Dedupe(Flat(Map(StreamsOf(V), Bands))) \o <<<<"a", -1>>, <<"b", 1>>, <<"zz", -1>>>>
                IN [i \in 1..R(1..3) |-> SeqOf(b)]
\* a sensor-channel text can hold only these forms
TosOk(V) == \A i \in 1..Len(AsM(V)) : \A j \in 1..Len(AsM(V)[i]) : AsM(V)[i][j].k /= "r" \/ AsM(V)[i][j].f \in {"z", "d"}
Splittable(V) == \A i \in 1..Len(StreamsOf(V)) : Bands(StreamsOf(V)[i]) /= <<>>

\* a random grouping of the codes of a spec into items, some extra
RECURSIVE Shuffle(_)
Shuffle(s) == IF s = <<>> THEN <<>> ELSE LET i == R(1..Len(s)) IN
              <<s[i]>> \o Shuffle(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
RECURSIVE Cut(_)
Cut(s) == IF s = <<>> THEN <<>> ELSE LET k == R(1..Min2(3, Len(s))) IN <<SubSeq(s, 1, k)>> \o Cut(SubSeq(s, k + 1, Len(s)))
Distinct(V) == LET all == Flat(V.st) IN DedupeBy(all, CodeText)
EncOk(V) == V.st /= <<>> /\ \A i \in 1..Len(V.st) : DupFree(Texts(V.st[i])) /\ Bands(V.st[i]) /= <<>>
                            /\ \A j \in 1..Len(V.st[i]) : CodeBands(V.st[i][j]) /= <<>>
                 /\ DupFree(Bands(Distinct(V)))

RandOp(h) ==
  LET V == pool[h]
      op0 == SeqOf(CASE V.t = "f" -> FOps [] V.t = "m" -> MOps [] OTHER -> SOps)
      B == [Base EXCEPT !.op = op0, !.h = h]
      N == [B EXCEPT !.op = "norm"]
      nb == Len(Bands(V.c))
  IN CASE op0 \in {"union", "inter", "diff"} ->
            IF V.t = "f" /\ op0 = "inter" /\ ~DupFree(Bands(V.c)) THEN N ELSE
            LET c == IF V.t = "f" THEN Pick({"f"}) ELSE {i \in Pick({"f", "m"}) : pool[i].t = "m" \/ Bands(pool[i].c) /= <<>>}   \* (K19d, zero-size ranges)
                hw == IF V.t = "f" THEN SeqOf(<<"view", "view", "op", "list", "set">>) ELSE SeqOf(<<"view", "op", "view", "str", "list">>)
                how == IF V.t = "m" /\ op0 = "union" /\ hw = "list" THEN "str" ELSE hw
                b0 == SomeBands(V)
                b == IF how = "set" THEN <<b0[1]>> ELSE Dedupe(b0)
            IN IF how \in {"view", "op"} THEN [B EXCEPT !.how = how, !.g = R(c)]
               ELSE [B EXCEPT !.how = how, !.bs = b, !.tb = BTexts(b)]
       [] op0 = "concat" -> LET k == R(1..3)  c == Pick({"f"}) IN [B EXCEPT !.hs = <<h>> \o [i \in 1..k |-> R(c)]]
       [] op0 = "slice" -> [B EXCEPT !.a = R({None, 0, 1, 2, -1, -3, 5}), !.b = R({None, 0, 1, 3, -1, 6, 20}), !.n = R({None, None, 1, 2, -1})]
       [] op0 = "take" -> IF nb = 0 THEN N ELSE [B EXCEPT !.idx = [i \in 1..R(1..3) |-> R((-nb)..(nb - 1))]]
       [] op0 = "late" -> IF V.t = "s" THEN LET k == R({1, 1, 2})  c == Pick({"s"}) IN [B EXCEPT !.hs = [i \in 1..k |-> R(c)], !.how = IF k = 1 THEN SeqOf(<<"view", "op">>) ELSE SeqOf(<<"view", "sum">>)]
                          ELSE IF V.t = "f" /\ V.c /= <<>> /\ nb = 0 THEN N      \* only zero-size ranges
                          ELSE LET how == SeqOf(<<"view", "op", "str", "sum">>)  b == Dedupe(SomeBands(V)) IN
                               IF how = "str" THEN [B EXCEPT !.how = how, !.bs = b, !.tb = BTexts(b)]
                               ELSE [B EXCEPT !.how = how, !.g = R({i \in Pick({"f", "m"}) : pool[i].t = "m" \/ pool[i].c = <<>> \/ Bands(pool[i].c) /= <<>>})]
       [] op0 = "split" -> IF V.t /= "s" /\ ~Splittable(V) THEN N ELSE B
       [] op0 = "stream" -> [B EXCEPT !.i = R(1..(IF V.t = "s" THEN Len(V.ps) ELSE Len(StreamsOf(V))))]
       [] op0 = "tom" -> IF V.t = "f" /\ nb = 0 THEN N ELSE     \* (K19d, zero-size ranges)
                          IF Coin(2) \/ ~TosOk(V) \/ Profile = "multi" THEN B ELSE [B EXCEPT !.op = "tos"]
       [] op0 = "match" -> [B EXCEPT !.s = IF Coin(2) THEN SeqOf(V.ps)[1] ELSE SeqOf(<<"S1", "S2", "L8", "*", "nope">>)]
       [] op0 = "enc" -> IF ~EncOk(V) THEN N ELSE
             LET g == Cut(Shuffle(Distinct(V) \o (IF Coin(3) /\ ~InSeq("extra", Texts(Distinct(V))) THEN <<Plain("extra")>> ELSE <<>>)))
             IN [B EXCEPT !.gs = g, !.tb = Map(g, FText), !.axis = R({0, 0, 1}), !.mode = R({0, 1, 1}), !.idx = [i \in 1..Len(g) |-> Len(Bands(g[i]))]]
       [] OTHER -> B

Query(h) ==
  LET V == pool[h]
      nb == Len(Bands(V.c))
      pr == IF V.t = "s" THEN <<>> ELSE SomeBands(V)
      tc == IF V.t = "f" THEN BTexts(pr) \o (IF V.c = <<>> THEN <<>> ELSE <<CodeText(SeqOf(V.c))>>) ELSE BTexts(pr)
  IN [Base EXCEPT !.op = "q", !.h = h, !.g = IF V.t = "f" THEN R(Pick({"f"})) ELSE h, !.tb = tc,
      !.idx = IF nb = 0 THEN <<>> ELSE [i \in 1..2 |-> R((-nb)..(nb - 1))]]
Bad(x) == [Base EXCEPT !.op = "badcoerce", !.s = SeqOf(<<"float", "none", "float", "object">>), !.n = R(0..4), !.how = SeqOf(<<"f", "m">>)]

\* the generator stays within texts short enough to be of interest
Small(V) == Len(Text(V)) < 220 /\ (V.t # "s" \/ Len(V.ps) <= 12)

Apply(e) ==
  IF e.op \in Makes /\ ~MustRaise(pool, e) /\ ~MayRaise(pool, e)
  THEN LET V == New(pool, e) IN IF Small(V) THEN pool' = Append(pool, V) /\ hist' = Append(hist, e) ELSE UNCHANGED <<pool, hist>>
  ELSE IF e.op \in Makes /\ ~MustRaise(pool, e) THEN UNCHANGED <<pool, hist>>
  ELSE pool' = pool /\ hist' = Append(hist, [e EXCEPT !.keep = FALSE])

(* ---------------------------------------------------------------- probes  *)
\* fixed histories that reach the recorded defects (see ChanTrace!Known)
PF(cs) == [Base EXCEPT !.op = "f", !.cs = cs, !.txt = FText(cs), !.tb = Texts(cs), !.how = "coerce"]
PM(st) == [Base EXCEPT !.op = "m", !.st = st, !.txt = MText(st), !.how = "coerce"]
PS(it) == [Base EXCEPT !.op = "s", !.items = it, !.txt = SText(it), !.how = "coerce"]
PA == Plain("a")
It(ls, lp, rs, rp) == [ls |-> ls, lp |-> lp, rs |-> rs, rp |-> rp]
PQ(h) == [Base EXCEPT !.op = "q", !.h = h, !.g = h]
Penc == [Base EXCEPT !.op = "enc", !.gs = <<<<Plain("rgb")>>, <<PA>>>>, !.tb = <<"rgb", "a">>, !.idx = <<3, 1>>]
Probes == <<
  <<PF(<<Code("r", "a", "z", 0, 3, 1), Plain("b")>>), PQ(1)>>,
  <<PS(<<It(<<>>, FALSE, <<<<PA>>, <<Plain("b")>>>>, TRUE)>>)>>,
  <<PS(<<It(<<"S1">>, FALSE, <<<<PA>>, <<>>>>, TRUE)>>)>>,
  <<PS(<<>>)>>,
  <<PM(<<<<PA>>>>), [Base EXCEPT !.op = "late", !.h = 1, !.how = "str", !.bs = <<<<"b", -1>>>>, !.tb = <<"b">>]>>,
  <<PM(<<<<PA, Plain("rgb")>>>>), Penc>>,
  <<PF(<<>>), [Base EXCEPT !.op = "tom", !.h = 1]>>,
  <<[Base EXCEPT !.op = "fint", !.n = 2, !.how = "coerce"], [Base EXCEPT !.op = "badcoerce", !.s = "float", !.n = 2, !.how = "f", !.keep = FALSE]>>,
  <<PF(<<PA, Plain("b")>>), PQ(1), [Base EXCEPT !.op = "pickle", !.h = 1]>> >>

Init == /\ pool = <<>> /\ hist = <<>> /\ fin = FALSE
        /\ Profile /= "probe" \/ \A i \in 1..Len(Probes) : PrintT("PROGRAM " \o ToJson(Probes[i]))
Step ==
  /\ ~fin /\ Len(hist) < MaxOps /\ Profile /= "probe"
  /\ UNCHANGED fin
  /\ IF pool = <<>> \/ (Len(pool) < 3 /\ Coin(2)) \/ Coin(6) THEN \E e \in {RandMake(Len(hist))} : Apply(e)
     ELSE IF Coin(20) THEN \E e \in {Bad(Len(hist))} : Apply(e)
     ELSE IF Coin(4) THEN \E e \in {Query(R(1..Len(pool)))} : Apply(e)
     ELSE \E h \in {IF Coin(2) THEN Len(pool) ELSE R(1..Len(pool))} : \E e \in {RandOp(h)} : Apply(e)
Finish ==
  /\ ~fin /\ Len(hist) >= MaxOps /\ Profile /= "probe"
  /\ \E q \in {[i \in 1..Min2(4, Len(pool)) |-> Query(Len(pool) + 1 - i)]} :
     fin' = TRUE /\ UNCHANGED <<pool, hist>> /\ PrintT("PROGRAM " \o ToJson(hist \o q))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
