------------------------------ MODULE LazyGen ------------------------------
(* Random histories of files, readers and views.  PROFILE read: windows     *)
(* without a nodata policy mostly; nodata: with; view: loads in the graph.  *)
EXTENDS Lazy, Json, IOUtils
Profile == IOEnv.PROFILE
MaxOps == atoi(IOEnv.MAXOPS)
VARIABLES hist, S, fin
vars == <<hist, S, fin>>
R(X) == RandomElement(X)
SeqOf(s) == s[R(1..Len(s))]
Coin(n) == R(1..n) = 1
NoFile == [fmt |-> "", dt |-> "", h |-> 0, w |-> 0, c |-> 0, nov |-> 0, near |-> FALSE, nv |-> <<>>, pat |-> 0, sp |-> 1, pal |-> FALSE, til |-> FALSE]
Base == [op |-> "", file |-> NoFile, f |-> 0, r |-> 0, be |-> "", m |-> "", lv |-> 0, k |-> 0, ix |-> <<>>, l |-> <<>>, pt |-> 0]

Fmts == <<"tif", "tif", "tif", "tifband", "bsq", "bil", "bip", "png", "vrt", "vrt">>
TypesOf(fmt) ==
  CASE fmt = "png" -> <<"uint8", "uint16">>
    [] fmt \in {"bsq", "bil", "bip"} -> <<"uint8", "int16", "uint16", "int32", "uint32", "float32", "float64", "int64", "uint64">>
    [] OTHER -> <<"uint8", "uint8", "int16", "uint16", "int32", "uint32", "float32", "float32", "float64", "int64", "uint64", "int8">>
Special(dt, n) == IF dt \in Floats THEN R(1..5) ELSE IF n = 1 /\ dt \in {"uint8", "uint16"} THEN 254 ELSE R(1..4)
RandFile(x(_)) ==
  \E fmt \in {SeqOf(Fmts)} : \E dt \in {SeqOf(TypesOf(fmt))} : \E c \in {IF fmt = "png" THEN R(1..4) ELSE SeqOf(<<1, 1, 2, 3, 3, 4, 5, 6>>)} :
  \E nov \in {IF fmt \in {"tif", "tifband"} /\ dt \notin {"int64", "uint64"} THEN R(0..2) ELSE 0} : \E big \in {Coin(12)} :
  \E h \in {IF big THEN R(17..20) ELSE IF nov > 0 THEN R(5..10) ELSE R(1..8)} : \E w \in {IF big THEN R(17..20) ELSE IF nov > 0 THEN R(5..10) ELSE R(1..8)} :
  \E has \in {fmt /= "png" /\ (IF Profile = "read" THEN Coin(4) ELSE ~Coin(6))} :
  \E nv0 \in {Special(dt, R(1..10))} :
  \E nv \in {[b \in 1..c |-> IF ~has THEN 0 ELSE IF fmt = "vrt" THEN (IF R(1..3) + 0 * b = 1 THEN 0 ELSE Special(dt, 2 + 0 * b)) ELSE nv0]} :
  \E e \in {[Base EXCEPT !.op = "file", !.pt = R(0..1),
             !.file = [fmt |-> fmt, dt |-> dt, h |-> h, w |-> w, c |-> c, nov |-> nov, near |-> Coin(2), nv |-> nv,
                       pat |-> SeqOf(<<0, 2, 3, 4, 5>>), sp |-> IF dt \in Floats THEN R(4..5) ELSE 4,
                       pal |-> fmt = "tif" /\ c = 1 /\ dt = "uint8" /\ Coin(3), til |-> big]]} :
  x(e)
Do(e) == hist' = Append(hist, e) /\ S' = After(S, e)

Backends(F) ==
  CASE F.fmt \in {"bsq", "bil", "bip"} -> <<"gdal", "spectral", "rio", "fast">>
    [] OTHER -> <<"gdal", "gdal", "fast", "rio">>
Method(x) == IF Profile = "read" THEN SeqOf(<<"none", "none", "none", "float", "ma">>) ELSE SeqOf(<<"none", "float", "float", "ma", "ma", "nan", "auto">>)
Open ==
  \E f \in {R(1..Len(S.fs))} : \E be \in {SeqOf(Backends(S.fs[f]))} : \E m \in {Method(f)} :
  Do([Base EXCEPT !.op = "open", !.f = f, !.be = be, !.pt = R(0..1), !.m = IF be \in {"rio", "spectral"} THEN "none" ELSE m,
      !.lv = IF be \in {"gdal", "fast"} THEN R(0..S.fs[f].nov) ELSE 0])

IxE(t, a, b, l) == [t |-> t, a |-> a, b |-> b, l |-> l]
\* the value of F at one random draw
With(x, F(_)) == CHOOSE r \in {F(t) : t \in {x}} : TRUE
El1(t, D, bands) ==
  CASE t = "int" -> IxE("int", IF Coin(4) THEN R((-D)..(-1)) ELSE R(0..(D - 1)), 0, <<>>)
    [] t = "sl" -> IxE("sl", SeqOf(<<None, 0, R(0..(D - 1)), R(0..(D - 1)), R(0..(D - 1))>>),
                       SeqOf(<<None, R(1..D), R(1..D), R(1..D), R(0..(D + 3)), R((-D)..(-1))>>), <<>>)
    [] t = "list" -> IxE("list", 0, 0, [i \in 1..R(1..4) |-> IF Coin(25 + 0 * i) THEN R((-D)..(-1)) ELSE R(0..(D - 1))])
    [] OTHER -> IxE(t, 0, 0, <<>>)
RandEl(D, bands) ==
  With(IF bands THEN SeqOf(<<"all", "none", "int", "sl", "sl", "list", "list", "list">>) ELSE SeqOf(<<"all", "none", "int", "sl", "sl", "sl", "sl">>),
       LAMBDA t : El1(t, D, bands))
Ell == IxE("ell", 0, 0, <<>>)
Ix1(k, y, x, b) ==
  CASE k = 1 -> <<y>> [] k \in {2, 3} -> <<y, x>> [] k \in 4..8 -> <<y, x, b>>
    [] k = 9 -> <<Ell>> [] k = 10 -> <<Ell, b>> [] k = 11 -> <<y, Ell>> [] k = 12 -> <<y, Ell, b>>
    [] k = 13 -> <<y, x, Ell>> [] OTHER -> <<Ell, x, b>>
RandIx(F, lv, gd) ==
  With(R(1..(IF gd THEN 14 ELSE 8)), LAMBDA k : Ix1(k, RandEl(LevH(F, lv), FALSE), RandEl(LevW(F, lv), FALSE), RandEl(F.c, TRUE)))
Live == {r \in 1..Len(S.rs) : S.rs[r].on}
Gd(r) == S.rs[r].be \in {"gdal", "fast"}
Fl(r) == S.fs[S.rs[r].f]
ReadOp ==
  \E r \in {R(Live)} : \E k \in {R(1..20)} :
  IF k <= 12 THEN \E ix \in {RandIx(Fl(r), S.rs[r].lv, Gd(r))} : Do([Base EXCEPT !.op = "read", !.r = r, !.ix = ix, !.pt = R(0..1)])
  ELSE IF k = 13 /\ Gd(r) THEN Do([Base EXCEPT !.op = "arr", !.r = r])
  ELSE IF k = 14 THEN Do([Base EXCEPT !.op = "info", !.r = r])
  ELSE IF k <= 16 /\ Gd(r) THEN Do([Base EXCEPT !.op = "over", !.r = r, !.k = R(0..(Fl(r).nov - S.rs[r].lv))])
  ELSE IF k = 17 /\ Gd(r) THEN Do([Base EXCEPT !.op = "abs", !.r = r, !.k = R(0..Fl(r).nov)])
  ELSE IF k <= 19 /\ Gd(r) /\ (Profile /= "read" \/ Coin(3)) THEN Do([Base EXCEPT !.op = "setm", !.r = r, !.m = Method(r)])
  ELSE IF k = 20 /\ Cardinality(Live) > 1 THEN Do([Base EXCEPT !.op = "drop", !.r = r])
  ELSE UNCHANGED <<hist, S>>

\* views
IsFloat(V) == \A i \in 1..Len(V.ch) : V.ch[i].f = 0 \/ FloatPolicy(V.ch[i].m) \/ (NoPolicy(V.ch[i].m) /\ S.fs[V.ch[i].f].dt \in Floats)
Straight(V) == \A i \in 1..Len(V.ch) : V.ch[i].z = 1 /\ V.ch[i].oy >= 0 /\ V.ch[i].ox >= 0 /\ V.ch[i].y0 <= V.ch[i].oy /\ V.ch[i].x0 <= V.ch[i].ox
Plain(V) == \A i \in 1..Len(V.ch) : V.ch[i].z = 1
HasFile(V) == \A i \in 1..Len(V.ch) : V.ch[i].f > 0
Down(V) == HasFile(V) /\ Straight(V) /\ \A i \in 1..Len(V.ch) : LET ch == V.ch[i] IN S.fs[ch.f].near /\ ch.lv < S.fs[ch.f].nov /\ ch.oy % 2 = 0 /\ ch.ox % 2 = 0
VLoad == \E f \in {R(1..Len(S.fs))} : Do([Base EXCEPT !.op = "vload", !.f = f, !.m = SeqOf(<<"none", "float", "float", "ma", "ma", "auto">>), !.pt = R(0..1)])
ViewOp ==
  \E v \in {IF Coin(2) THEN Len(S.vs) ELSE R(1..Len(S.vs))} : \E k \in {R(1..20)} :
  LET V == S.vs[v]  B == [Base EXCEPT !.r = v] IN
  IF k <= 5 THEN
     \E a \in {R(0..(V.h - 1))} : \E b \in {R((a + 1)..V.h)} : \E c \in {R(0..(V.w - 1))} : \E d \in {R((c + 1)..V.w)} :
     \E al \in {Coin(2)} : Do([B EXCEPT !.op = "vcrop", !.l = IF al THEN <<a - (a % 2), b, c - (c % 2), d>> ELSE <<a, b, c, d>>, !.pt = R(0..1)])
  ELSE IF k <= 9 THEN \E l \in {[i \in 1..R(1..4) |-> R(0..(Len(V.ch) - 1))]} : Do([B EXCEPT !.op = "vtake", !.l = l])
  ELSE IF k <= 12 /\ HasFile(V) /\ ((V.leaf /\ V.lv < S.fs[V.ch[1].f].nov) \/ Down(V)) THEN Do([B EXCEPT !.op = "vover", !.k = 1])
  ELSE IF k <= 14 /\ IsFloat(V) /\ Plain(V) /\ ~V.moved THEN
     \E ty \in {R(-3..3)} : \E tx \in {R(-3..3)} : Do([B EXCEPT !.op = "vshift", !.l = <<ty, tx, Max2(1, V.h + R(-2..3)), Max2(1, V.w + R(-2..3))>>])
  ELSE IF k = 15 /\ IsFloat(V) /\ ~V.moved /\ (\A i \in 1..Len(V.ch) : V.ch[i].lv = 0) THEN Do([B EXCEPT !.op = "vup"])
  ELSE IF k <= 18 THEN
     \E same \in {{u \in 1..Len(S.vs) : S.vs[u].h = V.h /\ S.vs[u].w = V.w}} : \E l \in {<<v>> \o [i \in 1..R(1..2) |-> R(same)]} :
       IF Len(V.ch) <= 6 /\ \A i \in 1..Len(l) : Len(S.vs[l[i]].ch) <= 6 THEN Do([B EXCEPT !.op = "vcat", !.l = l]) ELSE UNCHANGED <<hist, S>>
  ELSE IF k = 19 THEN Do([B EXCEPT !.op = "vnan", !.l = <<V.h, V.w, R(1..2)>>])
  ELSE VLoad

Init == hist = <<>> /\ S = S0 /\ fin = FALSE
Step ==
  /\ ~fin /\ Len(hist) < MaxOps /\ UNCHANGED fin
  /\ IF S.fs = <<>> \/ (Len(S.fs) = 1 /\ Len(hist) < 3 /\ Coin(2)) THEN RandFile(LAMBDA e : Do(e))
     ELSE IF Profile = "view" \/ (Profile = "nodata" /\ Coin(2)) THEN (IF S.vs = <<>> \/ Coin(8) THEN VLoad ELSE ViewOp)
     ELSE IF Live = {} \/ Coin(8) THEN Open ELSE ReadOp
Finish == ~fin /\ Len(hist) >= MaxOps /\ fin' = TRUE /\ UNCHANGED <<hist, S>> /\ PrintT("PROGRAM " \o ToJson(hist))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
