-------------------------------- MODULE Lazy --------------------------------
(* Image files on disk, readers of them and views of their loads.            *)
(*                                                                           *)
(* A file is a function from (level, row, column, band) to a pixel code:     *)
(* codes 1..4 and 5 (a stored NaN) are special values a file may name as     *)
(* nodata, 11..250 are ordinary.  What a reader returns depends only on the  *)
(* file, the level and policy of the reader, and the index.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == 9999
Map(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
CeilDiv(a, b) == (a + b - 1) \div b
Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))

\* ------------------------------------------------------------------ files
\* F: [fmt, dt, h, w, c, nov, near, nv (nodata code of each band, 0 none,
\*     254 a value the type cannot hold), pat, sp]
Floats == {"float32", "float64"}
LevH(F, lv) == CeilDiv(F.h, Pow2(lv))
LevW(F, lv) == CeilDiv(F.w, Pow2(lv))
\* stored code; specials are strewn by a pattern
Code0(F, lv, y, x, b) ==
  IF F.pat > 0 /\ (y * 7 + x * 3 + b * 5 + lv) % F.pat = 0 THEN ((y + x + 2 * b + lv) % F.sp) + 1
  ELSE (((y * LevW(F, lv) + x) * F.c + b + 61 * lv) % 240) + 11
CodeAt(F, lv, y, x, b) == IF F.near THEN Code0(F, 0, y * Pow2(lv), x * Pow2(lv), b) ELSE Code0(F, lv, y, x, b)

NoPolicy(m) == m = "none"
FloatPolicy(m) == m \in {"float", "nan", "auto"}
\* observed pixel: -1 NaN, -2 masked, otherwise the code
Shown(F, m, lv, y, x, b) ==
  LET c == CodeAt(F, lv, y, x, b)
      nd == F.nv[b + 1] /= 0 /\ c = F.nv[b + 1]
  IN IF nd /\ FloatPolicy(m) THEN -1 ELSE IF nd /\ m = "ma" THEN -2 ELSE IF c = 5 THEN -1 ELSE c
DType(F, m) ==
  IF ~FloatPolicy(m) THEN F.dt
  ELSE IF F.dt \in {"uint8", "int8", "uint16", "int16", "float32"} THEN "float32" ELSE "float64"

\* ---------------------------------------------------------------- indexing
\* index element: [t, a, b, l]; t in all, none, int, sl, list, ell
FullIx == [t |-> "all", a |-> 0, b |-> 0, l |-> <<>>]
\* indices selected along an axis of size D
Pick1(e, D) ==
  CASE e.t \in {"all", "none"} -> [i \in 1..D |-> i - 1]
    [] e.t = "int" -> <<IF e.a < 0 THEN e.a + D ELSE e.a>>
    [] e.t = "list" -> [i \in 1..Len(e.l) |-> IF e.l[i] < 0 THEN e.l[i] + D ELSE e.l[i]]
    [] OTHER -> LET lo == IF e.a = None THEN 0 ELSE Max2(0, e.a)
                    hi0 == IF e.b = None THEN D ELSE Min2(D, e.b)
                    hi == IF hi0 < 0 THEN hi0 + D ELSE hi0
                IN [i \in 1..Max2(0, hi - lo) |-> lo + i - 1]
\* the three elements of an index, ellipsis and missing ones filled in
Expand(ix) ==
  LET at == {i \in 1..Len(ix) : ix[i].t = "ell"} IN
  IF at = {} THEN ix \o [i \in 1..(3 - Len(ix)) |-> FullIx]
  ELSE LET p == CHOOSE i \in at : TRUE IN
       SubSeq(ix, 1, p - 1) \o [i \in 1..(4 - Len(ix)) |-> FullIx] \o SubSeq(ix, p + 1, Len(ix))
Window(F, lv, ix) ==
  LET x == Expand(ix) IN [ys |-> Pick1(x[1], LevH(F, lv)), xs |-> Pick1(x[2], LevW(F, lv)), bs |-> Pick1(x[3], F.c)]
Pixels(F, m, lv, W) ==
  LET n == Len(W.bs)  w == Len(W.xs) IN
  [i \in 1..(Len(W.ys) * w * n) |->
     LET y == (i - 1) \div (w * n)  x == ((i - 1) \div n) % w  b == (i - 1) % n
     IN Shown(F, m, lv, W.ys[y + 1], W.xs[x + 1], W.bs[b + 1])]
\* empty selections may be refused, and so may bands counted from the end
MayRefuse(W, ix) ==
  \/ W.ys = <<>> \/ W.xs = <<>> \/ W.bs = <<>>
  \/ LET x == Expand(ix) IN (x[3].t = "list" /\ \E k \in Rng(x[3].l) : k < 0)

\* ------------------------------------------------------------------- views
\* a channel of a view: file, policy, level, band and how its pixels are
\* found: pixel (y, x) shows file pixel ((y + oy) div z, (x + ox) div z)
ViewPix(fs, ch, y, x) ==
  IF ch.f = 0 THEN -1 ELSE
  LET F == fs[ch.f]
      sy == (y + ch.oy) \div ch.z
      sx == (x + ch.ox) \div ch.z
  IN IF sy < 0 \/ sx < 0 \/ sy >= LevH(F, ch.lv) \/ sx >= LevW(F, ch.lv) \/ y + ch.oy < ch.y0 \/ y + ch.oy >= ch.y1 \/ x + ch.ox < ch.x0 \/ x + ch.ox >= ch.x1
     THEN -1 ELSE Shown(F, ch.m, ch.lv, sy, sx, ch.b)
ViewPixels(fs, V) ==
  LET n == Len(V.ch) IN
  [i \in 1..(V.h * V.w * n) |-> ViewPix(fs, V.ch[((i - 1) % n) + 1], (i - 1) \div (V.w * n), ((i - 1) \div n) % V.w)]
Loaded(F, f, m) ==
  [h |-> F.h, w |-> F.w, leaf |-> TRUE, lv |-> 0, moved |-> FALSE, mix |-> FALSE,
   ch |-> [b \in 1..F.c |-> [f |-> f, m |-> m, lv |-> 0, b |-> b - 1, oy |-> 0, ox |-> 0, z |-> 1,
                             y0 |-> 0, x0 |-> 0, y1 |-> F.h, x1 |-> F.w]]]
NanView(h, w, n) ==
  [h |-> h, w |-> w, leaf |-> FALSE, lv |-> 0, moved |-> FALSE, mix |-> FALSE,
   ch |-> [b \in 1..n |-> [f |-> 0, m |-> "none", lv |-> 0, b |-> 0, oy |-> 0, ox |-> 0, z |-> 1, y0 |-> 0, x0 |-> 0, y1 |-> h, x1 |-> w]]]
\* the pixels a view has data for are those of its canvas (a crop forgets the
\* rest: y0..x1 bound the coordinates y + oy that show data)
Clip(ch, h, w) ==
  [ch EXCEPT !.y0 = Max2(@, ch.oy), !.x0 = Max2(@, ch.ox), !.y1 = Min2(@, ch.oy + h), !.x1 = Min2(@, ch.ox + w)]
VCrop(V, a, b, c, d) ==
  LET h == Max2(0, b - a)  w == Max2(0, d - c)
      C1(ch) == Clip([ch EXCEPT !.oy = @ + a, !.ox = @ + c], h, w)
  IN [V EXCEPT !.h = h, !.w = w, !.leaf = FALSE, !.ch = Map(V.ch, C1)]
VTake(V, l) == [V EXCEPT !.leaf = FALSE, !.ch = [i \in 1..Len(l) |-> V.ch[l[i] + 1]]]
VShift(V, ty, tx, h, w) ==
  LET S1(ch) == Clip([ch EXCEPT !.oy = @ - ty, !.ox = @ - tx], h, w)
  IN [V EXCEPT !.h = h, !.w = w, !.leaf = FALSE, !.moved = TRUE, !.ch = Map(V.ch, S1)]
VUp(V) ==
  LET U1(ch) == [ch EXCEPT !.oy = 2 * @, !.ox = 2 * @, !.z = 2 * @, !.y0 = 2 * @, !.x0 = 2 * @, !.y1 = 2 * @, !.x1 = 2 * @]
  IN [V EXCEPT !.h = 2 * @, !.w = 2 * @, !.leaf = FALSE, !.moved = TRUE, !.ch = Map(V.ch, U1)]
VOver(V, k) ==
  LET p == Pow2(k)
      O1(ch) == [ch EXCEPT !.lv = @ + k, !.oy = @ \div p, !.ox = @ \div p,
                 !.y0 = @ \div p, !.x0 = @ \div p, !.y1 = CeilDiv(@, p), !.x1 = CeilDiv(@, p)]
  IN [V EXCEPT !.h = CeilDiv(@, p), !.w = CeilDiv(@, p), !.lv = @ + k, !.ch = Map(V.ch, O1)]
VCat(Vs) == [Vs[1] EXCEPT !.leaf = FALSE, !.moved = \E i \in 1..Len(Vs) : Vs[i].moved, !.ch = Cat(Map(Vs, LAMBDA v : v.ch))]

\* ------------------------------------------------------------------- state
\* [fs files, rs readers [f, be, m, lv, on], vs views]
S0 == [fs |-> <<>>, rs |-> <<>>, vs |-> <<>>]
Reader(f, be, m, lv) == [f |-> f, be |-> be, m |-> m, lv |-> lv, on |-> TRUE]
\* the type of a view's array, "" when its parts differ
ViewDType(S, V) ==
  LET ds == {IF V.ch[i].f = 0 THEN "nan" ELSE DType(S.fs[V.ch[i].f], V.ch[i].m) : i \in 1..Len(V.ch)}
  IN IF ~V.mix /\ Cardinality(ds) = 1 /\ "nan" \notin ds THEN CHOOSE d \in ds : TRUE ELSE ""
CatOf(S, Vs) == LET V == VCat(Vs) IN [V EXCEPT !.mix = (\E i \in 1..Len(Vs) : Vs[i].mix) \/ ViewDType(S, [V EXCEPT !.mix = FALSE]) = ""]
After(S, e) ==
  CASE e.op = "file" -> [S EXCEPT !.fs = Append(@, e.file)]
    [] e.op = "open" -> [S EXCEPT !.rs = Append(@, Reader(e.f, e.be, e.m, e.lv))]
    [] e.op = "over" -> [S EXCEPT !.rs = Append(@, [S.rs[e.r] EXCEPT !.lv = @ + e.k])]
    [] e.op = "abs" -> [S EXCEPT !.rs = Append(@, [S.rs[e.r] EXCEPT !.lv = e.k])]
    [] e.op = "setm" -> [S EXCEPT !.rs[e.r].m = e.m]
    [] e.op = "drop" -> [S EXCEPT !.rs[e.r].on = FALSE]
    [] e.op = "vload" -> [S EXCEPT !.vs = Append(@, Loaded(S.fs[e.f], e.f, e.m))]
    [] e.op = "vnan" -> [S EXCEPT !.vs = Append(@, NanView(e.l[1], e.l[2], e.l[3]))]
    [] e.op = "vcrop" -> [S EXCEPT !.vs = Append(@, VCrop(S.vs[e.r], e.l[1], e.l[2], e.l[3], e.l[4]))]
    [] e.op = "vtake" -> [S EXCEPT !.vs = Append(@, VTake(S.vs[e.r], e.l))]
    [] e.op = "vshift" -> [S EXCEPT !.vs = Append(@, VShift(S.vs[e.r], e.l[1], e.l[2], e.l[3], e.l[4]))]
    [] e.op = "vup" -> [S EXCEPT !.vs = Append(@, VUp(S.vs[e.r]))]
    [] e.op = "vover" -> [S EXCEPT !.vs = Append(@, VOver(S.vs[e.r], e.k))]
    [] e.op = "vcat" -> [S EXCEPT !.vs = Append(@, CatOf(S, [i \in 1..Len(e.l) |-> S.vs[e.l[i]]]))]
    [] OTHER -> S
ViewOps == {"vload", "vnan", "vcrop", "vtake", "vshift", "vup", "vover", "vcat"}
=============================================================================
