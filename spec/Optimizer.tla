------------------------------ MODULE Optimizer ------------------------------
(* Design model of optimize(): the rewrite rules on chains of operations,      *)
(* along one axis, with exact arithmetic.  A chain is a sequence of operations *)
(* (outermost first) over a source of W pixels with a number of stored         *)
(* overviews; rules are applied innermost first, as the library does.          *)
(*                                                                            *)
(* Shown exhaustively for every chain of at most LEN operations over the       *)
(* alphabet: rewriting ends; it never changes the declared size or the map     *)
(* from the source; pixels that must be valid stay valid (the crop pushed      *)
(* below a warp keeps enough source pixels), pixels outside stay invalid; the  *)
(* result is in normal form; resampling parameters are requested ones.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

LEN == atoi(IOEnv.LEN)
WS == IF IOEnv.WIDE = "1" THEN {7, 12, 16, 21} ELSE {12, 13}

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
CeilDiv(x, q) == -((-x) \div q)
Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32 [] OTHER -> 64
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE Gcd(b, a % b)

(* x' = (a x + b) / q, with a > 0 (mirrored maps are left to the 2-D machine) *)
Norm(m) == LET g == Gcd(Gcd(m[1], m[3]), IF m[2] < 0 THEN -m[2] ELSE m[2])
               D(x) == IF x < 0 THEN -((-x) \div g) ELSE x \div g
           IN <<D(m[1]), D(m[2]), D(m[3])>>
Id == <<1, 0, 1>>
Mul(A, B) == Norm(<<A[1] * B[1], A[1] * B[2] + A[2] * B[3], A[3] * B[3]>>)
Shift(x) == <<1, x, 1>>
ScaleDown(k) == <<1, 0, Pow2(k)>>

Crop(a, b) == [k |-> "crop", a |-> a, b |-> b, m |-> Id, l |-> 0, p |-> 0]
Warp(m, w, p) == [k |-> "warp", a |-> 0, b |-> w, m |-> Norm(m), l |-> 0, p |-> p]
Ov(l) == [k |-> "ov", a |-> 0, b |-> 0, m |-> Id, l |-> l, p |-> 0]
Deq == [k |-> "deq", a |-> 0, b |-> 0, m |-> Id, l |-> 0, p |-> 0]

\* size of the view whose operations are t[i..]
RECURSIVE Size(_, _, _)
Size(W, t, i) ==
  IF i > Len(t) THEN W
  ELSE LET o == t[i] IN
       CASE o.k = "crop" -> Max2(0, o.b - o.a)
         [] o.k = "warp" -> o.b
         [] o.k = "ov" -> CeilDiv(Size(W, t, i + 1), Pow2(o.l))
         [] OTHER -> Size(W, t, i + 1)
OpMap(o) == CASE o.k = "crop" -> Shift(-o.a) [] o.k = "warp" -> o.m [] o.k = "ov" -> ScaleDown(o.l) [] OTHER -> Id
RECURSIVE Map(_, _)
Map(t, i) == IF i > Len(t) THEN Id ELSE Mul(OpMap(t[i]), Map(t, i + 1))

(* ---------------------------------------------------------------- pixels *)
\* is pixel x of the view t[i..] computed from source pixels only (linear)
RECURSIVE Valid(_, _, _, _)
Valid(W, t, i, x) ==
  IF x < 0 \/ x >= Size(W, t, i) THEN FALSE
  ELSE IF i > Len(t) THEN TRUE
  ELSE LET o == t[i] IN
       CASE o.k = "crop" -> Valid(W, t, i + 1, x + o.a)
         [] o.k = "ov" -> Valid(W, t, i + 1, x * Pow2(o.l))
         [] o.k = "warp" ->
              \* source coordinate of the centre: ((x + 1/2) q - b) / a - 1/2
              LET n == (2 * x + 1) * o.m[3] - 2 * o.m[2] - o.m[1]   d == 2 * o.m[1]
                  f == n \div d
              IN Valid(W, t, i + 1, f) /\ (n % d = 0 \/ Valid(W, t, i + 1, f + 1))
         [] OTHER -> Valid(W, t, i + 1, x)

\* the guarantee: pixels whose support (with a margin) is inside every canvas
\* are valid, pixels whose support misses the source are not; X and the margin
\* are in units of 1/U
U == 48
RECURSIVE Inner(_, _, _, _, _)
Inner(W, t, i, X, mg) ==
  LET in == X - mg >= 0 /\ X + mg <= Size(W, t, i) * U IN
  IF i > Len(t) THEN in
  ELSE in /\ LET o == t[i] IN
       CASE o.k = "crop" -> Inner(W, t, i + 1, X + o.a * U, mg)
         [] o.k = "ov" -> Inner(W, t, i + 1, X * Pow2(o.l), mg * Pow2(o.l) + Pow2(o.l) * U)
         [] o.k = "warp" -> Inner(W, t, i + 1, (X * o.m[3] - o.m[2] * U) \div o.m[1],
                                  CeilDiv(mg * o.m[3], o.m[1]) + Max2(U, CeilDiv(U * o.m[3], o.m[1])) + 2)
         [] OTHER -> Inner(W, t, i + 1, X, mg)
RECURSIVE Outer(_, _, _, _, _)
Outer(W, t, i, X, mg) ==
  IF i > Len(t) THEN X < -mg \/ X > W * U + mg
  ELSE LET o == t[i] IN
       CASE o.k = "crop" -> Outer(W, t, i + 1, X + o.a * U, mg)
         [] o.k = "ov" -> Outer(W, t, i + 1, X * Pow2(o.l), mg * Pow2(o.l) + Pow2(o.l) * U)
         [] o.k = "warp" -> Outer(W, t, i + 1, (X * o.m[3] - o.m[2] * U) \div o.m[1],
                                  CeilDiv(mg * o.m[3], o.m[1]) + Max2(U, CeilDiv(U * o.m[3], o.m[1])) + 2)
         [] OTHER -> Outer(W, t, i + 1, X, mg)

(* ------------------------------------------------------------------ rules *)
\* each gives the operations that replace t[i] (and what is below), or <<>>
Repl(t, i, n, new) == SubSeq(t, 1, i - 1) \o new \o SubSeq(t, i + n, Len(t))
K(t, i) == IF i > Len(t) THEN "leaf" ELSE t[i].k

\* a crop above a warp becomes a warp above a slightly larger crop
SwapCropWarp(W, t, i) ==
  LET c == t[i]   w == t[i + 1]   S == Size(W, t, i + 2)
      \* region of the source, in units of 1/a
      f0 == c.a * w.m[3] - w.m[2]   f1 == c.b * w.m[3] - w.m[2]   d == w.m[1]
      x0 == Max2(f0 \div d, 0)   x1 == Min2(CeilDiv(f1, d), S)
      pad == CeilDiv(w.m[3], w.m[1])
      y0 == x0 - Min2(x0, 1)   y1 == Min2(x1 + pad, S)
      \* numpy slices
      z0 == Min2(y0, S)   z1 == Max2(0, y1)
  IN <<Warp(Mul(Shift(-c.a), Mul(w.m, Shift(y0))), c.b - c.a, w.p), Crop(z0, Max2(z0, z1))>>

\* an overview above a crop becomes a crop above an overview, realigned if needed
SwapOvCrop(W, t, i) ==
  LET k == Pow2(t[i].l)   c == t[i + 1]
      a == c.a \div k   b == CeilDiv(c.b, k)
      n == Size(W, t, i)
      S == CeilDiv(Size(W, t, i + 2), k)
      moved == <<Crop(a, Min2(b, S)), Ov(t[i].l)>>
  IN IF c.a % k = 0 /\ Max2(0, Min2(b, S) - a) = n THEN moved
     ELSE <<Warp(<<k, a * k - c.a, k>>, n, 0)>> \o moved

\* overviews the file still has for what is at t[i..] (only crops, overviews and
\* dequantizations below)
RECURSIVE Left(_, _, _)
Left(nov, t, i) ==
  IF i > Len(t) THEN nov
  ELSE IF t[i].k = "ov" THEN Max2(0, Left(nov, t, i + 1) - t[i].l)
  ELSE IF t[i].k = "warp" THEN 0 ELSE Left(nov, t, i + 1)
\* 2^n <= q / a
RECURSIVE Log(_, _)
Log(q, a) == IF q >= 2 * a THEN 1 + Log(q, 2 * a) ELSE 0
RECURSIVE CropBelow(_, _)
CropBelow(t, i) == IF i > Len(t) THEN FALSE ELSE IF t[i].k = "deq" THEN CropBelow(t, i + 1) ELSE t[i].k = "crop"
Split(W, nov, t, i) ==
  LET w == t[i]   n == Min2(Left(nov, t, i + 1), Log(w.m[3], w.m[1]))
      r == Mul(w.m, <<Pow2(n), 0, 1>>)
      S == CeilDiv(Size(W, t, i + 1), Pow2(n))
  IN IF 2 * w.m[1] > w.m[3] \/ n = 0 THEN <<>>
     ELSE IF r = Id /\ ~CropBelow(t, i + 1) /\ w.b <= S
          THEN (IF w.b = S THEN <<Ov(n)>> ELSE <<Crop(0, w.b), Ov(n)>>)
          ELSE <<Warp(r, w.b, w.p), Ov(n)>>

\* the overview that an enlarging warp makes pointless, at most a crop and
\* dequantizations away; 0 if there is none
RECURSIVE FindOv(_, _, _, _)
FindOv(W, t, i, crops) ==
  IF i > Len(t) \/ crops > 1 THEN 0
  ELSE IF t[i].k = "ov" THEN i
  ELSE IF t[i].k = "deq" THEN FindOv(W, t, i + 1, crops)
  ELSE IF t[i].k = "crop" /\ Size(W, t, i) > 0 THEN FindOv(W, t, i + 1, crops + 1)
  ELSE 0
Absorb(W, t, i) ==
  LET w == t[i]   j == FindOv(W, t, i + 1, 0) IN
  IF w.m[1] < 2 * w.m[3] \/ j = 0 THEN <<>>
  ELSE LET mimic == Warp(ScaleDown(t[j].l), Size(W, t, j), 0)
           mid == SubSeq(t, i + 1, j - 1)
           below == SubSeq(t, j + 1, Len(t))
       IN IF \A x \in 1..Len(mid) : mid[x].k = "deq"
          THEN <<Warp(Mul(w.m, mimic.m), w.b, w.p)>> \o mid \o below
          ELSE \* the crop is next to the overview (dequantizations are above crops)
               LET sw == SwapCropWarp(W, <<mid[Len(mid)], mimic>> \o below, 1)
               IN <<Warp(Mul(w.m, sw[1].m), w.b, w.p)>> \o SubSeq(mid, 1, Len(mid) - 1) \o <<sw[2]>> \o below

\* all rewritings of the operation at i (what is below is in normal form)
Rewrites(W, nov, t, i) ==
  LET a == K(t, i)   b == K(t, i + 1) IN
  CASE a = "crop" /\ b = "crop" ->
         {Repl(t, i, 2, <<LET lo == t[i + 1].a + t[i].a   hi == Min2(t[i + 1].b, t[i + 1].a + t[i].b) IN Crop(lo, Max2(lo, hi))>>)}
    [] a = "crop" /\ b = "warp" -> IF t[i].b > t[i].a THEN {Repl(t, i, 2, SwapCropWarp(W, t, i))} ELSE {}
    [] a = "crop" /\ b = "deq" -> {Repl(t, i, 2, <<t[i + 1], t[i]>>)}
    [] a = "ov" /\ t[i].l = 0 -> {Repl(t, i, 1, <<>>)}
    [] a = "ov" /\ b = "ov" -> {Repl(t, i, 2, <<Ov(t[i].l + t[i + 1].l)>>)}
    [] a = "ov" /\ b = "crop" -> {Repl(t, i, 2, SwapOvCrop(W, t, i))}
    [] a = "ov" /\ b = "warp" ->
         LET k == t[i].l  m == Mul(ScaleDown(k), Mul(t[i + 1].m, <<Pow2(k), 0, 1>>))
         IN {Repl(t, i, 2, <<Warp(m, Size(W, t, i), t[i + 1].p), Ov(k)>>)}
    [] a = "ov" /\ b = "deq" -> {Repl(t, i, 2, <<t[i + 1], t[i]>>)}
    [] a = "deq" /\ b = "warp" -> {Repl(t, i, 2, <<t[i + 1], t[i]>>)}
    [] a = "warp" /\ b = "warp" -> {Repl(t, i, 2, <<Warp(Mul(t[i].m, t[i + 1].m), t[i].b, t[i].p)>>)}
    [] a = "warp" /\ t[i].m = Id /\ t[i].b = Size(W, t, i + 1) -> {Repl(t, i, 1, <<>>)}
    [] a = "warp" ->
         LET s == Split(W, nov, t, i) IN
         IF s /= <<>> THEN {Repl(t, i, 1, s)}
         ELSE LET r == Absorb(W, t, i) IN IF r = <<>> THEN {} ELSE {SubSeq(t, 1, i - 1) \o r}
    [] OTHER -> {}

(* ---------------------------------------------------------------- machine *)
VARIABLES src, asked, t, busy
vars == <<src, asked, t, busy>>

\* the chains a user can ask for, built from the source outwards
Alphabet(s) ==
  LET scs == IF IOEnv.WIDE = "1" THEN {<<1, 4>>, <<3, 8>>, <<1, 2>>, <<3, 4>>, <<1, 1>>, <<3, 2>>, <<2, 1>>, <<4, 1>>}
             ELSE {<<1, 4>>, <<3, 8>>, <<1, 1>>, <<3, 2>>, <<2, 1>>}
      offs == IF IOEnv.WIDE = "1" THEN {-6, 0, 1, 8} ELSE {-5, 0, 2}                 \* quarters of a pixel
      auto(m) == CeilDiv(m[1] * s + m[2], m[3])
  IN {Crop(lo, Max2(lo, hi)) : lo \in {0, Min2(1, s), Min2(3, s)}, hi \in {s, Max2(0, s - 1), s \div 2}}
     \cup {Ov(l) : l \in 1..2} \cup {Deq}
     \cup UNION {LET m == Norm(<<4 * sc[1], o * sc[2], 4 * sc[2]>>) IN
                 {Warp(m, Max2(1, auto(m) + d), p) : d \in {0, 2}, p \in {1}} : sc \in scs, o \in offs}
\* may o be asked for on the view c?
May(W, c, o) == /\ o.k = "ov" => Size(W, c, 1) > 1
                /\ o.k = "deq" => \A i \in 1..Len(c) : c[i].k /= "deq"

\* the requested warps are numbered (their parameters)
RECURSIVE Numbered(_, _)
Numbered(c, i) == IF i > Len(c) THEN <<>> ELSE <<IF c[i].k = "warp" THEN [c[i] EXCEPT !.p = i] ELSE c[i]>> \o Numbered(c, i + 1)

Init == /\ \E W \in WS, nov \in {0, 2} : src = [W |-> W, nov |-> nov]
        /\ asked = <<>> /\ t = <<>> /\ busy = FALSE

\* the user adds an operation to the view
Ask == /\ ~busy /\ Len(asked) < LEN /\ Size(src.W, asked, 1) > 0
       /\ \E o \in Alphabet(Size(src.W, asked, 1)) : May(src.W, asked, o) /\ asked' = <<o>> \o asked
       /\ t' = asked' /\ UNCHANGED <<src, busy>>
\* the user asks for the optimized view
Go == /\ ~busy /\ asked /= <<>> /\ busy' = TRUE /\ asked' = Numbered(asked, 1) /\ t' = asked' /\ UNCHANGED src
\* one rewriting, innermost first
Stuck(i) == Rewrites(src.W, src.nov, t, i) = {}
Rewrite == /\ busy
           /\ \E i \in 1..Len(t) : /\ \A j \in (i + 1)..Len(t) : Stuck(j)
                                   /\ \E r \in Rewrites(src.W, src.nov, t, i) : t' = r
           /\ UNCHANGED <<src, asked, busy>>
Next == Ask \/ Go \/ Rewrite
Spec == Init /\ [][Next]_vars /\ WF_vars(Rewrite)

Small == \A i \in 1..Len(t) : t[i].m[1] < 20000 /\ t[i].m[3] < 20000 /\ t[i].m[2] < 200000 /\ -t[i].m[2] < 200000

(* ------------------------------------------------------------- properties *)
W0 == src.W
\* a region that misses its source altogether reads nothing
Seen(s) == \A i \in 1..(Len(s) + 1) : Size(W0, s, i) > 0
MeaningKept == /\ Size(W0, t, 1) = Size(W0, asked, 1)                           \* C01
               /\ (Seen(t) => Map(t, 1) = Map(asked, 1))                        \* C02
\* half-way through, a realigned level may still lose its rim
Done == busy /\ \A i \in 1..Len(t) : Stuck(i)
PixelsKept == Done => \A x \in 0..(Size(W0, asked, 1) - 1) :                      \* C03
                /\ (Inner(W0, asked, 1, x * U + U \div 2, 0) => Valid(W0, t, 1, x))
                /\ (Outer(W0, asked, 1, x * U + U \div 2, 0) => ~Valid(W0, t, 1, x))
NormalForm ==                                                                   \* C06
  Done => \A i \in 1..(Len(t) - 1) :
            LET a == t[i].k  b == t[i + 1].k IN
            /\ a \in {"crop", "warp", "ov"} => a /= b
            /\ ~(a = "deq" /\ b = "warp") /\ ~(a \in {"crop", "ov"} /\ b = "deq")
            /\ ~(a = "crop" /\ b = "warp" /\ Size(W0, t, i) > 0)
            /\ ~(a = "ov" /\ b \in {"crop", "warp"})
\* what remains was asked for (0: the realignment of an overview), outermost first
ParamsKept == busy => \A i \in 1..Len(t) : t[i].k = "warp" => t[i].p \in {0} \cup {asked[j].p : j \in {j \in 1..Len(asked) : asked[j].k = "warp"}}
\* the optimizer itself only picks levels that the file stores: beyond what
\* was asked for, at most those
LevelsExist == Done => \A i \in 1..Len(t) : t[i].k = "ov" =>
                 t[i].l <= src.nov + (LET RECURSIVE A(_) A(j) == IF j > Len(asked) THEN 0 ELSE asked[j].l + A(j + 1) IN A(1))
Ends == <>[](~ENABLED Rewrite)
=============================================================================
