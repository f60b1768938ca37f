----------------------------- MODULE DelayedGen -----------------------------
(* Random programs over Delayed (tlc -simulate): every step applies one       *)
(* action of the machine with parameters drawn by RandomElement; Finish adds  *)
(* the observations of the profile and prints the program as JSON.           *)
EXTENDS Delayed, Json, IOUtils

Profile == IOEnv.PROFILE
MaxOps == atoi(IOEnv.MAXOPS)

VARIABLES pool, hist, nuid, n, fin
vars == <<pool, hist, nuid, n, fin>>

R(S) == RandomElement(S)
Coin(k) == RandomElement(1..k) = 1
SeqOf(s) == s[RandomElement(1..Len(s))]

Ops == CASE Profile = "chan"  -> <<"take", "take", "take", "cat", "cat", "crop", "leaf", "warp", "opt", "deq">>
         [] Profile = "crop"  -> <<"crop", "crop", "crop", "pcrop", "pcrop", "crop", "take", "opt", "deq", "cat">>
         [] Profile = "over"  -> <<"ov", "ov", "ov", "crop", "warp", "warp", "deq", "opt", "cat", "take">>
         [] Profile = "param" -> <<"warp", "warp", "warp", "crop", "take", "opt", "pcrop", "deq", "cat", "ov">>
         [] Profile = "undo"  -> <<"warp", "warp", "undo", "undo", "crop", "pcrop", "ov", "eval", "cat", "undo">>
         [] Profile = "hist"  -> <<"crop", "warp", "warp", "ov", "deq", "take", "cat", "opt", "opt", "eval", "pcrop", "fin", "xr", "tfrom", "intro">>
         [] Profile = "quant" -> <<"deq", "deq", "crop", "warp", "ov", "take", "opt", "cat", "pcrop">>
         [] Profile = "canvas" -> <<"warp", "warp", "warp", "warp", "crop", "take", "opt">>
         [] Profile = "lazy"  -> <<"crop", "warp", "take", "crop", "warp", "take", "opt", "cat">>
         [] Profile = "known" -> <<"leaf", "crop", "warp", "warp", "warp", "ov", "take", "cat", "deq", "pcrop", "opt", "xr">>
         [] Profile = "setp" -> <<"warp", "warp", "crop", "pcrop", "setp", "cat", "deq", "take", "setp", "ov">>
         [] Profile = "chain" -> <<"ov", "ov", "crop", "crop", "warp", "warp", "warp", "deq", "take">>
         [] Profile = "edge" -> <<"crop", "crop", "crop", "take", "crop", "warp">>
         [] Profile = "shape" -> <<"crop", "warp", "ov", "take", "cat", "xr", "pcrop", "deq", "opt", "eval">>
         [] OTHER             -> <<"crop", "crop", "pcrop", "warp", "warp", "warp", "ov", "ov", "deq", "take", "cat", "opt", "eval", "leaf">>

LeafTypes == CASE Profile = "over"  -> <<"file", "file", "u16file", "f32">>
               [] Profile = "quant" -> <<"u16", "u16file", "i16", "u16file">>
               [] Profile = "crop"  -> <<"f32", "file", "u16", "f64">>
               [] Profile = "edge" -> <<"f32", "f32", "file">>
               [] Profile = "chain" -> <<"file", "u16file", "u16file", "u16", "f32">>
               [] Profile = "known" -> <<"file", "file", "u16file", "file", "f32">>
               [] OTHER -> <<"f32", "f64", "u16", "file", "file", "u16file", "i16", "nans", "nansN">>

\* (ranges of bands may be written compactly)
Names == IF Profile = "chan" THEN <<"m.0", "m.1", "m.2", "a", "b", "k.1", "k.2", "c", "m.3", "m.4", "d", "r", "g", "e", "k.0", "k.3">> ELSE <<"a", "b", "c", "d", "e", "f", "g", "i", "j", "k", "m", "n", "o", "p", "q", "s">>

LeafOp(first) ==
  LET ty0 == SeqOf(LeafTypes)
      nb == R({1, 1, 2, 3} )
      ty1 == IF first /\ ty0 \in {"nans", "nansN"} /\ (Profile \notin {"undo", "shape"} \/ ~Coin(2)) THEN "f32" ELSE ty0
      ty == IF ty1 = "i16" /\ nuid + nb > 4 THEN "u16" ELSE ty1        \* values must fit
      named == IF ty = "nansN" THEN FALSE ELSE ~Coin(5)
      dup == Profile = "chan" /\ Coin(4)
      nm == [i \in 1..nb |-> Names[((nuid + i - 1) % 16) + 1]]
      dn == [i \in 1..nb |-> Names[1 + ((nuid + i) % 2)]]
      w == IF Profile = "shape" THEN R(5..33) ELSE IF Profile = "canvas" THEN R(1..60) ELSE IF Profile = "edge" THEN R(12..28) ELSE R({24, 31, 32, 33, 40, 47, 48})
      h == IF Profile = "shape" THEN R(5..33) ELSE IF Profile = "canvas" THEN R(1..60) ELSE IF Profile = "edge" THEN R(12..28) ELSE R({24, 29, 32, 33, 40, 45, 48})
      same == ~first /\ Coin(2)
      \* often reuse an existing canvas so that concatenation is possible
      c == IF first THEN 0 ELSE R(1..Len(pool))
  IN [op |-> "leaf", w |-> IF same THEN pool[c].w ELSE w, h |-> IF same THEN pool[c].h ELSE h,
      nb |-> IF nuid > 4 THEN 1 ELSE nb, named |-> named,
      names |-> IF named THEN SubSeq(IF dup THEN dn ELSE nm, 1, IF nuid > 4 THEN 1 ELSE nb) ELSE <<>>,
      ty |-> IF ty = "nansN" THEN "nans" ELSE ty, form |-> SeqOf(<<"codes", "compact">>),
      know |-> IF ty \notin {"file", "u16file"} \/ Profile /= "known" THEN "prep"
               ELSE SeqOf(<<"full", "full", "fullprep", "noov", "noovprep", "part", "size", "ovonly", "twice", "path", "nogdal", "nogdal", "prep">>),
      ov |-> IF ty \in {"file", "u16file"} THEN (IF same /\ Min2(pool[c].w, pool[c].h) < 16 THEN 0
                                               ELSE IF Profile \in {"over", "chain"} THEN R(0..3) ELSE IF Profile = "known" THEN R({0, 1, 2, 2, 3, 3}) ELSE R({0, 2, 3})) ELSE -1]
\* without GDAL the overviews of a file cannot be used (and the libraries used
\* instead miscount bands)
NoGdal(e) == IF e.op = "leaf" /\ e.know = "nogdal" THEN (IF e.nb = 1 THEN [e EXCEPT !.ov = 0] ELSE [e EXCEPT !.know = "twice"])
             \* GDAL builds no overviews of a single pixel
             ELSE IF e.op = "leaf" /\ e.ov > 0 /\ Max2(e.w, e.h) < 9 THEN [e EXCEPT !.ov = 0]
             ELSE e

HandleOf == IF Profile /= "chain" /\ Coin(3) THEN R(1..Len(pool)) ELSE Len(pool)

SliceLo(m) == IF Coin(4) \/ (Profile = "edge" /\ Coin(3)) THEN None ELSE R(0..(m \div 2))
SliceHi(m, lo) == IF Coin(4) THEN None ELSE R((lo + 3)..(m + 3))
Weird(m) == IF Coin(3) THEN None ELSE R((-m - 3)..(m + 4))
\* the same indices, some counted from the end
Raw(idx, nb) == [i \in 1..Len(idx) |-> IF Profile \in {"chan", "crop"} /\ Coin(3) THEN idx[i] - nb ELSE idx[i]]
\* the positions a slice selects
SliceIdx(a, b, st, nb) ==
  LET lo == IF st > 0 THEN Lo(a, nb) ELSE IF a = None THEN nb - 1 ELSE IF a < 0 THEN Max2(-1, a + nb) ELSE Min2(a, nb - 1)
      hi == IF st > 0 THEN Hi(b, nb) ELSE IF b = None THEN -1 ELSE IF b < 0 THEN Max2(-1, b + nb) ELSE Min2(b, nb - 1)
      cnt == IF st > 0 THEN CeilDiv(Max2(0, hi - lo), st) ELSE CeilDiv(Max2(0, lo - hi), -st)
  IN [i \in 1..cnt |-> lo + (i - 1) * st]
Bound(nb) == IF Coin(3) THEN None ELSE R((-nb - 2)..(nb + 2))
RandIdx(nb) == LET L == R({1, 2, 2, 3}) IN [i \in 1..L |-> R(0..(nb - 1))]

CropOp(h) ==
  LET S == pool[h]
      wild == (Profile \in {"crop", "lazy"} /\ Coin(2)) \/ (Profile = "shape" /\ Coin(4))
      a == IF wild THEN Weird(S.h) ELSE SliceLo(S.h)
      c == IF wild THEN Weird(S.w) ELSE SliceLo(S.w)
      full == Profile = "lazy" /\ Coin(3)
      hasidx == Coin(5)
      E(idx, raw) == [op |-> "crop", h |-> h,
      y0 |-> IF full THEN SeqOf(<<None, None, 0, 0, -S.h, 1>>) ELSE a,
      y1 |-> IF full THEN SeqOf(<<None, None, S.h, S.h, -1, S.h + 2, S.h - 1>>) ELSE IF wild THEN Weird(S.h) ELSE SliceHi(S.h, IF a = None THEN 0 ELSE a),
      x0 |-> IF full THEN SeqOf(<<None, None, 0, 0, -S.w, 1>>) ELSE c,
      x1 |-> IF full THEN SeqOf(<<None, None, S.w, S.w, -1, S.w + 2, S.w - 1>>) ELSE IF wild THEN Weird(S.w) ELSE SliceHi(S.w, IF c = None THEN 0 ELSE c),
      hasidx |-> hasidx, idx |-> idx, raw |-> raw, item |-> Profile = "crop" /\ Coin(3),
      lz |-> Profile = "lazy" /\ Coin(2)]
  IN CHOOSE x \in {E(q, Raw(q, S.nb)) : q \in {IF hasidx THEN RandIdx(S.nb) ELSE <<>>}} : TRUE

PadCropOp(h) ==
  LET S == pool[h]
      hasidx == Coin(5)
      OneOf(p) == SeqOf(<<<<0, 0, 0, 0>>, <<0, 0, 0, 0>>, <<p, p, p, p>>, <<p, 0, 0, R(0..5)>>, <<R(0..4), R(0..4), R(0..9), R(0..9)>>>>)
      E(idx, raw, y0, x0, pad) ==
        [op |-> "pcrop", h |-> h,
         y0 |-> y0, y1 |-> IF Coin(6) THEN None ELSE R((Max2(OpenLo(y0), 0) + 3)..(S.h + 6)),
         x0 |-> x0, x1 |-> IF Coin(6) THEN None ELSE R((Max2(OpenLo(x0), 0) + 3)..(S.w + 6)),
         pad |-> pad, hasidx |-> hasidx, idx |-> idx, raw |-> raw]
  IN CHOOSE x \in {E(q, Raw(q, S.nb), y0, x0, pad) : q \in {IF hasidx THEN RandIdx(S.nb) ELSE <<>>},
                      y0 \in {IF Coin(6) THEN None ELSE R((-6)..(S.h \div 2))},
                      x0 \in {IF Coin(6) THEN None ELSE R((-6)..(S.w \div 2))},
                      pad \in {OneOf(R({1, 4}))}} : TRUE

Scales == {<<1, 4>>, <<1, 2>>, <<1, 2>>, <<3, 4>>, <<1, 1>>, <<1, 1>>, <<5, 4>>, <<3, 2>>, <<2, 1>>, <<3, 1>>, <<4, 1>>, <<1, 3>>}
\* the linear map (a b; c d)/q followed by a shift that brings the image into view
Moved(a, b, c, d, q, S, ox, oy) ==
  LET mx == Min2(0, a * S.w) + Min2(0, b * S.h)   my == Min2(0, c * S.w) + Min2(0, d * S.h) IN
  Norm(<<4 * a, 4 * b, ox * q - 4 * mx, 4 * c, 4 * d, oy * q - 4 * my, 4 * q>>)
RandMap(S) ==
  LET scs == IF Profile = "known" /\ Coin(2) THEN {<<1, 2>>, <<1, 4>>, <<3, 8>>}
             ELSE IF Profile = "over" /\ ~Coin(3) THEN {<<1, 2>>, <<1, 4>>, <<1, 8>>, <<1, 8>>, <<2, 5>>, <<1, 6>>, <<1, 3>>}
             ELSE IF Profile = "chain" THEN {<<2, 1>>, <<5, 2>>, <<3, 1>>, <<4, 1>>, <<1, 2>>, <<1, 4>>, <<2, 5>>, <<1, 1>>, <<3, 2>>} ELSE Scales
      s1 == R(scs)  s2 == IF Coin(2) THEN s1 ELSE R(scs)
      ox == IF Coin(3) THEN 0 ELSE IF Profile = "chain" /\ Coin(2) THEN R(-6..6) ELSE R(-24..40)   oy == IF Coin(3) THEN 0 ELSE R(-24..40)
      axis == Norm(<<s1[1] * 4 * s2[2], 0, ox * s1[2] * s2[2], 0, s2[1] * 4 * s1[2], oy * s1[2] * s2[2], 4 * s1[2] * s2[2]>>)
      c == IF Profile = "edge" THEN (IF Coin(4) THEN 1 ELSE 16) ELSE IF Profile \in {"over", "known", "chain"} THEN SeqOf(<<1, 1, 1, 1, 1, 1, 1, 7, 8, 9, 10, 12, 13>>) ELSE R(1..15)
  IN CASE c = 16 -> \* enlarged and sheared or turned
          (CHOOSE m \in {Moved(q[1], q[2], q[3], q[4], q[5], S, IF Coin(2) THEN 0 ELSE ox \div 4, IF Coin(2) THEN 0 ELSE oy \div 4) :
                          q \in {SeqOf(<<<<2, 0, 1, 2, 1>>, <<2, 1, 0, 2, 1>>, <<3, -1, 1, 3, 1>>, <<2, 1, -1, 2, 1>>, <<8, 0, 1, 8, 4>>,
                                        <<5, 1, 0, 6, 2>>, <<-2, 1, 0, 2, 1>>, <<2, 0, -1, 2, 1>>, <<4, 3, -3, 4, 5>>, <<0, 3, -2, 1, 1>>,
                                        <<8, 1, 0, 8, 4>>, <<3, 0, 1, 3, 2>>, <<R(1..8), R(-2..2), R(-2..2), R(1..8), R({1, 2, 4})>>>>)}} : TRUE)
       [] c <= 6 -> axis
       [] c >= 13 -> \* any small matrix, moved so that it shows in the view
          (CHOOSE m \in {Moved(q[1], q[2], q[3], q[4], q[5], S, ox, oy) :
                          q \in {<<R(-4..4), R(-3..3), R(-3..3), R(-4..4), R({1, 1, 2, 2, 4})>>}} : TRUE)
       [] c = 7 -> <<-1, 0, S.w, 0, 1, 0, 1>>
       [] c = 8 -> <<0, -1, S.h, 1, 0, 0, 1>>
       [] c = 9 -> Mul(axis, <<0, 1, 0, -1, 0, S.w, 1>>)
       [] c = 10 -> <<4, 2, ox, 0, 4, oy, 4>>
       [] c = 11 -> <<3, -4, 4 * S.h, 4, 3, 0, 5>>
       [] OTHER -> Translate(ox \div 4, oy \div 4)

RECURSIVE IntTypes(_, _)
IntTypes(p, m) ==
  LET N == p[m] IN
  IF N.k \in {"leaf", "nans"} THEN (IF N.ty = "i16" THEN {"i16"} ELSE IF N.ty \in {"u16", "u16file"} THEN {"u16"} ELSE {})
  ELSE UNION {IntTypes(p, N.sub[i]) : i \in 1..Len(N.sub)}

WarpOp(h) ==
  LET S == pool[h]
      M0 == IF Profile = "lazy" /\ Coin(2) THEN Id ELSE RandMap(S)
      c == R(1..8)
      via == IF Profile = "lazy" THEN "warp" ELSE IF Profile = "canvas" /\ ~S.rnd THEN SeqOf(<<"warp", "scale", "uniform", "resize", "matrix", "params", "none">>) ELSE IF c = 1 THEN "scale" ELSE IF c = 2 /\ ~S.rnd THEN "resize" ELSE "warp"
      scs == IF Profile = "canvas" THEN Scales \cup {<<R(1..12), R(1..12)>>, <<R(1..7), R(1..7)>>, <<R(20..70), 64>>, <<33, 32>>, <<31, 32>>} ELSE Scales
      s1 == R(scs)  s2 == IF via = "uniform" \/ Coin(2) THEN s1 ELSE R(scs)
      rw == R(6..64)   rh == R(6..64)
      M == CASE via = "none" -> Id [] via \in {"scale", "uniform"} -> Norm(<<s1[1] * s2[2], 0, 0, 0, s2[1] * s1[2], 0, s1[2] * s2[2]>>)
             [] via = "resize" -> Norm(<<rw * S.h, 0, 0, 0, rh * S.w, 0, S.w * S.h>>)
             \* a canvas that ends a little past a pixel
             [] Profile = "canvas" /\ Coin(4) -> Norm(<<32, 0, R(-70..70), 0, 32, R(-70..70), 32>>)
             \* nothing, or next to nothing, at positive coordinates
             [] Profile \in {"canvas", "shape"} /\ Coin(6) -> Norm(<<SeqOf(<<1, 1, 2, -1>>), 0, R(-30..2) * 2, 0, SeqOf(<<1, 1, -1>>), R(-30..2) * 2, 2>>)
             [] OTHER -> M0
      aw == AutoW(M, S.w, S.h)   ah == AutoH(M, S.w, S.h)
      auto == IF via = "resize" THEN FALSE ELSE IF Profile = "edge" THEN Coin(2) ELSE ~Coin(3)
      interp == IF Profile = "param" THEN SeqOf(<<"linear", "linear", "nearest", "linear", "cubic", "lanczos">>)
                ELSE IF Profile = "edge" THEN SeqOf(<<"linear", "linear", "nearest">>)
                ELSE SeqOf(<<"linear", "linear", "linear", "linear", "nearest">>)
      aa == IF Coin(4) /\ Profile /= "edge" THEN TRUE ELSE FALSE
      border == IF Profile \in {"param", "mix"} /\ Coin(2) THEN (IF S.dt = "f" /\ IntTypes(pool, h) /= {} /\ ~S.deq THEN "auto"
                    ELSE IF S.dt = "f" THEN SeqOf(<<"-5", "0">>) ELSE "3") ELSE "auto"
  IN [op |-> "warp", h |-> h, M |-> M, auto |-> auto,
      w1 |-> IF via = "resize" THEN rw ELSE IF Coin(2) THEN aw ELSE Max2(3, aw + R(-8..8)),
      h1 |-> IF via = "resize" THEN rh ELSE IF Coin(2) THEN ah ELSE Max2(3, ah + R(-8..8)),
      interp |-> interp, aa |-> aa, border |-> border,
      eps |-> IF Profile = "param" THEN R({0, 0, 1}) ELSE 0,
      backend |-> IF Profile = "param" /\ Coin(3) THEN "cv2" ELSE "auto",
      lz |-> IF Profile = "canvas" THEN via = "none" ELSE Profile = "lazy" /\ Coin(2), via |-> via]

TakeOp(h) ==
  LET S == pool[h]
      byname == S.named /\ Coin(2)
      \* asking for exactly the names a view has, some of them repeated, may give
      \* the view itself or the first band of each name
      dup == Cardinality({S.nm[i] : i \in 1..Len(S.nm)}) < Len(S.nm)
      L == R({1, 2, 2, 3, 4})
      miss == Coin(3)
      nmx == [i \in 1..L |-> IF miss /\ Coin(3) THEN SeqOf(<<"zz", "yy", "m.9">>) ELSE SeqOf(S.nm)]
      whole == Profile = "lazy" /\ Coin(2)
      slices == ~byname /\ Profile = "chan" /\ Coin(4)
      E(nm, idx, raw, sl) ==
        [op |-> "take", h |-> h, by |-> IF byname THEN "name" ELSE "idx", names |-> nm, idx |-> idx, raw |-> raw, sl |-> sl,
         form |-> SeqOf(<<"codes", "compact", "fused", "spec">>),
         pol |-> IF byname /\ Coin(6) THEN "error" ELSE "return_nan",
         lz |-> Profile = "lazy" /\ S.k /= "cat" /\ Coin(2)]
  IN IF byname THEN CHOOSE x \in {E(IF (whole \/ q = S.nm) /\ dup THEN <<S.nm[1]>> ELSE IF whole THEN S.nm ELSE q, <<>>, <<>>, <<>>) : q \in {nmx}} : TRUE
     ELSE IF slices THEN CHOOSE x \in {LET q == SliceIdx(t[1], t[2], IF t[3] = None THEN 1 ELSE t[3], S.nb) IN
                                        IF q = <<>> \/ Len(q) > 5 THEN E(<<>>, Iota(S.nb), <<>>, <<None, None, None>>) ELSE E(<<>>, q, <<>>, t)
                                        : t \in {<<Bound(S.nb), Bound(S.nb), SeqOf(<<None, 1, 2, -1, -2>>)>>}} : TRUE
     ELSE CHOOSE x \in {E(<<>>, q, Raw(q, S.nb), <<>>) : q \in {IF whole THEN Iota(S.nb) ELSE RandIdx(S.nb)}} : TRUE

CatOp(h) ==
  LET S == pool[h]
      C == {j \in 1..Len(pool) : pool[j].w = S.w /\ pool[j].h = S.h /\ ~pool[j].xr}
      \* parts that share their sources
      Q == {j \in C : \/ InSeq(j, S.sub) \/ InSeq(h, pool[j].sub) \/ j = h
                      \/ \E i \in 1..Len(pool[j].sub) : InSeq(pool[j].sub[i], S.sub)}
      L == R({2, 2, 3})
      D == IF Coin(2) THEN C ELSE Q
  IN [op |-> "cat", hs |-> [i \in 1..L |-> IF i = 1 THEN h ELSE R(D)]]

Keeps == <<<<>>, <<>>, <<"offset">>, <<"scale">>, <<"theta">>, <<"shearx">>, <<"offset", "theta", "shearx">>, <<"scale", "offset">>,
           <<"scale", "theta", "shearx">>, <<"offset", "theta">>, <<"offset", "scale", "shearx">>>>
UndoOp(h) ==
  LET S == pool[h]  k == SeqOf(Keeps)
      c == IF S.k = "cat" THEN R(1..Len(S.sub)) ELSE 0
      V == IF c = 0 THEN S ELSE pool[S.sub[c]]
  IN [op |-> "undo", h |-> h, keep |-> IF V.hastf /\ CanKeep(Inv(V.tf)) THEN k ELSE <<>>, squash |-> Coin(3),
      api |-> SeqOf(<<"remove", "retain", "default">>), part |-> c]

SetOp(h) ==
  LET S == pool[h]  fl == S.dt = "f" /\ \A i \in Reach(pool, h) : pool[i].dt = "f" IN
  [op |-> "setp", h |-> h, interp |-> SeqOf(<<"keep", "nearest", "linear">>), aa |-> SeqOf(<<"keep", "yes", "no", "no">>),
   border |-> IF fl THEN SeqOf(<<"keep", "auto", "0", "-5">>) ELSE "keep", opt |-> Coin(2)]

Draw(op) ==
  LET h == HandleOf IN
  CASE op = "leaf" -> LeafOp(FALSE)
    [] op = "crop" -> CropOp(h)
    [] op = "pcrop" -> PadCropOp(h)
    [] op = "warp" -> WarpOp(h)
    [] op = "ov" -> [op |-> "ov", h |-> h, lvl |-> R({0, 1, 1, 1, 2, 2, 3})]
    [] op = "take" -> TakeOp(h)
    [] op = "cat" -> CatOp(h)
    [] op = "undo" -> UndoOp(h)
    [] op = "setp" -> SetOp(h)
    [] op = "tfrom" -> [op |-> "tfrom", a |-> h, b |-> R(1..Len(pool))]
    [] op = "fin" -> [op |-> "fin", h |-> h, opt |-> Coin(2)]
    [] OTHER -> [op |-> op, h |-> h]

MaxDim == 80
ViewOk(N) ==
  /\ N.w >= (IF Profile \in {"crop", "lazy", "shape"} THEN 0 ELSE IF Profile \in {"undo", "canvas"} THEN 1 ELSE 3)
  /\ N.h >= (IF Profile \in {"crop", "lazy", "shape"} THEN 0 ELSE IF Profile \in {"undo", "canvas"} THEN 1 ELSE 3)
  /\ N.w <= MaxDim /\ N.h <= MaxDim /\ N.nb >= 1 /\ N.nb <= 6
  /\ (N.hastf => Small(N.tf) /\ Small(Inv(N.tf)))
  /\ N.depth <= 7

\* every map on the way to every band stays small
BandsSmall(p, m) == \A b \in 0..(p[m].nb - 1) : LET r == BandPath(p, m, b) IN Small(r[2]) /\ Small(Inv(r[2]))

Allowed(e) ==
  CASE e.op = "leaf" -> nuid < 7 /\ Len(pool) < 4
    [] e.op \in {"cat"} -> ~pool[e.hs[1]].xr
                        /\ (\A i \in 1..Len(e.hs) : ~pool[e.hs[i]].deg)
                        \* (mixed integers become int32, which OpenCV cannot resample)
                        /\ Cardinality(UNION {IntTypes(pool, e.hs[i]) : i \in 1..Len(e.hs)}) <= 1
    [] e.op = "tfrom" -> TRUE
    [] e.op = "setp" -> \* (a selection across a concatenation rebuilds its parts)
         LET ks == {pool[i].k : i \in Reach(pool, e.h)} IN
         /\ ~pool[e.h].deg /\ ~({"cat", "take"} \subseteq ks) /\ WarpsIn(pool, e.h) /= {}
         /\ \A i \in 1..Len(pool) : pool[i].obj = 0 /\ pool[i].k \notin {"eval"}
         /\ \A i \in 1..Len(hist) : hist[i].op \notin {"opt", "eval", "undo"}
    [] OTHER ->
         LET S == pool[e.h] IN
         /\ (S.xr => e.op \in {"opt", "fin", "intro"})
         /\ (S.deg => e.op \in {"opt", "crop", "take", "intro"})
         /\ CASE e.op = "deq" -> S.dt = "i" /\ ~S.deq
              [] e.op = "warp" -> Det(e.M) /= 0
              [] e.op = "ov" -> S.w >= 6 /\ S.h >= 6
              [] e.op = "undo" -> IF S.k = "cat" THEN \A i \in 1..Len(S.sub) : pool[S.sub[i]].hastf /\ pool[S.sub[i]].k /= "cat"
                                 ELSE S.hastf
              [] e.op = "eval" -> ~HasCat(pool, e.h)       \* concatenations have no evaluate
              [] e.op = "pcrop" -> Min2(e.y1, S.h) - Max2(OpenLo(e.y0), 0) >= 2 /\ Min2(e.x1, S.w) - Max2(OpenLo(e.x0), 0) >= 2
              [] OTHER -> TRUE

\* both axes of the image must still be visible in a warped view
Visible(N, S) ==
  LET X0 == ApX(N.I, U, U)  Y0 == ApY(N.I, U, U)
      X1 == ApX(N.I, (N.w * U) \div 2, (N.h * U) \div 2)  Y1 == ApY(N.I, (N.w * U) \div 2, (N.h * U) \div 2)
  IN \/ X1 > 0 /\ X1 < S.w * U /\ Y1 > 0 /\ Y1 < S.h * U

\* the usual order of a pipeline over a file: zoom level, window, dequantize, warp
NextInLine(N) == CASE N.k = "leaf" -> SeqOf(<<"ov", "crop">>)
                 [] N.k = "ov" -> SeqOf(<<"crop", "deq", "crop">>)
                 [] N.k = "crop" -> SeqOf(<<"deq", "warp", "deq">>)
                 [] N.k = "deq" -> "warp"
                 [] OTHER -> SeqOf(Ops)

TryStep ==
  \E op \in {IF Profile = "edge" /\ Len(pool) = 1 THEN "warp" ELSE IF Profile = "chain" /\ ~Coin(3) THEN NextInLine(pool[Len(pool)]) ELSE SeqOf(Ops)} : \E e \in {NoGdal(Draw(op))} :
     IF ~Allowed(e) THEN UNCHANGED <<pool, hist, nuid>>
     ELSE IF e.op \notin Views THEN hist' = Append(hist, e) /\ UNCHANGED <<pool, nuid>>
     ELSE LET N0 == NewView(pool, e, nuid)
              S0 == IF e.op = "leaf" \/ e.op = "cat" THEN N0 ELSE pool[e.h]
              \* nothing much is built on squashed views
              N == IF ((N0.w < 3 \/ N0.h < 3) /\ Profile /= "canvas") \/ (e.op \in {"warp", "undo"} /\ ~Visible(N0, S0) /\ ~AllNan(pool, e.h)) THEN [N0 EXCEPT !.deg = TRUE] ELSE N0
          IN
          IF /\ ViewOk(N) /\ (e.op \in {"warp", "undo"} => Small(N.T) /\ Small(N.I) /\ (AllNan(pool, e.h) \/ Visible(N, S0) \/ (Profile \in {"canvas", "undo", "shape", "geom"} /\ Coin(3))))
             /\ BandsSmall(Append(pool, N), Len(pool) + 1)
             \* asked to fail: keep the request, but nothing is built on it
          THEN /\ hist' = Append(hist, e) /\ pool' = Append(pool, N)
               /\ nuid' = IF e.op = "leaf" /\ N.k = "leaf" THEN nuid + e.nb ELSE nuid
          ELSE UNCHANGED <<pool, hist, nuid>>

Last == Len(pool)
Fin(h, o) == [op |-> "fin", h |-> h, opt |-> o]
Closing ==
  LET L == Last  m == R(1..L)
      roots == {h \in 1..L : ~pool[h].deg /\ ~pool[h].xr}
  IN CASE Profile = "tfrom" ->
            [i \in 1..6 |-> [op |-> "tfrom", a |-> R(1..L), b |-> R(1..L)]]
       [] Profile = "intro" -> <<[op |-> "intro", h |-> L], [op |-> "opt", h |-> L], [op |-> "intro", h |-> L + 1], [op |-> "intro", h |-> m]>>
       [] Profile \in {"geom", "param"} -> <<[op |-> "opt", h |-> L], [op |-> "opt", h |-> m]>>
       [] Profile = "setp" -> <<Fin(L, FALSE), [op |-> "opt", h |-> L], Fin(L, TRUE), [op |-> "opt", h |-> m], Fin(m, FALSE)>>
       [] Profile = "hist" -> <<Fin(m, TRUE), Fin(L, TRUE), Fin(m, FALSE), [op |-> "opt", h |-> L], Fin(m, TRUE), Fin(L, TRUE), [op |-> "opt", h |-> m], Fin(m, FALSE)>>
       [] OTHER -> <<Fin(L, TRUE), [op |-> "opt", h |-> L], Fin(L, FALSE), Fin(L + 1, FALSE)>>

Init == pool = <<>> /\ hist = <<>> /\ nuid = 0 /\ n = 0 /\ fin = FALSE

First ==
  /\ n = 0
  /\ \E e \in {NoGdal(LeafOp(TRUE))} : LET N == NewView(pool, e, 0) IN
     hist' = <<e>> /\ pool' = <<N>> /\ nuid' = IF N.k = "leaf" THEN e.nb ELSE 0
  /\ n' = 1 /\ fin' = FALSE
Grow == n > 0 /\ n < MaxOps /\ ~fin /\ TryStep /\ n' = n + 1 /\ fin' = FALSE
Finish ==
  /\ n >= MaxOps /\ ~fin
  /\ \E p \in {hist \o Closing} : PrintT("PROGRAM " \o ToJson(p))
  /\ fin' = TRUE /\ UNCHANGED <<pool, hist, nuid, n>>
Next == First \/ Grow \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
