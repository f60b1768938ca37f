---------------------------- MODULE DelayedTrace ----------------------------
(* Validates recorded executions of the real library against Delayed.        *)
(* Every line of the input file is one program: [id, ev], ev a sequence of   *)
(* [e |-> operation record, o |-> observation record].  One initial state    *)
(* per program; every step applies the specified action to the model's pool *)
(* and evaluates every clause about what was observed.  The verdict is      *)
(* total: a failing clause is printed (with the ids of the properties it     *)
(* contradicts) and validation goes on with the specified state.            *)
EXTENDS Delayed, Json, IOUtils

Detail == IOEnv.DETAIL = "1"
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, pool, dig, fins, nuid
vars == <<tid, l, pool, dig, fins, nuid>>

Init == tid \in 1..Len(Traces) /\ l = 1 /\ pool = <<>> /\ dig = <<>> /\ fins = {} /\ nuid = 0

Ev == Traces[tid].ev
If(c, s) == IF c THEN {s} ELSE {}

(* ------------------------------------------------ clauses about a new view *)
OpProp(op) == CASE op \in {"crop", "pcrop"} -> "C09"
                [] op = "ov" -> "C12"
                [] op = "take" -> "C08"
                [] op = "cat" -> "C08"
                [] op = "opt" -> "C01"
                [] op = "deq" -> "C15"
                [] op = "undo" -> "C11"
                [] op = "warp" -> "C26"
                [] OTHER -> "C04"

NoOp(e, N, S) == N.w = S.w /\ N.h = S.h /\ N.nb = S.nb /\ N.named = S.named /\ N.nm = S.nm
                 /\ N.idx = Iota(S.nb) /\ N.T = Id /\ N.x0 = 0 /\ N.y0 = 0

\* an automatic canvas whose exact bound is an integer may round up by one when
\* the map is not exactly representable in floating point
SizeOk(e, N, S, o) ==
  LET dyad == PowerOfTwo(N.T[7])
      amb == (~dyad /\ e.op = "warp" /\ e.auto) \/ (N.rnd /\ e.op \in {"warp", "undo"})
      okw == o.w = N.w \/ (amb /\ o.w = N.w + 1 /\ AutoWExact(N.T, S.w, S.h))
      okh == o.h = N.h \/ (amb /\ o.h = N.h + 1 /\ AutoHExact(N.T, S.w, S.h))
  IN okw /\ okh

FrameClauses(o) ==
  LET n == Min2(Len(dig), Len(o.fr)) IN
  If(\E i \in 1..n : o.fr[i] /= dig[i], "C05 existing-view-changed")
  \cup If(Len(o.fr) < Len(dig), "C05 existing-view-lost")

Learned(e, N, o) == /\ o.named /\ ~N.named /\ e.op \in {"take", "crop", "opt"}
                    /\ LearnNames(Append(pool, N), Len(pool) + 1, o.nm)

\* a crop that shows nothing of the source may stop at an empty region of it
EmptyCrop(e, o) == e.op = "opt" /\ \E i \in 1..Len(o.g) : o.g[i].t = "crop" /\ (o.g[i].w = 0 \/ o.g[i].h = 0)

SrcOf(e, N) == IF e.op \in {"leaf", "cat"} THEN N ELSE IF e.op = "undo" THEN pool[UndoOf(pool, e)] ELSE pool[e.h]

\* squashing also maps the whole view onto the one remaining pixel
SquashedTf(t, M, w, h) ==
  /\ \A i \in 1..3 : Close1(t[i] * w, M[i], M[7], 4 * w)
  /\ \A i \in 4..6 : Close1(t[i] * h, M[i], M[7], 4 * h)
UndoTf(e, S, N, t) ==
  IF e.squash /\ AllNan(pool, UndoOf(pool, e))
  THEN LET w == AutoW(N.T, S.w, S.h)  h == AutoH(N.T, S.w, S.h)
       IN \E dw \in 0..1, dh \in 0..1 : SquashedTf(t, N.T, Max2(1, w + dw), Max2(1, h + dh))
  ELSE CloseAff(t, N.T, 3)

ViewClauses(e, N, o) ==
  LET S == SrcOf(e, N)
      P == OpProp(e.op)
      \* sources without pixels are replaced by fresh ones of the right size
      path == IF N.hastf /\ ~EmptyCrop(e, o) /\ o.tf /= <<>> /\ BandPath(Append(pool, N), Len(pool) + 1, 0)[1] /= 0 THEN ~CloseAff(o.tf, N.tf, 3) ELSE FALSE
  IN   If(~SizeOk(e, N, S, o), P \o " declared-size")
  \cup If(o.nb /= N.nb, P \o " declared-band-count")
  \cup If(e.op = "crop" /\ o.nb /= N.nb, "C08 declared-band-count")
  \cup If(e.op \notin {"opt", "crop", "take", "cat"} /\ (o.nb /= N.nb \/ o.named /= N.named \/ o.nm /= N.nm),
          "C08 bands-changed-by-spatial-operation")
  \cup If((o.named /= N.named \/ (o.named /\ o.nm /= N.nm)) /\ ~Learned(e, N, o), (IF e.op = "opt" THEN "C01" ELSE "C08") \o " declared-channels")
  \cup If(path, (IF e.op = "opt" THEN "C02" ELSE IF e.op = "undo" THEN "C11" ELSE "C10") \o " transform-from-leaf")
  \cup If(e.op = "ov" /\ path, "C12 overview-geometry")
  \cup If(e.op = "warp" /\ path, "C26 another-map-than-requested")
  \cup If(e.op = "warp" /\ (o.nb /= N.nb \/ o.nm /= N.nm), "C26 bands-changed")
  \cup If(e.op \in {"crop", "warp", "take"} /\ o.same = e.h /\ e.lz /\ ~NoOp(e, N, S), "C24 lazy-returned-input-although-not-a-noop")
  \cup If(e.op \in {"crop", "warp", "take"} /\ e.lz /\ ~o.eqnl, "C24 lazy-result-differs-from-non-lazy")
  \cup (IF e.op = "undo" THEN
          If(~UndoTf(e, S, N, o.uw), "C11 returned-transform")
          \cup If(e.part /= 0 /\ o.np /= Len(pool[e.h].sub), "C11 number-of-parts")
        ELSE {})

(* ---------------------------------------------- clauses about an optimized *)
G(o) == o.g
Kid(g, i, b) ==                     \* child index and band for band b of node i
  LET N == g[i] IN
  IF N.t = "cat" THEN
    LET RECURSIVE F(_, _)
        F(j, r) == IF j > Len(N.kids) THEN <<0, 0>>
                   ELSE IF r < g[N.kids[j]].nb THEN <<N.kids[j], r>> ELSE F(j + 1, r - g[N.kids[j]].nb)
    IN F(1, b)
  ELSE IF N.hasidx THEN (IF b + 1 <= Len(N.idx) THEN <<N.kids[1], IF N.idx[b + 1] < 0 THEN N.idx[b + 1] + g[N.kids[1]].nb ELSE N.idx[b + 1]>> ELSE <<0, 0>>)
  ELSE <<N.kids[1], b>>

RECURSIVE GPath(_, _, _)
GPath(g, i, b) ==
  LET N == g[i] IN
  IF N.kids = <<>> THEN (IF N.t = "nans" THEN <<0, Id, 0>> ELSE <<N.leaf, Id, b>>)
  ELSE IF N.t = "crop" /\ (N.w = 0 \/ N.h = 0) THEN <<-3, Id, 0>>
  ELSE LET kb == Kid(g, i, b) IN
       IF kb[1] = 0 THEN <<-2, Id, 0>>
       ELSE LET r == GPath(g, kb[1], kb[2])
                S == IF N.t = "crop" THEN Translate(-N.x0, -N.y0)
                     ELSE IF N.t \in {"warp", "ov"} THEN N.M ELSE Id
            IN IF r[1] <= 0 THEN r ELSE <<r[1], Mul(S, r[2]), r[3]>>

RECURSIVE GWarps(_, _, _)
GWarps(g, i, b) ==
  LET N == g[i] IN
  IF N.kids = <<>> THEN <<>>
  ELSE LET kb == Kid(g, i, b) IN
       IF kb[1] = 0 THEN <<>>
       ELSE (IF N.t = "warp" THEN <<N.p>> ELSE <<>>) \o GWarps(g, kb[1], kb[2])

\* the total overview level on the way to a band of an optimized view
OvLevel(M) == LET ks == {k \in 0..6 : Pow2(k) * M[1] = M[7]} IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : TRUE
RECURSIVE GLevels(_, _, _)
GLevels(g, i, b) ==
  LET N == g[i] IN
  IF N.kids = <<>> THEN 0
  ELSE LET kb == Kid(g, i, b) IN
       IF kb[1] = 0 THEN 0
       ELSE (IF N.t = "ov" THEN OvLevel(N.M) ELSE 0) + GLevels(g, kb[1], kb[2])

\* how much was downsampled on the way to a band: <<explicit levels, x, y>>
\* with x and y in units of 1/1024, or x = 0 where this is not known
RECURSIVE Shrink(_, _, _)
Shrink(p, n, b) ==
  LET N == p[n] IN
  CASE N.k \in {"leaf", "eval", "nans"} -> <<0, 1024, 1024>>
    [] N.k = "cat" ->
         LET RECURSIVE F(_, _)
             F(i, r) == IF r < p[N.sub[i]].nb THEN Shrink(p, N.sub[i], r)
                        ELSE F(i + 1, r - p[N.sub[i]].nb)
         IN F(1, b)
    [] N.k \in {"take", "crop"} /\ N.idx[b + 1] < 0 -> <<0, 1024, 1024>>
    [] OTHER ->
         LET r == Shrink(p, N.sub[1], N.idx[b + 1]) IN
         CASE N.k = "ov" -> <<r[1] + N.lvl, r[2], r[3]>>
           [] N.k = "warp" /\ N.T[2] = 0 /\ N.T[4] = 0 /\ r[2] > 0 /\ r[2] < 131072 /\ r[3] < 131072 ->
                <<r[1], (r[2] * Max2(Abs(N.T[1]), N.T[7])) \div Abs(N.T[1]), (r[3] * Max2(Abs(N.T[5]), N.T[7])) \div Abs(N.T[5])>>
           [] N.k = "warp" -> <<r[1], 0, 0>>
           [] OTHER -> r

NormalForm(g, rnd) ==
  UNION {UNION {
    LET P == g[i]  C == g[g[i].kids[j]] IN
         If(P.t = "crop" /\ C.t = "crop", "C06 stacked-crops")
    \cup If(P.t = "warp" /\ C.t = "warp", "C06 stacked-warps")
    \cup If(P.t = "ov" /\ C.t = "ov", "C06 stacked-overviews")
    \cup If(C.t = "cat" /\ P.t \in {"crop", "warp", "ov", "deq"}, "C06 operation-above-concat")
    \cup If(P.t = "deq" /\ C.t = "warp", "C06 dequantize-above-warp")
    \cup If(P.t \in {"crop", "ov"} /\ C.t = "deq", "C06 dequantize-below-crop")
    \cup If(P.t = "crop" /\ C.t = "warp" /\ C.p.interp /= "nearest" /\ P.w > 0 /\ P.h > 0, "C06 crop-above-warp")
    \cup If(P.t = "ov" /\ C.t \in {"crop", "warp"}, "C06 overview-above-crop-or-warp")
    \cup If(P.t \in {"warp", "crop", "ov"} /\ C.t = "nans", "C06 operation-above-nans")
    : j \in 1..Len(g[i].kids)} : i \in 1..Len(g)}
  \cup UNION {If(~rnd /\ g[i].t = "warp" /\ g[i].M /= <<>> /\ IsId(g[i].M) /\ g[i].w = g[g[i].kids[1]].w
                 /\ g[i].h = g[g[i].kids[1]].h, "C06 identity-warp-left") : i \in 1..Len(g)}

\* the correction warp that re-aligns a crop with an overview below it is not a
\* requested one, so parameters are only tracked on paths without that combination
ParamsKnown(ks) == ~InSeq("ov", ks)

\* do the first n warps together leave sizes and directions alone
RECURSIVE Product(_, _)
Product(req, n) == IF n = 0 THEN Id ELSE Mul(Product(req, n - 1), [req[n].T EXCEPT ![3] = 0, ![6] = 0])
\* (a power of two that an overview took over counts as nothing)
LinearId(req, n, lv) == LET P == Product(req, n) IN \E k \in 0..lv : P = <<1, 0, 0, 0, 1, 0, Pow2(k)>>

OptClauses(e, N, o) ==
  LET g == G(o)  h == e.h  bs == 0..(N.nb - 1) IN
       If(~o.idem, "C06 not-idempotent")
  \cup If(~o.rep, "C05 optimize-not-repeatable")
  \cup If(~o.ctx, "C05 optimized-together-differs-from-alone")
  \cup (IF N.deg THEN {} ELSE NormalForm(g, N.rnd))
  \cup (IF N.deg \/ ~o.gok THEN {} ELSE UNION {
        LET want == BandPath(pool, h, b)   got == GPath(g, 1, b) IN
             If(got[1] = -2, "C02 band-out-of-range")
        \cup If(got[1] >= 0 /\ got[1] /= want[1], "C02 wrong-leaf")
        \cup If(got[1] >= 0 /\ got[1] /= want[1], "C08 wrong-leaf")
        \cup If(got[1] > 0 /\ got[1] = want[1] /\ got[3] /= want[3], "C02 wrong-band")
        \cup If(got[1] > 0 /\ got[1] = want[1] /\ got[3] /= want[3], "C08 wrong-band")
        \cup If(got[1] > 0 /\ got[1] = want[1] /\ got[2] /= want[2], "C02 graph-geometry")
        \cup If(got[1] > 0 /\ got[1] = want[1] /\ got[2] /= want[2] /\ (GLevels(g, 1, b) > 0 \/ InSeq("ov", KindsOn(pool, h, b))),
                "C12 graph-geometry")
        : b \in bs})
  \cup (IF N.deg \/ ~o.gok THEN {} ELSE UNION {
        LET want == Shrink(pool, h, b)   got == GLevels(g, 1, b) IN
        \* an overview is only used where the view is at least as coarse
        If(want[2] > 0 /\ got > want[1] /\ Pow2(got - want[1]) * 1024 > Min2(want[2], want[3]) + Min2(want[2], want[3]) \div 32,
           "C12 overview-coarser-than-requested")
        : b \in bs})
  \cup (IF N.deg THEN {} ELSE UNION {
        LET req == WarpsOn(pool, h, b)   ks == KindsOn(pool, h, b)   got == GWarps(g, 1, b) IN
        IF ~ParamsKnown(ks) THEN {}
        ELSE   If(\E i \in 1..Len(got) : ~\E j \in 1..Len(req) : got[i] = req[j].p, "C07 parameters-not-requested")
          \* the outermost request wins, unless it does nothing
          \cup If(Len(got) > 0 /\ Len(req) > 0 /\ ~InSeq("pcrop", ks)
                  /\ ~\E j \in 1..Len(req) : got[1] = req[j].p /\ LinearId(req, j - 1, GLevels(g, 1, b)), "C07 outermost-parameters-lost")
        : b \in bs})

(* ----------------------------------------------- clauses about evaluation *)
Tag(ks, c) == LET has(x) == InSeq(x, ks) IN
  {"C03 " \o c} \cup If(has("ov"), "C12 " \o c) \cup If(has("deq"), "C15 " \o c)
  \cup If(has("crop") \/ has("pcrop"), "C09 " \o c)

\* -1 NaN, -2 masked, -3 infinite or unrepresentable, otherwise value in 1/256 units
PixClauses(N, ks, r, v, at, size, raw) ==
  LET a == r.acc
      val == IF r.enc = 16 /\ ~a.deq THEN v \div 16 ELSE v
      zero == {"zero", "0"} \cap a.fills /= {}
      \* blends of fill values; a fill may be applied before or after dequantization
      his == IF "3" \in a.fills THEN (IF a.deq THEN {48, 768} ELSE {768}) ELSE {}
      gone == v < 0 \/ (v = 0 /\ N.dt = "i") \/ (v = 0 /\ zero) \/ (v >= 0 /\ \E hi \in his : v <= hi)
      \* outside: the fill values the warps on the way ask for
      fillok == \/ v < 0 /\ v /= -1280 /\ ("nan" \in a.fills \/ a.deq \/ a.fills = {} \/ N.nanb \/ r.src = -1)
                \/ v = -1280 /\ "-5" \in a.fills
                \/ v > -1280 /\ v < 0 /\ "-5" \in a.fills /\ zero
                \/ \E lo \in his, hi \in his : v >= lo /\ v <= hi
                \/ v = 0 /\ zero
                \/ v > 0 /\ (\E hi \in his : v < hi) /\ zero
                \/ v < 0 /\ a.deq
      want == r.src * 512 * U + at
      right == Abs(val - want) <= size
      otherband == \E k \in 0..15 : k /= r.src /\ val >= k * 512 * U /\ val <= k * 512 * U + 300 * U
                                    /\ ~(val >= r.src * 512 * U - 2 * U /\ val <= r.src * 512 * U + 400 * U)
  IN IF r.src = -1 THEN If(v /= -1 /\ (a.inn \/ ~fillok), "C08 missing-channel-not-nan")
     ELSE IF a.inn /\ ~r.out THEN
            IF right THEN {}
            ELSE IF gone THEN Tag(ks, "interior-pixel-invalid")
            ELSE Tag(ks, IF otherband THEN "interior-pixel-from-wrong-band" ELSE "interior-pixel-from-wrong-place")
                 \cup If(otherband, "C08 interior-pixel-from-wrong-band")
     ELSE IF r.out THEN
            IF gone THEN If(~fillok, "C07 outside-fill") \cup If(~fillok, "C03 outside-fill")
            ELSE IF a.fringe THEN (IF right THEN Tag(ks, "outside-pixel-valid") ELSE Tag(ks, "outside-pixel-valid"))
            ELSE Tag(ks, "outside-pixel-valid")
     ELSE IF a.clip /\ raw THEN If(~gone, "C03 clipped-pixel-valid")
     ELSE IF ~gone /\ ~a.fringe /\ ~right THEN Tag(ks, "edge-pixel-from-wrong-place")
     ELSE {}

\* the number type of a view whose sources have one and the same
LeafType(ty) == CASE ty \in {"f32", "file"} -> "float32" [] ty = "f64" -> "float64" [] ty = "i16" -> "int16"
                  [] ty \in {"u16", "u16file"} -> "uint16" [] OTHER -> "?"
RECURSIVE NumType(_)
NumType(n) ==
  LET N == pool[n] IN
  CASE N.k = "leaf" -> LeafType(N.ty)
    [] N.k = "nans" -> "?"
    [] N.k = "deq" -> "float"
    [] N.k \in {"take", "crop"} /\ \E i \in 1..Len(N.idx) : N.idx[i] < 0 -> "?"
    [] N.k = "cat" -> LET T == {NumType(N.sub[i]) : i \in 1..Len(N.sub)} IN IF Cardinality(T) = 1 THEN CHOOSE x \in T : TRUE ELSE "?"
    [] N.sub = <<>> -> "?"
    [] OTHER -> NumType(N.sub[1])

FinClauses(e, o) ==
  LET N == pool[e.h]  raw == ~e.opt /\ ~o.anyopt IN
  If(o.shape /= <<N.h, N.w, N.nb>>, "C04 evaluated-shape") \cup
  If(NumType(e.h) /= "?" /\ ~N.deg /\ ~((o.dt = NumType(e.h)) \/ (NumType(e.h) = "float" /\ o.dt \in {"float32", "float64"})), "C04 evaluated-type") \cup
  (IF N.deg THEN {} ELSE
       If(N.xr /\ N.named /\ o.labels /= N.nm, "C04 band-labels")
  \cup If(\E f \in fins : f[1] = e.h /\ f[2] = e.opt /\ f[3] /= o.dig, "C05 evaluation-not-repeatable")
  \cup UNION { LET px == o.pix[i] IN UNION {
                 LET r == LookPx(pool, e.h, b, px[1], px[2])   ks == KindsOn(pool, e.h, b) IN
                 LET cs ==
                      PixClauses(N, ks, r, px[3][b + 1][1], r.x, r.acc.tx, raw)
                 \cup PixClauses(N, ks, r, px[3][b + 1][2], r.y, r.acc.ty, raw)
                 IN IF cs /= {} /\ Detail
                    THEN IF PrintT(<<"DETAIL", Traces[tid].id, l, px, "band", b, r, ks, cs>>) THEN cs ELSE cs
                    ELSE cs
                 : b \in 0..(Min2(N.nb, Len(px[3])) - 1)} : i \in 1..Len(o.pix)})

(* ------------------------------------------------------ relative transform *)
\* through every source the two views share (sources without pixels are anonymous)
Related(e) ==
  LET A == LeafTfs(pool, e.a)  B == LeafTfs(pool, e.b) IN
  {Mul(y[2], Inv(x[2])) : <<x, y>> \in {p \in A \X B : p[1][1] = p[2][1] /\ pool[p[1][1]].k /= "nans"}}

\* the views show bands of a common source (bands left out may be dropped with their source)
SharesBand(e) == \E b \in 0..(pool[e.a].nb - 1), c \in 0..(pool[e.b].nb - 1) :
                    LET r == BandPath(pool, e.a, b)  s == BandPath(pool, e.b, c) IN r[1] > 0 /\ r[1] = s[1]

TfromClauses(e, o) ==
  LET A == LeafTfs(pool, e.a)  B == LeafTfs(pool, e.b)   cands == Related(e)
  IN If(o.tf /= <<>> /\ cands /= {} /\ ~\E c \in cands : CloseAff(o.tf, c, 3), "C10 relative-transform")
     \cup If(e.a = e.b /\ o.tf /= <<>> /\ ~CloseAff(o.tf, Id, 3) /\ Cardinality(A) = 1, "C10 not-identity")

(* ------------------------------------------- parameters given at evaluation *)
SetClauses(e, o) ==
  LET N == pool[e.h]  n == Min2(Len(dig), Len(o.fr))
      ws == WarpsIn(pool, e.h)
      apart == {i \in 1..n : Reach(pool, i) \cap ws = {}}
  IN If(o.shape /= <<N.h, N.w, N.nb>> /\ ~N.deg, "C04 evaluated-shape")
  \cup If(~o.kept, "C07 parameters-given-at-evaluation-lost")
  \cup If(\E i \in apart : o.fr[i] /= dig[i], "C05 existing-view-changed")

(* ------------------------------------------------------------ introspection *)
TypeName(N) == CASE N.k = "leaf" -> (IF N.ty \in {"file", "u16file"} THEN "DelayedLoad" ELSE "DelayedIdentity")
                 [] N.k = "nans" -> (IF N.ty = "nodata" THEN "DelayedNodata" ELSE "DelayedNans")
                 [] N.k = "crop" -> "DelayedCrop"
                 [] N.k = "warp" -> "DelayedWarp"
                 [] N.k = "ov" -> "DelayedOverview"
                 [] N.k = "deq" -> "DelayedDequantize"
                 [] N.k = "cat" -> "DelayedChannelConcat"
                 [] N.k = "eval" -> "DelayedIdentity"
                 [] N.k = "same" /\ N.xr -> "DelayedAsXarray"
                 [] OTHER -> "?"
RECURSIVE Known(_, _)
Known(p, n) == LET N == p[n] IN
  /\ TypeName(N) /= "?" /\ (N.k = "same" => N.obj = 0)
  /\ (N.k \in {"leaf", "eval", "nans"} \/ \A i \in 1..Len(N.sub) : Known(p, N.sub[i]))
RECURSIVE Pre(_, _)
Pre(p, n) == LET N == p[n] IN
  IF N.k \in {"leaf", "nans", "eval"} THEN <<TypeName(N)>>
  ELSE <<TypeName(N)>> \o Flat([i \in 1..Len(N.sub) |-> Pre(p, N.sub[i])])
RECURSIVE LeafList(_, _)
LeafList(p, n) == LET N == p[n] IN
  IF N.k \in {"leaf", "nans", "eval"} THEN <<n>>
  ELSE Flat([i \in 1..Len(N.sub) |-> LeafList(p, N.sub[i])])
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})

IntroClauses(e, o) ==
       If(o.nest /= o.walk, "C23 nesting-differs-from-tree")
  \cup If(o.graph /= o.walk, "C23 graph-differs-from-tree")
  \cup If(o.gpar /= o.wpar, "C23 graph-edges-differ-from-tree")
  \cup If(o.npar /= o.wpar, "C23 nesting-edges-differ-from-tree")
  \cup If(o.nmeta /= o.wmeta, "C23 nesting-parameters")
  \cup If(o.gmeta /= o.wmeta, "C23 graph-parameters")
  \cup If(o.text /= Len(o.walk), "C23 text-does-not-list-every-node")
  \cup If(~o.labels, "C23 text-labels")
  \cup (IF Known(pool, e.h) THEN
             If(o.walk /= Pre(pool, e.h), "C23 tree-differs-from-requested-operations")
        \cup If(\E n \in 1..Len(pool) : Count(o.leafs, n) /= Count(LeafList(pool, e.h), n), "C23 leafs")
        ELSE {})

(* ----------------------------------------------------------------- steps *)
ErrTags(e) ==
  CASE e.op = "opt" -> {"C06", "C01"}
    [] e.op = "setp" -> {"C07"}
    [] e.op = "fin" -> LET ks == KindsOn(pool, e.h, 0) IN
                       {"C04", "C03"} \cup If(InSeq("ov", ks), "C12") \cup If(InSeq("deq", ks), "C15")
                       \cup If(e.opt, "C06")
    [] e.op = "take" -> {"C08"}
    [] e.op = "crop" -> {"C09", "C08"}
    [] e.op = "tfrom" -> {"C10"}
    [] e.op = "intro" -> {"C23"}
    [] e.op = "eval" -> {"C04"}
    [] OTHER -> {OpProp(e.op)}

Degenerate(e) == CASE e.op = "leaf" -> FALSE
                   \* an automatic canvas may have come out one larger
                   [] e.op = "cat" -> \E i \in 1..Len(e.hs) : pool[e.hs[i]].w /= pool[e.hs[1]].w \/ pool[e.hs[i]].h /= pool[e.hs[1]].h
                   [] e.op = "tfrom" -> pool[e.a].deg \/ pool[e.b].deg \/ ~SharesBand(e)
                   [] OTHER -> pool[e.h].deg

\* asking for an error when a channel is missing must give one
WantError(e) == e.op = "take" /\ e.by = "name" /\ e.pol = "error"
                /\ \E i \in 1..Len(e.names) : IndexOf(pool[e.h].nm, e.names[i]) < 0

\* what is said about a file beforehand must not matter
KnownBefore == \E i \in 1..l : Ev[i].e.op = "leaf" /\ Ev[i].e.know /= "prep"

Clauses(e, o) ==
  IF WantError(e) THEN If(o.err = "", "C08 missing-channel-error-not-raised")
  ELSE IF o.err /= "" THEN
       IF Degenerate(e) THEN {} ELSE {t \o " raised" : t \in ErrTags(e)} \cup If(KnownBefore, "C27 raised")
  ELSE If(~o.tw, IF e.op = "fin" THEN "C27 pixels-depend-on-what-was-known" ELSE "C27 view-depends-on-what-was-known")
  \cup CASE e.op = "fin" -> FinClauses(e, o) \cup FrameClauses(o)
         [] e.op = "tfrom" -> TfromClauses(e, o) \cup FrameClauses(o)
         [] e.op = "setp" -> SetClauses(e, o)
         [] e.op = "intro" -> IntroClauses(e, o) \cup FrameClauses(o) \cup If(FrameClauses(o) /= {}, "C23 introspection-changed-a-view")
         [] OTHER -> LET N == NewView(pool, e, nuid) IN
              ViewClauses(e, N, o) \cup FrameClauses(o)
              \cup (IF e.op = "opt" THEN OptClauses(e, N, o) ELSE {})

Step ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l].e   o == Ev[l].o
         cs == Clauses(e, o)
     IN /\ \A c \in cs : PrintT(<<"CLAUSE", Traces[tid].id, l, c, e.op>>)
        /\ IF e.op \in Views
           THEN LET N0 == NewView(pool, e, nuid)
                    \* an automatic canvas follows the observed one where either is allowed
                    N2 == IF o.err = "" /\ Learned(e, N0, o)
                          THEN [N0 EXCEPT !.named = TRUE, !.nm = o.nm] ELSE N0
                    N1 == IF e.op \in {"warp", "undo"} /\ o.err = "" /\ SizeOk(e, N0, SrcOf(e, N0), o)
                          THEN [N0 EXCEPT !.w = o.w, !.h = o.h] ELSE N2
                    N4 == IF o.err = "" /\ EmptyCrop(e, o) THEN [N1 EXCEPT !.hastf = FALSE] ELSE N1
                    N == IF e.op = "opt" \/ o.err /= "" THEN [N4 EXCEPT !.obj = 1] ELSE N4
                IN /\ pool' = Append(pool, N)
                   /\ dig' = IF o.err /= "" THEN Append(dig, "-") ELSE
                             Append(dig, o.fr[Len(o.fr)])
                   /\ nuid' = IF e.op = "leaf" /\ N.k = "leaf" THEN nuid + e.nb ELSE nuid
                   /\ fins' = fins
           ELSE IF e.op = "setp" /\ o.err = ""
           THEN /\ pool' = SetParams(pool, e) /\ dig' = o.fr /\ nuid' = nuid /\ fins' = {}
           ELSE /\ pool' = pool /\ dig' = dig /\ nuid' = nuid
                /\ fins' = IF e.op = "fin" /\ o.err = "" THEN fins \cup {<<e.h, e.opt, o.dig>>} ELSE fins
        /\ l' = l + 1 /\ tid' = tid
        /\ l < Len(Ev) \/ PrintT(<<"DONE", Traces[tid].id, Len(Ev)>>)

Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
