------------------------------ MODULE Delayed ------------------------------
(* The state machine of a client of delayed_image: a growing pool of         *)
(* immutable views.  A view is an operation over earlier views (a DAG).  The *)
(* state never changes an existing element - that is the central guarantee - *)
(* so every action appends one view (or only observes).                     *)
(*                                                                          *)
(* What a view denotes is defined here, independently of how the library     *)
(* computes it:  Look(pool, n, b, ...) walks from an output pixel to the     *)
(* source location it must show, together with how certain that pixel is to *)
(* be valid (inside every canvas it passes through, with a margin for the   *)
(* resampling support) or invalid (outside the source, with a margin).      *)
EXTENDS Aff, TLC, FiniteSets

None == 9999                     \* an omitted slice bound

(* ------------------------------------------------------------------ names *)
\* first position (0-based) of a name in a list, or -1
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, x, i) == IF i > Len(s) THEN -1 ELSE IF s[i] = x THEN i - 1 ELSE IndexFrom(s, x, i + 1)
IndexOf(s, x) == IndexFrom(s, x, 1)

Iota(n) == [i \in 1..n |-> i - 1]
Pick(s, idx) == [i \in 1..Len(idx) |-> s[idx[i] + 1]]

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* ---------------------------------------------------------- numpy slicing *)
Lo(s, n) == IF s = None THEN 0 ELSE IF s < 0 THEN Max2(0, s + n) ELSE Min2(s, n)
Hi(s, n) == IF s = None THEN n ELSE IF s < 0 THEN Max2(0, s + n) ELSE Min2(s, n)
Ext(lo, hi) == Max2(0, hi - lo)

(* ------------------------------------------------------------------ views *)
DefaultParams == [interp |-> "linear", aa |-> TRUE, border |-> "auto", eps |-> 0, backend |-> "auto"]

Base == [k |-> "leaf", w |-> 0, h |-> 0, nb |-> 0, named |-> FALSE, nm |-> <<>>,
         sub |-> <<>>, x0 |-> 0, y0 |-> 0, idx |-> <<>>, T |-> Id, I |-> Id, lvl |-> 0,
         p |-> DefaultParams, dt |-> "f", deq |-> FALSE, uid |-> 0, enc |-> 1, ty |-> "f32",
         nov |-> -1, tf |-> Id, hastf |-> TRUE, xr |-> FALSE, depth |-> 0, deg |-> FALSE,
         obj |-> 0, nanb |-> FALSE,
         rnd |-> FALSE]               \* geometry went through a numerical decomposition

\* names as a sequence of strings; named=FALSE when the channels are unknown
LeafView(e, uid) ==
  [Base EXCEPT !.w = e.w, !.h = e.h, !.nb = e.nb, !.named = e.named, !.nm = e.names,
               !.ty = e.ty, !.uid = uid, !.nov = e.ov,
               !.k = IF e.ty \in {"nans", "nodata"} THEN "nans" ELSE "leaf",
               !.dt = IF e.ty \in {"u16", "u16file", "i16"} THEN "i" ELSE "f",
               !.enc = IF e.ty \in {"u16", "u16file", "i16"} THEN 16 ELSE 1]

\* inherits everything a unary operation keeps
Over(S, n) == [S EXCEPT !.sub = <<n>>, !.x0 = 0, !.y0 = 0, !.idx = Iota(S.nb), !.T = Id, !.I = Id,
                        !.lvl = 0, !.p = DefaultParams, !.depth = S.depth + 1, !.obj = 0]

CropView(S, n, y0, y1, x0, x1, idx) ==
  LET a == Lo(y0, S.h)   b == Hi(y1, S.h)
      c == Lo(x0, S.w)   d == Hi(x1, S.w)
      N == Over(S, n)
  IN [N EXCEPT !.k = "crop", !.w = Ext(c, d), !.h = Ext(a, b), !.x0 = c, !.y0 = a,
               !.idx = idx, !.nb = Len(idx),
               !.nm = IF S.named THEN Pick(S.nm, idx) ELSE <<>>,
               !.tf = IF S.hastf THEN Mul(Translate(-c, -a), S.tf) ELSE Id,
               !.deg = S.deg \/ Ext(c, d) = 0 \/ Ext(a, b) = 0]

\* clip=False, wrap=False: bounds are coordinates, open ones the borders of the
\* image; pad: what is added above, below, left and right
OpenLo(v) == IF v = None THEN 0 ELSE v
OpenHi(v, m) == IF v = None THEN m ELSE v
PadCropView(S, n, y0, y1, x0, x1, pad, idx) ==
  LET N == Over(S, n)  c == OpenLo(x0) - pad[3]  a == OpenLo(y0) - pad[1] IN
  [N EXCEPT !.k = "pcrop", !.x0 = c, !.y0 = a,
            !.w = OpenHi(x1, S.w) + pad[4] - c, !.h = OpenHi(y1, S.h) + pad[2] - a,
            !.idx = idx, !.nb = Len(idx), !.nm = IF S.named THEN Pick(S.nm, idx) ELSE <<>>,
            !.tf = IF S.hastf THEN Mul(Translate(-c, -a), S.tf) ELSE Id]

WarpView(S, n, M, w, h, p) ==
  LET N == Over(S, n) IN
  [N EXCEPT !.k = "warp", !.w = w, !.h = h, !.T = Norm(M), !.I = Inv(M), !.p = p,
            !.tf = IF S.hastf THEN Mul(M, S.tf) ELSE Id,
            !.deg = S.deg \/ w <= 0 \/ h <= 0]

OvView(S, n, k) ==
  LET N == Over(S, n) IN
  [N EXCEPT !.k = "ov", !.lvl = k, !.w = CeilDiv(S.w, Pow2(k)), !.h = CeilDiv(S.h, Pow2(k)),
            !.T = <<1, 0, 0, 0, 1, 0, Pow2(k)>>, !.I = <<Pow2(k), 0, 0, 0, Pow2(k), 0, 1>>,
            !.tf = IF S.hastf THEN Mul(<<1, 0, 0, 0, 1, 0, Pow2(k)>>, S.tf) ELSE Id]

DeqView(S, n) == [Over(S, n) EXCEPT !.k = "deq", !.deq = TRUE, !.dt = "f"]

XrView(S, n) == [Over(S, n) EXCEPT !.k = "same", !.xr = TRUE]
SameView(S, n) == [Over(S, n) EXCEPT !.k = "same"]
EvalView(S, n) == [Over(S, n) EXCEPT !.k = "eval", !.tf = Id, !.hastf = TRUE, !.nov = -1]

\* parts: handles, all of the same canvas
CatView(pool, hs) ==
  LET A == pool[hs[1]]
      allnamed == \A i \in 1..Len(hs) : pool[hs[i]].named
      nb == SumSeq([i \in 1..Len(hs) |-> pool[hs[i]].nb])
  IN [Base EXCEPT !.k = "cat", !.w = A.w, !.h = A.h, !.nb = nb, !.named = allnamed,
                  !.nm = IF allnamed THEN Flat([i \in 1..Len(hs) |-> pool[hs[i]].nm]) ELSE <<>>,
                  !.sub = hs, !.hastf = FALSE, !.idx = Iota(nb),
                  !.dt = IF \E i \in 1..Len(hs) : pool[hs[i]].dt = "f" THEN "f" ELSE "i",
                  !.depth = 1 + CHOOSE d \in {pool[hs[i]].depth : i \in 1..Len(hs)} :
                                   \A i \in 1..Len(hs) : pool[hs[i]].depth <= d,
                  !.deq = \E i \in 1..Len(hs) : pool[hs[i]].deq,
                  !.rnd = \E i \in 1..Len(hs) : pool[hs[i]].rnd,
                  !.deg = \E i \in 1..Len(hs) : pool[hs[i]].deg]

\* selecting by name: missing names become nan bands carrying that name (index -1)
NameIdx(S, names) == [i \in 1..Len(names) |-> IndexOf(S.nm, names[i])]
TakeView(S, n, idx, nm, named) ==
  LET N == Over(S, n)  miss == \E i \in 1..Len(idx) : idx[i] < 0 IN
  [N EXCEPT !.k = "take", !.idx = idx, !.nb = Len(idx), !.named = named, !.nm = nm,
            !.hastf = (S.hastf /\ ~miss), !.dt = IF miss THEN "f" ELSE S.dt, !.nanb = (S.nanb \/ miss)]

(* -------------------------------------------------- leafs under a band *)
\* <<leaf handle, transform from that leaf, source band>>; leaf 0 for "no source"
RECURSIVE BandPath(_, _, _)
BandPath(pool, n, b) ==
  LET N == pool[n] IN
  CASE N.k \in {"leaf", "eval"} -> <<n, Id, b>>
    [] N.k = "nans" -> <<0, Id, 0>>
    [] N.k = "cat" ->
         LET RECURSIVE F(_, _)
             F(i, r) == IF r < pool[N.sub[i]].nb THEN BandPath(pool, N.sub[i], r)
                        ELSE F(i + 1, r - pool[N.sub[i]].nb)
         IN F(1, b)
    [] N.k \in {"take", "crop"} /\ N.idx[b + 1] < 0 -> <<0, Id, 0>>
    [] OTHER ->
         LET r == BandPath(pool, N.sub[1], N.idx[b + 1])
             S == IF N.k = "crop" \/ N.k = "pcrop" THEN Translate(-N.x0, -N.y0) ELSE N.T
         IN IF r[1] = 0 THEN r ELSE <<r[1], Mul(S, r[2]), r[3]>>

\* the name of a band where it is known, else "?"
RECURSIVE BandName(_, _, _)
BandName(pool, n, b) ==
  LET N == pool[n] IN
  CASE N.named -> N.nm[b + 1]
    [] N.k \in {"leaf", "eval", "nans"} -> "?"
    [] N.k = "cat" ->
         LET RECURSIVE F(_, _)
             F(i, r) == IF r < pool[N.sub[i]].nb THEN BandName(pool, N.sub[i], r)
                        ELSE F(i + 1, r - pool[N.sub[i]].nb)
         IN F(1, b)
    [] OTHER -> BandName(pool, N.sub[1], N.idx[b + 1])
\* a selection that leaves out the unnamed bands may know all of its names
LearnNames(pool, n, nm) == Len(nm) = pool[n].nb /\ \A b \in 0..(pool[n].nb - 1) : BandName(pool, n, b) = nm[b + 1]

\* every <<leaf, transform>> reachable (also through unselected bands)
RECURSIVE LeafTfs(_, _)
LeafTfs(pool, n) ==
  LET N == pool[n] IN
  CASE N.k \in {"leaf", "eval", "nans"} -> {<<n, Id>>}
    [] N.k = "cat" -> UNION {LeafTfs(pool, N.sub[i]) : i \in 1..Len(N.sub)}
    [] OTHER -> LET S == IF N.k = "crop" \/ N.k = "pcrop" THEN Translate(-N.x0, -N.y0) ELSE N.T
                IN {<<r[1], Mul(S, r[2])>> : r \in LeafTfs(pool, N.sub[1])}

\* the warps requested on the way to a band, outermost first
RECURSIVE WarpsOn(_, _, _)
WarpsOn(pool, n, b) ==
  LET N == pool[n] IN
  CASE N.k \in {"leaf", "eval", "nans"} -> <<>>
    [] N.k = "cat" ->
         LET RECURSIVE F(_, _)
             F(i, r) == IF r < pool[N.sub[i]].nb THEN WarpsOn(pool, N.sub[i], r)
                        ELSE F(i + 1, r - pool[N.sub[i]].nb)
         IN F(1, b)
    [] N.k \in {"take", "crop"} /\ N.idx[b + 1] < 0 -> <<>>
    [] N.k = "warp" -> <<[p |-> N.p, T |-> N.T]>> \o WarpsOn(pool, N.sub[1], N.idx[b + 1])
    [] N.k = "pcrop" -> <<[p |-> N.p, T |-> Id]>> \o WarpsOn(pool, N.sub[1], N.idx[b + 1])
    [] OTHER -> WarpsOn(pool, N.sub[1], N.idx[b + 1])

\* the kinds of operations on the way to a band, outermost first
RECURSIVE KindsOn(_, _, _)
KindsOn(pool, n, b) ==
  LET N == pool[n] IN
  CASE N.k \in {"leaf", "eval", "nans"} -> <<N.k>>
    [] N.k = "cat" ->
         LET RECURSIVE F(_, _)
             F(i, r) == IF r < pool[N.sub[i]].nb THEN KindsOn(pool, N.sub[i], r)
                        ELSE F(i + 1, r - pool[N.sub[i]].nb)
         IN F(1, b)
    [] N.k \in {"take", "crop"} /\ N.idx[b + 1] < 0 -> <<"nans">>
    [] OTHER -> <<N.k>> \o KindsOn(pool, N.sub[1], N.idx[b + 1])
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x

\* does the view contain a concatenation (or a nan band standing for one)
RECURSIVE HasCat(_, _)
HasCat(pool, n) ==
  LET N == pool[n] IN
  CASE N.k \in {"leaf", "nans", "eval"} -> FALSE
    [] N.k = "cat" -> TRUE
    [] OTHER -> (N.k \in {"take", "crop"} /\ \E i \in 1..Len(N.idx) : N.idx[i] < 0) \/ HasCat(pool, N.sub[1])

(* ------------------------------------------------------ pixel semantics *)
\* An accumulator travels from the output pixel to the source.
Acc0 == [inn |-> TRUE, clip |-> FALSE, sx |-> 0, sy |-> 0, tx |-> 16, ty |-> 16,
         fringe |-> FALSE, fills |-> {}, deq |-> FALSE, sim |-> 1,
         aa |-> FALSE, near |-> FALSE,                \* a fused warp antialiases if any part asks for it
         mx |-> U, my |-> U]                          \* one output pixel in pixels here

Check(S, X, Y, acc) ==
  [acc EXCEPT !.inn = acc.inn /\ X >= acc.sx /\ X <= S.w * U - acc.sx
                              /\ Y >= acc.sy /\ Y <= S.h * U - acc.sy,
              !.clip = acc.clip \/ X < -acc.sx \/ X > S.w * U + acc.sx
                                \/ Y < -acc.sy \/ Y > S.h * U + acc.sy]

Fill(dt, border) == IF border /= "auto" THEN border ELSE IF dt = "f" THEN "nan" ELSE "zero"

\* a chain of overviews directly over a file that stores them is read, not simulated
RECURSIVE StoredOv(_, _, _)
StoredOv(pool, n, k) ==
  LET N == pool[n] IN
  CASE N.k = "ov" -> StoredOv(pool, N.sub[1], k + N.lvl)
    [] N.k = "leaf" -> N.nov >= k
    [] OTHER -> FALSE

\* nearest sampling starts from the corner of a pixel: half a pixel; a shrinkage
\* by two may be answered from an overview: another half
NearBias(u) == IF u >= 2 * U - 8 THEN u ELSE u \div 2 + 4
WarpAcc(S, N, acc) ==
  LET ux == SpX(N.I, U, U)   uy == SpY(N.I, U, U)        \* one output pixel in input pixels
      \* a nearest warp above makes the fused warp a nearest one
      nst == N.p.interp = "nearest"
      near == nst \/ acc.near
      \* a nearest warp may be fused with coarser ones above and read an overview
      mx == SpX(N.I, acc.mx, acc.my)   my == SpY(N.I, acc.mx, acc.my)
      exactx == near /\ mx <= U + 4 /\ AxisPos(N.T) /\ N.T[1] % N.T[7] = 0 /\ N.T[3] % N.T[7] = 0
      exacty == near /\ my <= U + 4 /\ AxisPos(N.T) /\ N.T[5] % N.T[7] = 0 /\ N.T[6] % N.T[7] = 0
      \* (round-off in the decomposition of a skewed map may make a scale of one a little smaller)
      skew == ~(N.T[2] = 0 /\ N.T[4] = 0) /\ ~(N.T[1] = 0 /\ N.T[5] = 0)
      slack == IF skew THEN -4 ELSE 4
      down == ux > U + slack \/ uy > U + slack
      blur == (N.p.aa \/ acc.aa) /\ ~nst /\ down
      kern == IF N.p.interp \in {"cubic", "lanczos"} THEN 4 ELSE 1
      \* a blur next to a crop that was moved below it misses a tail
      b == IF blur THEN 5 ELSE kern
      ownx == IF near THEN (IF exactx THEN U \div 2 + 16 ELSE U \div 2 + NearBias(Max2(mx, ux)) + 16) ELSE 10 + (IF blur THEN ux \div 12 ELSE 0)
      owny == IF near THEN (IF exacty THEN U \div 2 + 16 ELSE U \div 2 + NearBias(Max2(my, uy)) + 16) ELSE 10 + (IF blur THEN uy \div 12 ELSE 0)
  IN [acc EXCEPT !.sx = SpX(N.I, acc.sx, acc.sy) + b * Max2(U, ux) + 8,
                 !.sy = SpY(N.I, acc.sx, acc.sy) + b * Max2(U, uy) + 8,
                 !.tx = SpX(N.I, acc.tx, acc.ty) + acc.sim * ownx + 4,
                 !.ty = SpY(N.I, acc.tx, acc.ty) + acc.sim * owny + 4,
                 !.fringe = acc.fringe \/ blur \/ kern > 1 \/ S.dt = "i" \/ N.p.border /= "auto",
                 !.aa = acc.aa \/ (N.p.aa /\ ~nst), !.near = near, !.mx = mx, !.my = my,
                 !.fills = acc.fills \cup {Fill(S.dt, N.p.border)}]

RECURSIVE Look(_, _, _, _, _, _)
Look(pool, n, b, X, Y, acc) ==
  LET N == pool[n] IN
  CASE N.k = "leaf" ->
         \* a simulated overview may be moved below any warp: it then takes the
         \* first pixel of a block of source pixels
         LET t == IF acc.sim > 1 THEN (acc.sim * U) \div 2 + U ELSE 0
             z == IF acc.sim > 1 THEN acc.sim * U ELSE 0       \* its last block may be partial
             \* integers that are concatenated with floats are filled before or after conversion
             int == N.dt = "i" /\ ~acc.deq
         IN
         [acc |-> [acc EXCEPT !.tx = acc.tx + t, !.ty = acc.ty + t, !.fringe = acc.fringe \/ int,
                              !.fills = IF int THEN acc.fills \cup {"zero"} ELSE acc.fills],
          src |-> N.uid + b, x |-> X, y |-> Y, enc |-> N.enc,
          out |-> \/ X < -acc.sx - z \/ X > N.w * U + acc.sx + z
                  \/ Y < -acc.sy - z \/ Y > N.h * U + acc.sy + z]
    [] N.k = "nans" -> [acc |-> acc, src |-> -1, x |-> 0, y |-> 0, enc |-> 1, out |-> TRUE]
    [] N.k = "cat" ->
         LET RECURSIVE F(_, _)
             F(i, r) == IF r < pool[N.sub[i]].nb THEN Look(pool, N.sub[i], r, X, Y, acc)
                        ELSE F(i + 1, r - pool[N.sub[i]].nb)
         IN F(1, b)
    [] N.k \in {"take", "crop"} /\ N.idx[b + 1] < 0 ->
         [acc |-> acc, src |-> -1, x |-> 0, y |-> 0, enc |-> 1, out |-> TRUE]
    [] OTHER ->
         LET m == N.sub[1]   S == pool[m]   c == N.idx[b + 1] IN
         CASE N.k \in {"same", "eval", "take"} -> Look(pool, m, c, X, Y, acc)
           [] N.k = "deq" -> Look(pool, m, c, X, Y, [acc EXCEPT !.deq = TRUE])
           [] N.k = "crop" ->
                LET X1 == X + N.x0 * U   Y1 == Y + N.y0 * U
                IN Look(pool, m, c, X1, Y1, Check(S, X1, Y1, acc))
           [] N.k = "pcrop" ->
                LET X1 == X + N.x0 * U   Y1 == Y + N.y0 * U
                    acc1 == [acc EXCEPT !.fringe = acc.fringe \/ S.dt = "i" \/ N.p.border /= "auto", !.aa = TRUE,
                                        !.near = acc.near \/ N.p.interp = "nearest",
                                        !.fills = acc.fills \cup {Fill(S.dt, N.p.border)}]
                IN Look(pool, m, c, X1, Y1, Check(S, X1, Y1, acc1))
           [] N.k = "warp" ->
                LET X1 == ApX(N.I, X, Y)   Y1 == ApY(N.I, X, Y)
                IN Look(pool, m, c, X1, Y1, Check(S, X1, Y1, WarpAcc(S, N, acc)))
           [] OTHER ->                                              \* ov
                LET q == Pow2(N.lvl)   X1 == X * q   Y1 == Y * q
                    st == StoredOv(pool, n, 0)
                    t == IF st \/ N.lvl = 0 THEN 0 ELSE (q * U) \div 2 + U \div 2
                    acc1 == [acc EXCEPT !.sx = acc.sx * q + q * U, !.sy = acc.sy * q + q * U,
                                        !.tx = acc.tx * q + t, !.ty = acc.ty * q + t,
                                        \* an antialiased warp above may be rebalanced over the level
                                        !.fringe = acc.fringe \/ S.dt = "i" \/ acc.aa,
                                        !.mx = acc.mx * q, !.my = acc.my * q,
                                        \* (a simulated level over a stored one takes whole blocks of it)
                                        !.sim = IF st /\ acc.sim = 1 THEN 1 ELSE acc.sim * q]
                IN Look(pool, m, c, X1, Y1, Check(S, X1, Y1, acc1))

LookPx(pool, n, b, px, py) == Look(pool, n, b, px * U + U \div 2, py * U + U \div 2, Acc0)

(* -------------------------------------- parameters given at evaluation time *)
\* evaluating with resampling parameters sets them, in place, in every warp of
\* the view; the views that share those warps change with it
RECURSIVE Reach(_, _)
Reach(pool, n) == LET N == pool[n] IN
  {n} \cup (IF N.k \in {"leaf", "nans", "eval"} THEN {} ELSE UNION {Reach(pool, N.sub[i]) : i \in 1..Len(N.sub)})
WarpsIn(pool, n) == {i \in Reach(pool, n) : pool[i].k \in {"warp", "pcrop"}}
Reset(p, e) == [p EXCEPT !.interp = IF e.interp = "keep" THEN @ ELSE e.interp,
                         !.aa = IF e.aa = "keep" THEN @ ELSE e.aa = "yes",
                         !.border = IF e.border = "keep" THEN @ ELSE e.border]
SetParams(pool, e) == LET ws == WarpsIn(pool, e.h) IN
  [i \in 1..Len(pool) |-> IF i \in ws THEN [pool[i] EXCEPT !.p = Reset(@, e)] ELSE pool[i]]

(* ------------------------------------------------------------ operations *)
\* Operation records (see DelayedGen for how they are chosen):
\*  leaf  [op, w, h, nb, named, names, ty, ov]
\*  crop  [op, h, y0, y1, x0, x1, idx, hasidx, lz]         pcrop [op, h, y0, y1, x0, x1, pad, idx, hasidx]
\*  warp  [op, h, M, auto, w1, h1, interp, aa, border, eps, backend, lz, via]
\*  ov    [op, h, lvl]   deq [op, h]   xr [op, h]   opt [op, h]   eval [op, h]
\*  take  [op, h, by, names, idx, pol, lz]   cat [op, hs]
\*  undo  [op, h, keep, squash, api, part]   fin [op, h, opt]   tfrom [op, a, b]
\*  setp  [op, h, interp, aa, border, opt]
Views == {"leaf", "crop", "pcrop", "warp", "ov", "deq", "take", "cat", "xr", "opt", "eval", "undo"}

(* The inverse geometry of a view, decomposed as rotation * shear * scale and  *)
(* offset, with the kept components left out.  With J the inverse, r the norm  *)
(* of its first column (an integer for whatever is generated) and D its        *)
(* determinant: cos = a/r, sin = d/r, sx = r/q, sy = D/(q r), shear = P/D.     *)
SqRoots(k) == {i \in 1..60 : i * i = k}
CanKeep(J) == /\ \A i \in {1, 2, 4, 5} : Abs(J[i]) <= 40
              /\ J[7] <= 64 /\ SqRoots(J[1] * J[1] + J[4] * J[4]) /= {}
Frac(x, y) == LET g == GcdAbs(x, y) s == IF y < 0 THEN -1 ELSE 1
              IN IF x = 0 THEN <<0, 1>> ELSE <<s * (IF x < 0 THEN -((-x) \div g) ELSE x \div g), Abs(y) \div g>>
Lcm(x, y) == x * (y \div Gcd(x, y))
UndoMap(N, keep) ==
  LET J == Inv(N.tf) IN
  IF keep = <<>> \/ ~CanKeep(J) THEN J
  ELSE LET K(x) == InSeq(x, keep)
           r == CHOOSE i \in SqRoots(J[1] * J[1] + J[4] * J[4]) : TRUE
           D == Det(J)
           P0 == J[2] * J[1] + J[5] * J[4]
           c == IF K("theta") THEN r ELSE J[1]
           s == IF K("theta") THEN 0 ELSE J[4]
           P == IF K("shearx") THEN 0 ELSE P0
           \* first column: scale x times (cos, sin)
           A == IF K("scale") THEN Frac(c, r) ELSE Frac(c, J[7])
           B == IF K("scale") THEN Frac(s, r) ELSE Frac(s, J[7])
           \* second column: scale y times (m cos - sin, m sin + cos)
           n1 == Frac(P * c - s * D, IF K("scale") THEN r * D ELSE J[7] * r * r)
           n2 == Frac(P * s + c * D, IF K("scale") THEN r * D ELSE J[7] * r * r)
           ox == IF K("offset") THEN <<0, 1>> ELSE Frac(J[3], J[7])
           oy == IF K("offset") THEN <<0, 1>> ELSE Frac(J[6], J[7])
           q == Lcm(Lcm(Lcm(A[2], B[2]), Lcm(n1[2], n2[2])), Lcm(ox[2], oy[2]))
           E(f) == f[1] * (q \div f[2])
       IN Norm(<<E(A), E(n1), E(ox), E(B), E(n2), E(oy), q>>)

\* concatenations undo the warps of every part; part 0 is the view itself
UndoOf(pool, e) == IF e.part = 0 THEN e.h ELSE pool[e.h].sub[e.part]
\* no band of the view has a source
AllNan(pool, h) == \A b \in 0..(pool[h].nb - 1) : BandPath(pool, h, b)[1] = 0
UndoView(pool, e) ==
  LET m == UndoOf(pool, e)  S == pool[m]  M == UndoMap(S, e.keep)
      V == [WarpView(S, m, M, AutoW(M, S.w, S.h), AutoH(M, S.w, S.h), DefaultParams) EXCEPT !.rnd = TRUE]
      \* views without a source are replaced by fresh ones: their transform is not stated
  IN IF ~AllNan(pool, m) THEN V
     ELSE IF e.squash THEN [V EXCEPT !.w = IF V.w <= 0 THEN 0 ELSE 1, !.h = IF V.h <= 0 THEN 0 ELSE 1, !.hastf = FALSE] ELSE [V EXCEPT !.hastf = FALSE]

\* the view an operation creates; w, h are used for automatic warp canvases
NewView(pool, e, uid) ==
  CASE e.op = "leaf" -> LeafView(e, uid)
    [] e.op = "crop" -> CropView(pool[e.h], e.h, e.y0, e.y1, e.x0, e.x1,
                                 IF e.hasidx THEN e.idx ELSE Iota(pool[e.h].nb))
    [] e.op = "pcrop" -> PadCropView(pool[e.h], e.h, e.y0, e.y1, e.x0, e.x1, e.pad,
                                     IF e.hasidx THEN e.idx ELSE Iota(pool[e.h].nb))
    [] e.op = "warp" ->
         LET S == pool[e.h]
             p == [interp |-> e.interp, aa |-> e.aa, border |-> e.border, eps |-> e.eps, backend |-> e.backend]
             \* given by its parameters (angle, scale, ...) a map is not exact
             rd(N) == [N EXCEPT !.rnd = @ \/ e.via = "params"]
         IN rd(WarpView(S, e.h, e.M, IF e.auto THEN AutoW(e.M, S.w, S.h) ELSE e.w1,
                                  IF e.auto THEN AutoH(e.M, S.w, S.h) ELSE e.h1, p))
    [] e.op = "ov" -> OvView(pool[e.h], e.h, e.lvl)
    [] e.op = "deq" -> DeqView(pool[e.h], e.h)
    [] e.op = "take" ->
         LET S == pool[e.h] IN
         IF e.by = "name" THEN TakeView(S, e.h, NameIdx(S, e.names), e.names, TRUE)
         ELSE TakeView(S, e.h, e.idx, IF S.named THEN Pick(S.nm, e.idx) ELSE <<>>, S.named)
    [] e.op = "cat" -> CatView(pool, e.hs)
    [] e.op = "xr" -> XrView(pool[e.h], e.h)
    [] e.op = "opt" -> [SameView(pool[e.h], e.h) EXCEPT !.hastf = pool[e.h].hastf /\ ~AllNan(pool, e.h)]
    [] e.op = "eval" -> EvalView(pool[e.h], e.h)
    [] e.op = "undo" -> UndoView(pool, e)
=============================================================================
