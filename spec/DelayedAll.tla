----------------------------- MODULE DelayedAll -----------------------------
(* Every program of at most MAXOPS operations over a small alphabet of        *)
(* operation instances (relative to the view they are applied to), breadth    *)
(* first: the exhaustive counterpart of DelayedGen.  LEAF chooses the source, *)
(* FIRST the first operation (so that the work can be divided).               *)
EXTENDS Delayed, Json, IOUtils

MaxOps == atoi(IOEnv.MAXOPS)
Leaf == IOEnv.LEAF
First == IOEnv.FIRST

VARIABLES pool, hist, done
vars == <<pool, hist, done>>

LeafE(ty, w, h, nb, ov) ==
  [op |-> "leaf", w |-> w, h |-> h, nb |-> nb, named |-> TRUE, names |-> SubSeq(<<"a", "b", "c">>, 1, nb), ty |-> ty,
   form |-> "codes", know |-> "prep", ov |-> ov]
Source == CASE Leaf = "file" -> LeafE("u16file", 48, 40, 2, 3)
            [] Leaf = "mem"  -> LeafE("f32", 33, 32, 2, -1)
            [] OTHER         -> LeafE("u16", 32, 47, 2, -1)

Crop(h, y0, y1, x0, x1, idx) ==
  [op |-> "crop", h |-> h, y0 |-> y0, y1 |-> y1, x0 |-> x0, x1 |-> x1, hasidx |-> idx /= <<>>, idx |-> idx, raw |-> idx,
   item |-> FALSE, lz |-> FALSE]
Warp(h, M, auto, w1, h1, interp, aa) ==
  [op |-> "warp", h |-> h, M |-> M, auto |-> auto, w1 |-> w1, h1 |-> h1, interp |-> interp, aa |-> aa, border |-> "auto",
   eps |-> 0, backend |-> "auto", lz |-> FALSE, via |-> "warp"]
Take(h, idx) == [op |-> "take", h |-> h, by |-> "idx", names |-> <<>>, idx |-> idx, raw |-> idx, sl |-> <<>>, form |-> "codes",
                 pol |-> "return_nan", lz |-> FALSE]

\* the alphabet: names and instances for the view S with handle h
Ops == {"crop", "corner", "band", "flip", "half", "double", "quart", "near", "mirror", "shift", "rot", "fixed", "ov", "deq",
        "pad", "cat", "part", "undo", "opt"}
Inst(o, h) ==
  LET S == pool[h] IN
  CASE o = "crop"   -> Crop(h, S.h \div 8, S.h - 2, 3, None, <<>>)
    [] o = "corner" -> Crop(h, 0, (S.h * 5) \div 8, None, (S.w * 5) \div 8, <<>>)
    [] o = "band"   -> Crop(h, 1, None, None, None, <<S.nb - 1>>)
    [] o = "flip"   -> Take(h, [i \in 1..S.nb |-> S.nb - i])
    [] o = "half"   -> Warp(h, <<1, 0, 0, 0, 1, 0, 2>>, TRUE, 0, 0, "linear", FALSE)
    [] o = "double" -> Warp(h, <<8, 0, 3, 0, 8, -5, 4>>, TRUE, 0, 0, "linear", FALSE)
    [] o = "quart"  -> Warp(h, <<3, 0, 8, 0, 3, 8, 8>>, TRUE, 0, 0, "linear", TRUE)
    [] o = "near"   -> Warp(h, <<3, 0, 0, 0, 3, 0, 2>>, TRUE, 0, 0, "nearest", FALSE)
    [] o = "mirror" -> Warp(h, <<-1, 0, S.w, 0, 1, 0, 1>>, TRUE, 0, 0, "linear", FALSE)
    [] o = "shift"  -> Warp(h, <<1, 0, 4, 0, 1, -3, 1>>, FALSE, S.w, S.h, "linear", FALSE)
    [] o = "rot"    -> Warp(h, <<0, -1, S.h, 1, 0, 0, 1>>, TRUE, 0, 0, "linear", FALSE)
    [] o = "fixed"  -> Warp(h, <<1, 0, 0, 0, 1, 0, 1>>, FALSE, S.w + 3, S.h - 2, "nearest", FALSE)
    [] o = "ov"     -> [op |-> "ov", h |-> h, lvl |-> 1]
    [] o = "deq"    -> [op |-> "deq", h |-> h]
    [] o = "pad"    -> [op |-> "pcrop", h |-> h, y0 |-> -2, y1 |-> S.h + 1, x0 |-> 4, x1 |-> S.w + 3, pad |-> <<0, 0, 0, 0>>, hasidx |-> FALSE, idx |-> <<>>, raw |-> <<>>]
    [] o = "cat"    -> [op |-> "cat", hs |-> <<h, h>>]
    [] o = "part"   -> Take(h, <<S.nb - 1, 0>>)
    [] o = "undo"   -> [op |-> "undo", h |-> h, keep |-> <<>>, squash |-> FALSE, api |-> "remove", part |-> 0]
    [] OTHER        -> [op |-> "opt", h |-> h]

Allowed(o, S) ==
  CASE o = "deq" -> S.dt = "i" /\ ~S.deq
    [] o = "undo" -> S.hastf /\ S.k /= "cat"
    [] o = "cat" -> S.nb <= 3
    [] o = "ov" -> S.w >= 6 /\ S.h >= 6
    [] o \in {"corner", "crop", "pad", "quart"} -> S.w >= 12 /\ S.h >= 12
    [] OTHER -> TRUE

BandsSmall(p, m) == \A b \in 0..(p[m].nb - 1) : LET r == BandPath(p, m, b) IN Small(r[2]) /\ Small(Inv(r[2]))
Visible(N, S) ==
  LET X0 == ApX(N.I, U, U)  Y0 == ApY(N.I, U, U)
      X1 == ApX(N.I, (N.w * U) \div 2, (N.h * U) \div 2)  Y1 == ApY(N.I, (N.w * U) \div 2, (N.h * U) \div 2)
  IN X1 > 0 /\ X1 < S.w * U /\ Y1 > 0 /\ Y1 < S.h * U
ViewOk(N) == N.w >= 3 /\ N.h >= 3 /\ N.w <= 120 /\ N.h <= 120 /\ (N.hastf => Small(N.tf) /\ Small(Inv(N.tf)))

Closing(L) == <<[op |-> "fin", h |-> L, opt |-> TRUE], [op |-> "opt", h |-> L], [op |-> "fin", h |-> L, opt |-> FALSE],
                [op |-> "fin", h |-> L + 1, opt |-> FALSE]>>

Init == hist = <<Source>> /\ pool = <<NewView(<<>>, Source, 0)>> /\ done = FALSE
Step ==
  /\ ~done /\ Len(pool) <= MaxOps /\ done' = FALSE
  /\ \E o \in (IF Len(pool) = 1 /\ First /= "any" THEN {First} ELSE Ops) :
       /\ Allowed(o, pool[Len(pool)])
       /\ LET e == Inst(o, Len(pool))  S == pool[Len(pool)]  N == NewView(pool, e, Source.nb) IN
          /\ ViewOk(N) /\ (e.op \in {"warp", "undo"} => Small(N.T) /\ Small(N.I) /\ Visible(N, S))
          /\ BandsSmall(Append(pool, N), Len(pool) + 1)
          /\ hist' = Append(hist, e) /\ pool' = Append(pool, N)
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<pool, hist>>
          /\ PrintT("PROGRAM " \o ToJson(hist \o Closing(Len(pool))))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
