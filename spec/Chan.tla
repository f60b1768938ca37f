-------------------------------- MODULE Chan --------------------------------
(* Channel and sensor-channel specs.                                         *)
(*                                                                           *)
(* A band is <<root, i>>: the channel named root (i = -1) or "root.i".       *)
(* A code is what is written between two pipes: a name, one indexed band, a  *)
(* range in one of its forms, or an alias of several names.  A fused spec is *)
(* a sequence of codes and denotes the sequence of their bands; a channel    *)
(* spec is a sequence of fused streams; a sensor-channel spec is a text      *)
(* denoting a sequence of <<sensor, stream>> pairs.                          *)
(* The pool is the history of specs built so far, by every operation.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ------------------------------------------------------------- sequences  *)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Range(s) == {s[i] : i \in 1..Len(s)}
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
RECURSIVE Join(_, _)
Join(ts, sep) == IF ts = <<>> THEN "" ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o Join(Tail(ts), sep)
RECURSIVE Dedupe(_)
Dedupe(s) == IF s = <<>> THEN <<>> ELSE
             LET d == Dedupe(SubSeq(s, 1, Len(s) - 1)) IN
             IF InSeq(s[Len(s)], d) THEN d ELSE Append(d, s[Len(s)])
DupFree(s) == Cardinality(Range(s)) = Len(s)
Without(s, S) == SelectSeq(s, LAMBDA x : x \notin S)
Only(s, S) == SelectSeq(s, LAMBDA x : x \in S)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]

(* ----------------------------------------------------------------- codes  *)
Alias(r) == CASE r = "rgb" -> <<"r", "g", "b">> [] r = "rgba" -> <<"r", "g", "b", "a">>
              [] r = "dxdy" -> <<"dx", "dy">> [] r = "fxfy" -> <<"fx", "fy">> [] OTHER -> <<>>
Aliases == {"rgb", "rgba", "dxdy", "fxfy"}

Code(k, r, f, a, b, s) == [k |-> k, r |-> r, f |-> f, a |-> a, b |-> b, s |-> s]
Plain(r) == Code("p", r, "", 0, 0, 0)
Item(r, i) == Code("i", r, "", i, 0, 0)

CodeText(c) ==
  LET a == ToString(c.a)  b == ToString(c.b)  s == ToString(c.s) IN
  CASE c.k = "p" -> c.r
    [] c.k = "i" -> c.r \o "." \o a
    [] c.f = "z" -> c.r \o ":" \o b
    [] c.f = "d" -> c.r \o "." \o a \o ":" \o b
    [] c.f = "c" -> c.r \o ":" \o a \o ":" \o b
    [] c.f = "ds" -> c.r \o "." \o a \o ":" \o b \o ":" \o s
    [] c.f = "cs" -> c.r \o ":" \o a \o ":" \o b \o ":" \o s
    [] c.f = "o" -> c.r \o ".:" \o b
    [] c.f = "oo" -> c.r \o "::" \o b
    [] c.f = "os" -> c.r \o ".:" \o b \o ":" \o s
    [] c.f = "oos" -> c.r \o "::" \o b \o ":" \o s

RangeLen(a, b, s) == IF s > 0 THEN Max2(0, (b - a + s - 1) \div s) ELSE Max2(0, (a - b - s - 1) \div (-s))
CodeBands(c) ==
  CASE c.k = "p" /\ c.r \in Aliases -> [i \in 1..Len(Alias(c.r)) |-> <<Alias(c.r)[i], -1>>]
    [] c.k = "p" -> <<<<c.r, -1>>>>
    [] c.k = "i" -> <<<<c.r, c.a>>>>
    [] OTHER -> [i \in 1..RangeLen(c.a, c.b, c.s) |-> <<c.r, c.a + (i - 1) * c.s>>]
BandCode(b) == IF b[2] = -1 THEN Plain(b[1]) ELSE Item(b[1], b[2])
BandText(b) == CodeText(BandCode(b))

(* ----------------------------------------------------------------- fused  *)
Bands(cs) == Flat(Map(cs, CodeBands))
Codes(bs) == Map(bs, BandCode)
Texts(cs) == Map(cs, CodeText)
BTexts(bs) == Map(bs, BandText)
FText(cs) == Join(Texts(cs), "|")
Norm(cs) == Codes(Bands(cs))
\* only ranges are expanded by the sensor-channel parser
Ranges(cs) == Flat(Map(cs, LAMBDA c : IF c.k = "r" THEN Codes(CodeBands(c)) ELSE <<c>>))

\* maximal runs of consecutive indices of one root become ranges
RunCode(r, a, b) == IF a + 1 = b THEN Item(r, a) ELSE IF a = 0 THEN Code("r", r, "z", 0, b, 1) ELSE Code("r", r, "d", a, b, 1)
RECURSIVE Runs(_)
Runs(bs) ==
  IF bs = <<>> THEN <<>> ELSE
  LET b == bs[1] IN
  IF b[2] = -1 THEN <<Plain(b[1])>> \o Runs(Tail(bs)) ELSE
  LET n == CHOOSE m \in 1..Len(bs) :
             /\ \A j \in 1..m : bs[j] = <<b[1], b[2] + j - 1>>
             /\ m = Len(bs) \/ bs[m + 1] /= <<b[1], b[2] + m>>
  IN <<RunCode(b[1], b[2], b[2] + n)>> \o Runs(SubSeq(bs, n + 1, Len(bs)))
Concise(cs) == Runs(Bands(cs))

\* Python slicing of a list: bounds, None = 9999, any step but 0
None == 9999
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
PySlice(s, a, b, st) ==
  LET n == Len(s)
      k == IF st = None THEN 1 ELSE st
      lo == IF k > 0 THEN 0 ELSE -1   hi == IF k > 0 THEN n ELSE n - 1
      A == IF a = None THEN (IF k > 0 THEN lo ELSE hi) ELSE Clamp(IF a < 0 THEN a + n ELSE a, lo, hi)
      B == IF b = None THEN (IF k > 0 THEN hi ELSE lo) ELSE Clamp(IF b < 0 THEN b + n ELSE b, lo, hi)
  IN [i \in 1..RangeLen(A, B, k) |-> s[A + (i - 1) * k + 1]]

\* for every written code, the bands it occupies: the last occurrence counts
CompIdx(cs) ==
  LET off == [i \in 1..Len(cs) |-> Len(Bands(SubSeq(cs, 1, i - 1)))] IN
  {<<CodeText(cs[i]), off[i], off[i] + Len(CodeBands(cs[i]))>> :
      i \in {i \in 1..Len(cs) : \A j \in (i + 1)..Len(cs) : CodeText(cs[j]) /= CodeText(cs[i])}}

(* ----------------------------------------------------------------- multi  *)
\* A channel spec keeps its streams as written; as a mapping it has one entry
\* per distinct text.
MText(st) == Join(Map(st, FText), ",")
DedupeBy(ss, T(_)) ==
   LET ts == Map(ss, T)
       first == SelectSeq([i \in 1..Len(ss) |-> i], LAMBDA i : \A j \in 1..(i - 1) : ts[j] /= ts[i])
   IN Map(first, LAMBDA i : ss[i])
Vals(st) == DedupeBy(st, FText)
MNorm(st) == DedupeBy(Map(Vals(st), Norm), FText)
MConcise(st) == DedupeBy(Map(Vals(st), Concise), FText)
NonEmpty(st) == SelectSeq(st, LAMBDA s : s /= <<>>)
MBands(st) == UNION {Range(Bands(st[i])) : i \in 1..Len(st)}
MNumel(st) == Sum(Map(Vals(st), LAMBDA s : Len(Bands(s))))
MCompIdx(st) ==
  LET vs == Vals(st) IN
  {<<x[1], FText(vs[i]), x[2], x[3]>> :
     <<i, x>> \in {<<i, x>> \in UNION {{i} \X CompIdx(vs[i]) : i \in 1..Len(vs)} :
        \A j \in (i + 1)..Len(vs) : \A y \in CompIdx(vs[j]) : y[1] /= x[1]}}

(* ---------------------------------------------------------------- sensor  *)
\* items as written: [ls |-> sensors (<<>>: none), lp |-> in parentheses,
\*                    rs |-> streams, rp |-> in parentheses]
ItemText(it) ==
  (IF it.ls = <<>> THEN "" ELSE IF it.lp THEN "(" \o Join(it.ls, ",") \o "):" ELSE it.ls[1] \o ":")
  \o (IF it.rp THEN "(" \o Join(Map(it.rs, FText), ",") \o ")" ELSE FText(it.rs[1]))
ItemPairs(it) ==
  LET ls == IF it.ls = <<>> THEN <<"*">> ELSE it.ls IN
  Flat([i \in 1..Len(ls) |-> [j \in 1..Len(it.rs) |-> <<ls[i], Ranges(it.rs[j])>>]])
SText(items) == Join(Map(items, ItemText), ",")
SPairs(items) == IF items = <<>> THEN <<<<"*", <<>>>>>> ELSE Flat(Map(items, ItemPairs))

PairText(p) == p[1] \o ":" \o FText(p[2])
PairsText(ps) == Join(Map(ps, PairText), ",")
\* what a pair denotes
PairDen(p) == <<p[1], BTexts(Bands(p[2]))>>
PairsDen(ps) == Map(ps, PairDen)
ReadPairs(o) == Map(o, LAMBDA q : <<q[1], q[2]>>)

(* ------------------------------------------------------------- the pool   *)
F(cs) == [t |-> "f", c |-> cs, st |-> <<>>, ps |-> <<>>, txt |-> ""]
M(st) == [t |-> "m", c |-> <<>>, st |-> st, ps |-> <<>>, txt |-> ""]
SV(ps, txt) == [t |-> "s", c |-> <<>>, st |-> <<>>, ps |-> ps, txt |-> txt]
Text(V) == CASE V.t = "f" -> FText(V.c) [] V.t = "m" -> MText(V.st) [] OTHER -> V.txt
IsFused(V) == V.t = "f"

\* streams of a view as a sequence of code sequences
StreamsOf(V) == IF V.t = "f" THEN <<V.c>> ELSE IF V.st = <<>> THEN <<<<>>>> ELSE V.st
AsM(V) == IF V.t = "m" THEN V.st ELSE IF V.c = <<>> THEN <<>> ELSE <<V.c>>
Ints(n) == [i \in 1..n |-> Plain("u" \o ToString(i - 1))]
LateText(a, b) == IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o "," \o b

\* e.how: how the operand is passed ("view", "str", "list", "set")
OpBands(e, p) == CASE e.how \in {"view", "op"} -> IF p[e.g].t = "f" THEN Bands(p[e.g].c) ELSE Flat(Map(p[e.g].st, Bands))
                   [] OTHER -> e.bs
OpSt(e, p) == IF e.how \in {"view", "op"} THEN AsM(p[e.g]) ELSE <<Codes(e.bs)>>

\* the spec an operation makes from the pool
New(p, e) ==
  LET V == p[e.h] IN
  CASE e.op = "f" -> F(e.cs)
    [] e.op = "fint" -> F(Ints(e.n))
    [] e.op = "m" -> M(e.st)
    [] e.op = "mint" -> M(IF e.n = 0 THEN <<>> ELSE <<Ints(e.n)>>)
    [] e.op = "s" -> SV(SPairs(e.items), SText(e.items))
    [] e.op = "norm" -> (CASE V.t = "f" -> F(Norm(V.c)) [] V.t = "m" -> M(MNorm(V.st)) [] OTHER -> SV(V.ps, PairsText(V.ps)))
    [] e.op = "concise" -> (CASE V.t = "f" -> F(Concise(V.c)) [] V.t = "m" -> M(MConcise(V.st))
                              [] OTHER -> SV(Dedupe([i \in 1..Len(V.ps) |-> <<V.ps[i][1], Norm(V.ps[i][2])>>]), ""))   \* see Adopt
    [] e.op = "union" -> IF V.t = "f" THEN F(Codes(Dedupe(Bands(V.c) \o OpBands(e, p))))
                         ELSE M(MNorm(V.st) \o MNorm(OpSt(e, p)))
    [] e.op = "inter" -> IF V.t = "f" THEN F(Codes(Only(Bands(V.c), Range(OpBands(e, p)))))
                         ELSE M(NonEmpty(Map(MNorm(V.st), LAMBDA s : Codes(Only(Bands(s), Range(OpBands(e, p)))))))
    [] e.op = "diff" -> IF V.t = "f" THEN F(Codes(Dedupe(Without(Bands(V.c), Range(OpBands(e, p))))))
                        ELSE M(NonEmpty(Map(MNorm(V.st), LAMBDA s : Codes(Dedupe(Without(Bands(s), Range(OpBands(e, p))))))))
    [] e.op = "concat" -> F(Flat([i \in 1..Len(e.hs) |-> p[e.hs[i]].c]))
    [] e.op = "slice" -> F(Codes(PySlice(Bands(V.c), e.a, e.b, e.n)))
    [] e.op = "take" -> F(Codes([i \in 1..Len(e.idx) |-> LET j == e.idx[i] n == Len(Bands(V.c)) IN
                                                         Bands(V.c)[(IF j < 0 THEN j + n ELSE j) + 1]]))
    [] e.op = "late" -> (IF V.t = "s" THEN
                           LET xs == <<e.h>> \o e.hs
                               ts == SelectSeq([i \in 1..Len(xs) |-> p[xs[i]].txt], LAMBDA x : x /= "")
                               ps == Flat([i \in 1..Len(xs) |-> IF p[xs[i]].txt = "" THEN <<>> ELSE p[xs[i]].ps])
                           IN SV(IF ts = <<>> THEN <<<<"*", <<>>>>>> ELSE ps, Join(ts, ","))
                         ELSE LET W == IF e.how = "str" THEN M(<<Codes(e.bs)>>) ELSE p[e.g] IN
                              IF Text(V) = "" THEN W ELSE IF Text(W) = "" THEN V ELSE M(AsM(V) \o AsM(W)))
    [] e.op = "fuse" -> IF V.t = "f" THEN V ELSE F(Flat(V.st))
    [] e.op = "split" -> (CASE V.t = "f" -> M(Map(Norm(V.c), LAMBDA c : <<c>>))
                            [] V.t = "m" -> M(Flat(Map(V.st, LAMBDA s : Map(Norm(s), LAMBDA c : <<c>>))))
                            [] OTHER -> LET q == Flat(Map(V.ps, LAMBDA x : IF x[2] = <<>> THEN <<<<x[1], <<>>>>>>
                                                                ELSE Map(Norm(x[2]), LAMBDA c : <<x[1], <<c>>>>)))
                                        IN SV(q, PairsText(q)))
    [] e.op = "stream" -> IF V.t = "s" THEN SV(<<V.ps[e.i]>>, PairText(V.ps[e.i])) ELSE F(StreamsOf(V)[e.i])
    [] e.op = "tof" -> IF V.t = "f" THEN V ELSE F(Vals(V.st)[1])
    [] e.op = "tom" -> IF V.t = "m" THEN V ELSE M(AsM(V))
    [] e.op = "tos" -> IF V.t = "s" THEN V ELSE
                       SV(IF Text(V) = "" THEN <<<<"*", <<>>>>>> ELSE [i \in 1..Len(AsM(V)) |-> <<"*", Ranges(AsM(V)[i])>>], Text(V))
    [] e.op = "match" -> IF e.s = "*" THEN V ELSE
                         LET q == SelectSeq(V.ps, LAMBDA x : x[1] \in {e.s, "*"}) IN
                         IF q = <<>> THEN SV(<<<<e.s, <<>>>>>>, e.s \o ":") ELSE SV(q, PairsText(q))
    [] e.op = "chans" -> LET q == NonEmpty(Map(V.ps, LAMBDA x : x[2])) IN
                         IF q = <<>> THEN F(<<>>) ELSE IF Len(q) = 1 THEN F(q[1]) ELSE M(q)
    [] e.op = "pickle" -> V

Makes == {"f", "fint", "m", "mint", "s", "norm", "concise", "union", "inter", "diff", "concat", "slice", "take", "late",
          "fuse", "split", "stream", "tof", "tom", "tos", "match", "chans", "pickle"}

\* coercions and selections that must be refused
MustRaise(p, e) ==
  CASE e.op = "tof" -> p[e.h].t = "m" /\ Len(Vals(p[e.h].st)) > 1
    [] e.op = "chans" -> \E i, j \in 1..Len(p[e.h].ps) : p[e.h].ps[i][1] /= p[e.h].ps[j][1]
    [] e.op = "badcoerce" -> TRUE
    [] OTHER -> FALSE
\* nothing is claimed about these
MayRaise(p, e) == e.op = "tof" /\ p[e.h].t = "m" /\ p[e.h].st = <<>>
=============================================================================
