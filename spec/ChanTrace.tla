----------------------------- MODULE ChanTrace ------------------------------
(* Validates recorded histories of channel-spec operations against Chan.     *)
EXTENDS Chan, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, pool, dig
vars == <<tid, l, pool, dig>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ pool = <<>> /\ dig = <<>>
Ev == Traces[tid].ev
If(c, s) == IF c THEN {s} ELSE {}

TypeOf(e) == IF e.op \in {"f", "fint", "concat", "slice", "take"} THEN "f" ELSE IF e.op \in {"m", "mint"} THEN "m"
             ELSE IF e.op = "s" THEN "s" ELSE pool[e.h].t
Props(e) ==
  LET t == TypeOf(e) IN
  CASE e.op = "badcoerce" -> {"C22"}
    [] t = "f" -> (CASE e.op \in {"union", "inter", "diff", "concat"} -> {"C18"}
                     [] e.op \in {"late", "split", "tom", "stream", "fuse"} -> {"C19"}
                     [] e.op = "tos" -> {"C20"}
                     [] OTHER -> {"C17"})
    [] t = "m" -> (CASE e.op \in {"union", "inter", "diff"} -> {"C18", "C19"} [] e.op = "tos" -> {"C20"} [] OTHER -> {"C19"})
    [] OTHER -> (CASE e.op \in {"late", "match", "stream", "chans"} -> {"C21"} [] OTHER -> {"C20"})
Tag(e, c, s) == IF c THEN {p \o " " \o s : p \in Props(e)} ELSE {}

ExpSts(V) == IF V.t = "f" THEN <<Texts(V.c)>> ELSE Map(V.st, Texts)
ExpPairs(V) == Map(V.ps, LAMBDA x : <<x[1], Texts(x[2])>>)

\* a pair as observed denotes the bands of the specified pair with the same text
DenOf(q, ps) == LET c == {i \in 1..Len(ps) : ps[i][1] = q[1] /\ Texts(ps[i][2]) = q[2]} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE
ConcPs(V) == Map(V.ps, LAMBDA x : <<x[1], Norm(x[2])>>)     \* aliases expanded as well
SameSet(obs, exp) == Range(obs) = Range(exp)

ViewClauses(e, N, o) ==
  IF o.v.t /= N.t THEN Tag(e, TRUE, "kind-of-result")
  ELSE IF N.t = "s" THEN
    IF e.op = "concise" THEN
      Tag(e, ~SameSet(o.v.ps, ExpPairs(N)), "concise-denotes-other-streams")
      \cup Tag(e, ~DupFree(o.v.ps), "concise-repeats-streams")
    ELSE Tag(e, o.v.spec /= N.txt, "text") \cup Tag(e, o.v.ps /= ExpPairs(N), "streams")
  ELSE Tag(e, o.v.spec /= Text(N), "text")
       \cup Tag(e, o.v.sts /= ExpSts(N), IF N.t = "f" THEN "bands" ELSE "streams")

B(x) == IF x THEN 1 ELSE 0
Ranged(c) == c.k = "r" /\ Len(CodeBands(c)) /= 1
\* as CompIdx, with every range taken for one band
CompIdxOne(cs) ==
  LET n(c) == IF c.k = "r" THEN 1 ELSE Len(CodeBands(c))
      off == [i \in 1..Len(cs) |-> Sum([j \in 1..(i - 1) |-> n(cs[j])])] IN
  {<<CodeText(cs[i]), off[i], off[i] + n(cs[i])>> :
      i \in {i \in 1..Len(cs) : \A j \in (i + 1)..Len(cs) : CodeText(cs[j]) /= CodeText(cs[i])}}
SizesOf(V) == IF V.t = "f" THEN Map(V.c, LAMBDA c : <<"", Len(CodeBands(c))>>)
              ELSE Map(Vals(V.st), LAMBDA s : <<FText(s), Len(Bands(s))>>)
PathCode(c) ==
  LET a == ToString(c.a)  b == ToString(c.b)  s == ToString(c.s) IN
  CASE c.k = "p" -> c.r
    [] c.k = "i" -> c.r \o "." \o a
    [] c.f = "z" -> c.r \o ".." \o b
    [] c.f = "d" -> c.r \o "." \o a \o ".." \o b
    [] c.f = "c" -> c.r \o ".." \o a \o ".." \o b
    [] c.f = "ds" -> c.r \o "." \o a \o ".." \o b \o ".." \o s
    [] c.f = "cs" -> c.r \o ".." \o a \o ".." \o b \o ".." \o s
    [] c.f = "o" -> c.r \o "..." \o b
    [] c.f = "oo" -> c.r \o "...." \o b
    [] c.f = "os" -> c.r \o "..." \o b \o ".." \o s
    [] c.f = "oos" -> c.r \o "...." \o b \o ".." \o s
PathText(V) == IF V.t = "f" THEN Join(Map(V.c, PathCode), "_")
               ELSE Join(Map(V.st, LAMBDA s : Join(Map(s, PathCode), "_")), ",")

FQuery(e, V, q) ==
  LET bs == Bands(V.c)  W == pool[e.g] IN
  If(q.norm /= FText(Norm(V.c)) \/ q.nn /= q.norm, "C17 normalized")
  \cup If(q.conc /= FText(Concise(V.c)) \/ q.cc /= q.conc, "C17 concise")
  \cup If(q.nc /= q.norm \/ q.cn /= q.conc, "C17 concise-and-normalized-agree")
  \cup If(q.numel /= Len(bs) \/ q.len /= Len(bs), "C17 numel")
  \cup If(q.sizes /= SizesOf(V), "C17 sizes")
  \cup If(q.list /= BTexts(bs) \/ q.oset /= Dedupe(BTexts(bs)) \/ Range(q.set) /= Range(BTexts(bs)), "C17 list-of-bands")
  \cup If(Range(q.uniq) /= Range(Texts(V.c)) \/ q.vals /= Texts(V.c), "C17 codes")
  \cup (IF Range(q.comp) = {<<x[1], "", x[2], x[3]>> : x \in CompIdx(V.c)} THEN {}
        ELSE IF (\E i \in 1..Len(V.c) : Ranged(V.c[i])) /\ Range(q.comp) = {<<x[1], "", x[2], x[3]>> : x \in CompIdxOne(V.c)}
        THEN {"C17 K17a component-indices-of-ranges"} ELSE {"C17 component-indices"})
  \cup If(q.items /= [i \in 1..Len(e.idx) |-> BTexts(bs)[(IF e.idx[i] < 0 THEN e.idx[i] + Len(bs) ELSE e.idx[i]) + 1]], "C17 item")
  \cup If(q.has /= [i \in 1..Len(e.tb) |-> B(InSeq(e.tb[i], Texts(V.c)))], "C18 membership")
  \cup If(q.sub /= B(Range(bs) \subseteq Range(Bands(W.c))), "C18 subset")
  \cup If(q.sup /= B(Range(Bands(W.c)) \subseteq Range(bs)), "C18 superset")
  \cup If(q.eq /= B(Texts(V.c) = Texts(W.c)), "C17 equality")
  \cup If(q.keys /= <<FText(V.c)>>, "C19 streams")
  \cup If(q.reparse /= 1, "C17 parse-of-printed")
  \cup If(q.path /= PathText(V), "C17 path")
MQuery(e, V, q) ==
  If(q.norm /= MText(MNorm(V.st)) \/ q.nn /= q.norm, "C19 normalized")
  \cup If(q.conc /= MText(MConcise(V.st)) \/ q.cc /= q.conc, "C19 concise")
  \cup If(q.nc /= q.norm \/ q.cn /= q.conc, "C19 concise-and-normalized-agree")
  \cup If(q.numel /= MNumel(V.st), "C19 numel")
  \cup If(q.sizes /= SizesOf(V), "C19 sizes")
  \cup If(Range(q.uniq) /= {BandText(b) : b \in MBands(V.st)}, "C19 unique-bands")
  \cup If(Range(q.comp) /= MCompIdx(V.st), "C19 component-indices")
  \cup If(q.keys /= Map(V.st, FText) \/ q.vals /= Map(Vals(V.st), FText), "C19 streams")
  \cup If(q.has /= [i \in 1..Len(e.tb) |-> B(e.tb[i] \in {BandText(b) : b \in MBands(V.st)})], "C18 membership")
  \cup If(q.reparse /= 1, "C19 parse-of-printed")
  \cup If(q.path /= PathText(V), "C19 path")
SQuery(e, V, q) ==
  LET cps == ConcPs(V)  x == ExpPairs([V EXCEPT !.ps = cps]) IN
  If(q.norm /= PairsText(V.ps) \/ q.nn /= q.norm, "C20 normalized")
  \cup If(~SameSet(q.cps, x) \/ ~SameSet(q.ncps, x), "C20 concise-denotes-other-streams")
  \cup If(~DupFree(q.cps), "C20 concise-repeats-streams")
  \cup If(DupFree(x) /\ q.cc /= q.conc, "C20 concise-not-stable")
  \cup If(q.cn /= q.conc, "C20 concise-depends-on-form")
  \cup If(q.numel /= Sum(Map(V.ps, LAMBDA p : Len(Bands(p[2])))), "C21 numel")
  \cup If(q.reparse /= 1, "C20 parse-of-printed")

\* the identifiers of the bands of every code of the items, in order
IdsOf(e) == LET all == Flat(e.gs) IN
            [i \in 1..Len(all) |-> LET off == Len(Bands(SubSeq(all, 1, i - 1))) IN
               <<CodeText(all[i]), [j \in 1..Len(CodeBands(all[i])) |-> off + j]>>]
IdFor(ids, t) == ids[CHOOSE i \in 1..Len(ids) : ids[i][1] = t][2]
EncClauses(e, V, q) ==
  LET ids == IdsOf(e)  vs == Vals(V.st) IN
  If(Range(q.enc) /= {<<FText(vs[i]), Flat(Map(Texts(vs[i]), LAMBDA t : IdFor(ids, t)))>> : i \in 1..Len(vs)}, "C19 encode")
  \cup If(Range(q.dec) /= {<<t, IdFor(ids, t)>> : t \in UNION {Range(Texts(vs[i])) : i \in 1..Len(vs)}}, "C19 decode")

(* Defects of the library that are recorded and not repaired (see           *)
(* KNOWN_FINDINGS.txt): each is recognized by its call, the inputs it needs  *)
(* and the wrong outcome, and reported under a clause of its own.            *)
BadText(items) == \/ items = <<>>
                  \/ \E i \in 1..Len(items) :
                       /\ items[i].rp
                       /\ items[i].ls = <<>> \/ \E j \in 1..Len(items[i].rs) : items[i].rs[j] = <<>>
Several(c) == BTexts(CodeBands(c)) /= <<CodeText(c)>>
EmptyMixed(ps) == \E i, j \in 1..Len(ps) : ps[i][1] = ps[j][1] /\ ps[i][2] = <<>> /\ ps[j][2] /= <<>>
ParseErrors == {"UnexpectedCharacters", "UnexpectedToken", "UnexpectedEOF", "UnexpectedInput", "VisitError"}
Known(e, o) ==
  LET V == IF pool = <<>> \/ e.op \in {"f", "m", "s", "fint", "mint"} THEN F(<<>>) ELSE pool[e.h] IN
  CASE e.op = "s" /\ BadText(e.items) /\ o.err \in ParseErrors ->
            IF e.items = <<>> THEN {"C20 K20b empty-spec-has-no-streams"} ELSE {"C20 K20a sequences-do-not-parse"}
    [] e.op = "tos" /\ V.t /= "s" /\ Text(V) = "" /\ o.err \in ParseErrors -> {"C20 K20b empty-spec-has-no-streams"}
    [] e.op \in {"concise", "q"} /\ V.t = "s" /\ EmptyMixed(V.ps) /\ o.err \in ParseErrors ->
            {"C20 K20a sequences-do-not-parse"}
    [] e.op = "late" /\ e.how = "str" /\ V.t /= "s" /\ o.err \in {"TypeError", "TypeOf str"} -> {"C19 K19a late-fusion-with-a-string-raises"}
    [] e.op = "enc" /\ e.mode = 0 /\ o.err = "KeyError" /\ (\E i \in 1..Len(V.st) : \E j \in 1..Len(V.st[i]) : Several(V.st[i][j])) ->
            {"C19 K19c simple-encode-raises"}
    [] e.op = "tom" /\ V.t = "f" /\ V.c = <<>> /\ o.err = "" /\ o.v.sts = <<>> /\ o.v.n = 1 -> {"C19 K19d coerced-empty-spec-has-a-stream"}
    [] e.op = "badcoerce" /\ e.how = "f" /\ e.s = "float" /\ (o.err = "" \/ o.fresh = 0) /\ o.err \in {"", "TypeError"} ->
            {"C22 K22a coercion-of-a-float"}
    [] e.op = "pickle" /\ o.err \in {"PicklingError", "AttributeError"} -> {"C22 K22b pickling-after-queries"}
    [] OTHER -> {}

Clauses0(e, o) ==
  If(o.rep /= 1, "C22 repeating-differs") \cup If(o.fresh /= 1, "C22 earlier-calls-change-the-result")
  \cup If(\E i \in 1..Len(dig) : i > Len(o.fr) \/ o.fr[i] /= dig[i], "C22 operand-changed")
  \cup IF MustRaise(pool, e) THEN Tag(e, o.err = "", "error-not-raised")
       ELSE IF o.err /= "" THEN Tag(e, ~MayRaise(pool, e), "raised")
       ELSE CASE e.op = "q" -> (CASE pool[e.h].t = "f" -> FQuery(e, pool[e.h], o.q)
                                 [] pool[e.h].t = "m" -> MQuery(e, pool[e.h], o.q)
                                 [] OTHER -> SQuery(e, pool[e.h], o.q))
              [] e.op = "enc" -> EncClauses(e, pool[e.h], o.q)
              [] e.op = "badcoerce" -> {}
              [] MayRaise(pool, e) -> {}
              [] OTHER -> ViewClauses(e, New(pool, e), o)

Clauses(e, o) == LET k == Known(e, o) IN IF k /= {} THEN k ELSE Clauses0(e, o)

\* the compact sensor-channel text is free in its order: it is taken as observed
Adopt(e, o) ==
  LET N == New(pool, e) IN
  IF e.op = "concise" /\ N.t = "s" /\ o.v.t = "s" THEN
    LET ps == SelectSeq(Map(o.v.ps, LAMBDA q : LET i == DenOf(q, N.ps) IN IF i = 0 THEN <<>> ELSE N.ps[i]), LAMBDA x : x /= <<>>)
    IN SV(ps, o.v.spec)
  ELSE N

Step ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l].e   o == Ev[l].o  cs == Clauses(e, o) IN
     /\ \A c \in cs : PrintT(<<"CLAUSE", Traces[tid].id, l, c, e.op>>)
     /\ IF e.op \in Makes /\ o.err = "" /\ ~MayRaise(pool, e) /\ ~MustRaise(pool, e)
        THEN pool' = Append(pool, Adopt(e, o)) ELSE pool' = pool
     /\ dig' = o.fr
     /\ l' = l + 1 /\ tid' = tid
     /\ l < Len(Ev) \/ PrintT(<<"DONE", Traces[tid].id, Len(Ev)>>)
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
