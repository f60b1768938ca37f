----------------------------- MODULE LazyTrace -----------------------------
(* Decides recorded histories of readers and views against Lazy.tla.        *)
EXTENDS Lazy, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = S0
Ev == Traces[tid].ev
If(c, s) == IF c THEN {s} ELSE {}
\* which property a wrong pixel belongs to
Wrong(exp, got, tag) ==
  LET n == Min2(Len(exp), Len(got))
      bad == {i \in 1..n : exp[i] /= got[i]}
      inv == {i \in bad : exp[i] \in {-1, -2} \/ got[i] \in {-1, -2}}
  IN If(bad \ inv /= {}, "C13 " \o tag \o "pixels")
     \cup If({i \in inv : exp[i] = -2} /= {}, "C14 " \o tag \o "not-masked")
     \cup If({i \in inv : exp[i] = -1} /= {}, "C14 " \o tag \o "not-nan")
     \cup If({i \in inv : exp[i] >= 0} /= {}, "C14 " \o tag \o "valid-pixel-lost")
     \cup If(Len(exp) /= Len(got), "C13 " \o tag \o "amount")
Who(m) == IF NoPolicy(m) THEN "C13 " ELSE "C14 "
\* a reader returned one array for one index
ReadOf(o, F, R, ix) ==
  LET W == Window(F, R.lv, ix)
      sh == <<Len(W.ys), Len(W.xs), Len(W.bs)>>
  IN IF o.err /= "" THEN If(~MayRefuse(W, ix), "C13 read-raised")
     ELSE IF o.sh /= sh /\ ~(sh[3] = 1 /\ o.sh = <<sh[1], sh[2]>>) THEN {"C13 read-shape"}
     ELSE IF 0 \in Rng(sh) THEN {}
     ELSE If(o.dt /= DType(F, R.m), Who(R.m) \o "read-dtype")
          \cup If(o.ma /= (R.m = "ma"), "C14 read-array-kind")
          \cup Wrong(Pixels(F, R.m, R.lv, W), o.px, "read-")
InfoOf(o, F, R) ==
  If(o.err /= "", "C13 info-raised")
  \cup (IF o.err /= "" THEN {} ELSE
        If(o.sh /= <<LevH(F, R.lv), LevW(F, R.lv), F.c>>, "C13 info-shape")
        \cup If(o.n /= 3, "C13 info-ndim")
        \cup If(o.dt /= F.dt, "C13 info-dtype")
        \cup If(R.be \in {"gdal", "fast"} /\ o.k /= F.nov - R.lv, "C13 info-overviews"))
HasMa(V) == \E i \in 1..Len(V.ch) : V.ch[i].m = "ma"
ViewOf(o, S, V, tag) ==
  IF o.err /= "" THEN {(IF \A i \in 1..Len(V.ch) : NoPolicy(V.ch[i].m) THEN "C13 " ELSE "C14 ") \o tag \o "raised"}
  ELSE IF o.sh /= <<V.h, V.w, Len(V.ch)>> THEN {"C13 " \o tag \o "shape"}
  ELSE If(ViewDType(S, V) /= "" /\ o.dt /= ViewDType(S, V), Who(V.ch[1].m) \o tag \o "dtype")
       \cup If(HasMa(V) /\ ~o.ma, "C14 " \o tag \o "array-kind")
       \cup Wrong(ViewPixels(S.fs, V), o.px, tag)
Next ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l].e  o == Ev[l].o
         N == After(st, e)
         cs == CASE e.op = "file" -> If(o.err /= "", "C13 setup-" \o o.err)
                 [] e.op \in {"open", "over", "abs"} -> InfoOf(o, N.fs[N.rs[Len(N.rs)].f], N.rs[Len(N.rs)])
                 [] e.op \in {"read", "arr"} -> ReadOf(o, st.fs[st.rs[e.r].f], st.rs[e.r], e.ix)
                 [] e.op = "info" -> InfoOf(o, st.fs[st.rs[e.r].f], st.rs[e.r])
                 [] e.op \in ViewOps ->
                      LET V == N.vs[Len(N.vs)] IN ViewOf(o.raw, N, V, "view-raw-") \cup ViewOf(o.opt, N, V, "view-")
                 [] OTHER -> {}
     IN /\ \A x \in cs : PrintT(<<"CLAUSE", Traces[tid].id, l, x, e.op>>)
        /\ st' = N /\ l' = l + 1 /\ tid' = tid
        /\ l < Len(Ev) \/ PrintT(<<"DONE", Traces[tid].id, Len(Ev)>>)
Spec == Init /\ [][Next]_vars
=============================================================================
