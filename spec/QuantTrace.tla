----------------------------- MODULE QuantTrace ------------------------------
EXTENDS Quant, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
Init == tid \in 1..Len(Traces) /\ l = 1
Ev == Traces[tid].ev
If(c, s) == IF c THEN {s} ELSE {}
\* o: [err, shape, v (floor, 4096th; class), cls (0 number, 1 nan, 2 inf), ...]
DeqClauses(e, o) ==
  LET ix == View(e.via, e.dims[1], e.dims[2], e.dims[3])
      n == Len(ix)
      f32 == e.od /= "float64"
      bad(k) == LET code == e.data[ix[k]] IN
                IF IsNodata(e.q, e.dt, code) THEN o.cls[k] /= 1
                ELSE o.cls[k] /= 0 \/ ~Close(Deq(e.q, code), o.v[k], e.q, f32)
      lost == \E k \in 1..n : IsNodata(e.q, e.dt, e.data[ix[k]]) /\ o.cls[k] /= 1
      extra == \E k \in 1..n : ~IsNodata(e.q, e.dt, e.data[ix[k]]) /\ o.cls[k] = 1
  IN IF Len(o.v) /= n THEN {"C15 dequantized-shape"} ELSE
     If(o.shape /= (IF e.via = "crop" THEN <<e.dims[1] - 1, e.dims[2] - 1, e.dims[3]>> ELSE e.dims), "C15 dequantized-shape")
     \cup If(lost, "C15 nodata-not-nan") \cup If(extra, "C15 nan-without-nodata")
     \cup If(~lost /\ ~extra /\ (\E k \in 1..n : bad(k)), "C15 dequantized-value")
     \cup If(o.dt /= (IF e.od = "" THEN "float32" ELSE e.od), "C15 dequantized-type")
QuantClauses(e, o) ==
  LET n == Len(e.data)
      nan(k) == e.data[k] = NaNIn
      q == e.q
      want(k) == LET c == ClipTo(e.data[k], q) IN <<c \div 64, (c % 64) * 64>>
      tol == StepU(e.dt, q) + 2 + (Abs(q.omin) + Abs(q.omax)) \div 256
      off(k) == Abs((o.v[k][1] - want(k)[1]) * U + o.v[k][2] - want(k)[2]) > tol
  IN IF Len(o.v) /= n \/ o.shape /= e.dims \/ o.qshape /= e.dims THEN {"C15 quantized-shape"} ELSE
     If(o.qdt /= e.dt, "C15 quantized-type")
     \cup If(o.om /= <<q.omin, q.omax>>, "C15 recorded-range")
     \cup If(o.ncode /= 1, "C15 nodata-code-within-codes")
     \cup If(\E k \in 1..n : o.codes[k] /= (IF nan(k) THEN 2 ELSE 1), "C15 code-out-of-range")
     \cup If(\E k \in 1..n : (o.cls[k] = 1) /= nan(k), "C15 nan-not-preserved")
     \cup If(\E k \in 1..n : ~nan(k) /\ o.cls[k] = 0 /\ off(k), "C15 round-trip")
     \cup If(\E k \in 1..n : o.cls[k] = 2, "C15 round-trip")
     \cup If(\E j, k \in 1..n : ~nan(j) /\ ~nan(k) /\ ClipTo(e.data[j], q) < ClipTo(e.data[k], q) /\ o.rank[j] > o.rank[k], "C15 quantized-order")
Next ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l].e  o == Ev[l].o
         cs == IF o.err /= "" THEN {"C15 raised"} ELSE
               If(o.fr /= 1, "C15 input-changed") \cup IF e.op = "deq" THEN DeqClauses(e, o) ELSE QuantClauses(e, o)
     IN /\ \A x \in cs : PrintT(<<"CLAUSE", Traces[tid].id, l, x, e.op>>)
        /\ l' = l + 1 /\ tid' = tid
        /\ l < Len(Ev) \/ PrintT(<<"DONE", Traces[tid].id, Len(Ev)>>)
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
