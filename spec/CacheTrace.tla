----------------------------- MODULE CacheTrace -----------------------------
EXTENDS Cache, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, ord, cap
vars == <<tid, l, ord, cap>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ ord = <<>> /\ cap = 0
Ev == Traces[tid].ev
If(c, s) == IF c THEN {s} ELSE {}
Next ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l].e  o == Ev[l].o
         c == IF e.op = "new" THEN e.k ELSE cap
         N == IF e.op = "new" THEN PutAll(<<>>, e.kvs, c) ELSE After(ord, e, c)
         r == IF e.op = "new" THEN 0 ELSE Result(ord, e)
         lost == Keys(N) \ Keys(o.ord)  extra == Keys(o.ord) \ Keys(N)
         cs == If(o.err /= "", "C16 raised")
               \cup If(o.err = "" /\ o.r /= r, "C16 result")
               \cup If(Len(o.ord) > c, "C16 over-capacity")
               \cup If(o.err = "" /\ (lost /= {} \/ extra /= {}), "C16 entries-kept")
               \cup If(o.err = "" /\ lost = {} /\ extra = {} /\ o.ord /= N, "C16 order-or-values")
               \cup If(o.err = "" /\ o.n /= Len(o.ord), "C16 len")
     IN /\ \A x \in cs : PrintT(<<"CLAUSE", Traces[tid].id, l, x, e.op>>)
        /\ ord' = N /\ cap' = c /\ l' = l + 1 /\ tid' = tid
        /\ l < Len(Ev) \/ PrintT(<<"DONE", Traces[tid].id, Len(Ev)>>)
Spec == Init /\ [][Next]_vars
=============================================================================
