------------------------------ MODULE QuantGen -------------------------------
EXTENDS Quant, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
VARIABLES hist, fin
R(X) == RandomElement(X)
SeqOf(s) == s[RandomElement(1..Len(s))]
Dts == <<"uint8", "int16", "uint16", "int8", "int32", "uint32", "int64", "uint64">>
\* the range of codes used
Span(dt) == {Lo(dt), Hi(dt), Max2(Lo(dt), -1), 0, 1, 2, 100, 127} \cup {R(Lo(dt)..Hi(dt)) : i \in 1..3}
Dim(x) == R({1, 2, 3})
RandDeq(x) ==
  LET dt == SeqOf(Dts \o <<"float32", "float64">>)
      sp == Span(dt)
      qa == R(sp)  qb == R(sp)
      ob == R({0, 1, 3, 255, 1000, -7})
      oa == R({0, -1, -1000, 5, -7})
      nk == SeqOf(<<"none", "int", "int", "int", "float", "half", "nan">>)
      nv == R(sp \cup {-9999, 300, -1, 70000})
      via == SeqOf(<<"helper", "helper", "node", "opt", "crop", "bands">>)
      h == Dim(1)  w == Dim(2)  c == Dim(3)
      dims == <<IF via = "crop" THEN h + 1 ELSE h, IF via = "crop" THEN w + 1 ELSE w, c>>
  IN [op |-> "deq", dt |-> dt, od |-> SeqOf(<<"", "float32", "float64">>), via |-> via, dims |-> dims,
      q |-> [omin |-> Min2(oa, ob), omax |-> IF R(1..8) = 1 THEN Min2(oa, ob) ELSE Max2(oa, ob) ,
             qmin |-> Min2(qa, qb), qmax |-> IF R(1..8) = 1 THEN Min2(qa, qb) ELSE Max2(qa, qb), nk |-> nk, nv |-> nv],
      data |-> [i \in 1..(dims[1] * dims[2] * dims[3]) |-> IF R(1..4) = 1 /\ nv \in Lo(dt)..Hi(dt) THEN nv ELSE R(sp \cup {R(Lo(dt)..Hi(dt))})]]
RandQuant(x) ==
  LET oa == R({0, -1, -30, 2, -7})
      q == [omin |-> oa, omax |-> oa + R({1, 1, 2, 10, 60}), qmin |-> 0, qmax |-> 0, nk |-> "none", nv |-> 0]
  IN [op |-> "quant", dt |-> SeqOf(Dts), od |-> SeqOf(<<"float32", "float64">>), via |-> SeqOf(<<"helper", "helper", "node", "opt">>),
      dims |-> <<Dim(1), Dim(2), Dim(3)>>, q |-> q, data |-> <<>>]
Fill(e) == IF e.op = "deq" THEN e ELSE
  [e EXCEPT !.data = [i \in 1..(e.dims[1] * e.dims[2] * e.dims[3]) |->
     LET k == R(1..12) IN
     CASE k = 1 -> NaNIn [] k = 2 -> 88888 [] k = 3 -> -88888 [] k = 4 -> 64 * e.q.omin [] k = 5 -> 64 * e.q.omax
       [] k = 6 -> 64 * e.q.omax - 1 [] k = 7 -> 64 * e.q.omin + 1
       [] OTHER -> R((64 * e.q.omin - 70)..(64 * e.q.omax + 70))]]
Init == hist = <<>> /\ fin = FALSE
Next ==
  \/ /\ Len(hist) < MaxOps /\ UNCHANGED fin
     /\ \E e \in {IF R(1..2) = 1 THEN RandDeq(Len(hist)) ELSE RandQuant(Len(hist))} : \E d \in {Fill(e)} : hist' = Append(hist, d)
  \/ /\ Len(hist) >= MaxOps /\ ~fin /\ fin' = TRUE /\ UNCHANGED hist /\ PrintT("PROGRAM " \o ToJson(hist))
Spec == Init /\ [][Next]_<<hist, fin>>
=============================================================================
