-------------------------------- MODULE Quant --------------------------------
(* Dequantization and quantization of images.                                *)
(*                                                                           *)
(* A quantization maps codes quant_min..quant_max affinely onto              *)
(* orig_min..orig_max and one code (nodata) to NaN.  Values are pairs        *)
(* <<i, f>> for i + f / 4096; NaN is a class of its own.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
U == 4096
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* integer types, as far as the codes used here go (32 bit ones are wider)
Lo(dt) == CASE dt = "int8" -> -128 [] dt = "int16" -> -32768 [] dt \in {"int32", "int64", "float32", "float64"} -> -70000 [] OTHER -> 0
Hi(dt) == CASE dt = "int8" -> 127 [] dt = "uint8" -> 255 [] dt = "int16" -> 32767 [] dt = "uint16" -> 65535 [] OTHER -> 70000
Wide(dt) == dt \in {"int32", "uint32", "int64", "uint64"}
\* codes may also be stored as floats (after a resampling, say)
Floats(dt) == dt \in {"float32", "float64"}
Fits(dt, v) == IF Floats(dt) THEN TRUE ELSE IF Wide(dt) THEN v >= 0 \/ dt \in {"int32", "int64"} ELSE Lo(dt) <= v /\ v <= Hi(dt)

\* q: [omin, omax, qmin, qmax, nk, nv]; nk: how nodata is given
\*    "none", "int" (the integer nv), "float" (nv as a float), "half" (nv + 1/2), "nan"
IsNodata(q, dt, code) == q.nk \in {"int", "float"} /\ Fits(dt, q.nv) /\ code = q.nv
\* the value of a code: exact, in floor and remainder
Deq(q, code) ==
  LET c == q.qmax - q.qmin
      x == (code - q.qmin) * (q.omax - q.omin)
  IN IF c = 0 THEN <<q.omin, 0>> ELSE <<x \div c + q.omin, ((x % c) * U) \div c>>
\* close: float64 exactly up to rounding, float32 to 24 bits of the largest term
Close(a, b, q, f32) ==
  LET big == Abs(a[1]) + 2 * Abs(q.omin)
      tol == 2 + IF f32 THEN big \div 256 ELSE 0
  IN /\ Abs(a[1] - b[1]) <= 1 + IF f32 THEN big \div 1048576 ELSE 0
     /\ (f32 /\ big > 65536) \/ Abs((a[1] - b[1]) * U + a[2] - b[2]) <= tol

\* input values are n / 64; NaN 99999, +inf 88888, -inf -88888
NaNIn == 99999
ClipTo(n, q) == IF n > 64 * q.omax THEN 64 * q.omax ELSE IF n < 64 * q.omin THEN 64 * q.omin ELSE n
\* one quantization step for a range onto a number of codes, in 1 / 4096
Codes(dt) == CASE dt = "int8" -> 127 [] dt = "uint8" -> 254 [] dt = "int16" -> 32767 [] dt = "uint16" -> 65534 [] OTHER -> 16777216
StepU(dt, q) == ((q.omax - q.omin) * U) \div Codes(dt) + 1

\* which of the pixels <<row, column, band>> of a h by w by c image a view shows, in order
View(via, h, w, c) ==
  LET rows == IF via = "crop" THEN 2..h ELSE 1..h
      cols == IF via = "crop" THEN 1..(w - 1) ELSE 1..w
      r0 == IF via = "crop" THEN 1 ELSE 0
      nr == Cardinality(rows)  nc == Cardinality(cols)
  IN [k \in 1..(nr * nc * c) |->
        LET r == (k - 1) \div (nc * c) + r0  x == ((k - 1) \div c) % nc  b == (k - 1) % c
            bb == IF via = "bands" THEN c - 1 - b ELSE b
        IN (r * w + x) * c + bb + 1]
=============================================================================
