-------------------------------- MODULE Aff --------------------------------
(* Exact planar affine maps over small rationals, and fixed point helpers.  *)
(* A map is <<a, b, c, d, e, f, q>>:                                        *)
(*     x' = (a x + b y + c) / q        y' = (d x + e y + f) / q             *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
CeilDiv(x, q) == -((-x) \div q)
Pow2(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 2 ELSE IF k = 2 THEN 4
           ELSE IF k = 3 THEN 8 ELSE IF k = 4 THEN 16 ELSE IF k = 5 THEN 32 ELSE 64

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
GcdAbs(a, b) == Gcd(Abs(a), Abs(b))

Norm(A) ==
  LET g0 == GcdAbs(A[1], GcdAbs(A[2], GcdAbs(A[3], GcdAbs(A[4], GcdAbs(A[5], GcdAbs(A[6], A[7]))))))
      g1 == IF g0 = 0 THEN 1 ELSE g0
      s  == IF A[7] < 0 THEN -1 ELSE 1
      D(x) == s * (IF x < 0 THEN -((-x) \div g1) ELSE x \div g1)
  IN  <<D(A[1]), D(A[2]), D(A[3]), D(A[4]), D(A[5]), D(A[6]), D(A[7])>>

Id == <<1, 0, 0, 0, 1, 0, 1>>
Translate(x, y) == <<1, 0, x, 0, 1, y, 1>>

\* A after B
Mul(A, B) ==
  Norm(<< A[1]*B[1] + A[2]*B[4],  A[1]*B[2] + A[2]*B[5],  A[1]*B[3] + A[2]*B[6] + A[3]*B[7],
          A[4]*B[1] + A[5]*B[4],  A[4]*B[2] + A[5]*B[5],  A[4]*B[3] + A[5]*B[6] + A[6]*B[7],
          A[7]*B[7] >>)

Det(A) == A[1]*A[5] - A[2]*A[4]
Inv(A) ==
  Norm(<< A[7]*A[5], -(A[7]*A[2]),  A[2]*A[6] - A[5]*A[3],
         -(A[7]*A[4]), A[7]*A[1],   A[4]*A[3] - A[1]*A[6],
          Det(A) >>)

IsId(A) == Norm(A) = Id
PowerOfTwo(q) == q \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
AxisPos(A) == A[2] = 0 /\ A[4] = 0 /\ A[1] > 0 /\ A[5] > 0

\* canvas that holds the positive part of the image of [0,w] x [0,h]
AutoW(A, w, h) == LET m == Max2(Max2(0, A[1]*w), Max2(A[2]*h, A[1]*w + A[2]*h)) IN Max2(0, CeilDiv(m + A[3], A[7]))
AutoH(A, w, h) == LET m == Max2(Max2(0, A[4]*w), Max2(A[5]*h, A[4]*w + A[5]*h)) IN Max2(0, CeilDiv(m + A[6], A[7]))
AutoWExact(A, w, h) == LET m == Max2(Max2(0, A[1]*w), Max2(A[2]*h, A[1]*w + A[2]*h)) IN (m + A[3]) % A[7] = 0
AutoHExact(A, w, h) == LET m == Max2(Max2(0, A[4]*w), Max2(A[5]*h, A[4]*w + A[5]*h)) IN (m + A[6]) % A[7] = 0

\* all entries small enough for 32 bit arithmetic in everything below
Small(A) == /\ \A i \in {1, 2, 4, 5} : Abs(A[i]) <= 2048
            /\ Abs(A[3]) <= 131072 /\ Abs(A[6]) <= 131072
            /\ A[7] <= 1024 /\ Det(A) /= 0

(* ---- fixed point: U units per pixel ---- *)
U == 256
ApX(A, X, Y) == (A[1]*X + A[2]*Y + A[3]*U) \div A[7]
ApY(A, X, Y) == (A[4]*X + A[5]*Y + A[6]*U) \div A[7]
\* how far a box of half-size (sx, sy) spreads under A (rounded up)
SpX(A, sx, sy) == CeilDiv(Abs(A[1])*sx + Abs(A[2])*sy, A[7])
SpY(A, sx, sy) == CeilDiv(Abs(A[4])*sx + Abs(A[5])*sy, A[7])

\* the observed matrix is given as integers in units of 2^-10; t = tolerance in those units
Close1(obs, num, q, t) == Abs(obs * q - num * 1024) <= t * q
CloseAff(obs, A, t) ==
  /\ Close1(obs[1], A[1], A[7], t) /\ Close1(obs[2], A[2], A[7], t) /\ Close1(obs[3], A[3], A[7], t)
  /\ Close1(obs[4], A[4], A[7], t) /\ Close1(obs[5], A[5], A[7], t) /\ Close1(obs[6], A[6], A[7], t)
=============================================================================
