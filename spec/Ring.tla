-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* Exact arithmetic in the ring Z[zeta16][1/2,1/5], zeta16 = exp(i pi/8).  *)
(* An element is a tuple of 8 integers <<c0..c7>> standing for             *)
(* c0 + c1 zeta + ... + c7 zeta^7 (zeta^8 = -1); the powers of 2 and of 5  *)
(* in the denominator are kept once per vector or matrix.                  *)
(*                                                                         *)
(* This ring contains every matrix entry of Clifford+T gates, of all the   *)
(* rotation gates at half-angles h = k pi/8 + m phi, where                 *)
(* exp(i phi) = (4+3i)/5 (an angle that is no rational multiple of pi), so *)
(* quantum semantics can be computed by TLC without any rounding.          *)
(***************************************************************************)
EXTENDS Integers, Sequences

RZero == <<0, 0, 0, 0, 0, 0, 0, 0>>
ROne  == <<1, 0, 0, 0, 0, 0, 0, 0>>

RAdd(a, b) == << a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4],
                 a[5] + b[5], a[6] + b[6], a[7] + b[7], a[8] + b[8] >>
RSub(a, b) == << a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4],
                 a[5] - b[5], a[6] - b[6], a[7] - b[7], a[8] - b[8] >>
RScale(s, a) == << s * a[1], s * a[2], s * a[3], s * a[4],
                   s * a[5], s * a[6], s * a[7], s * a[8] >>

(* multiplication by s * zeta^k, 0 <= k < 16 *)
RShift(s, k, a) ==
  CASE k = 0  -> RScale(s, a)
    [] k = 8  -> RScale(0 - s, a)
    [] OTHER  ->
       LET kk == k % 8
           sg == IF k > 8 THEN 0 - s ELSE s
       IN [i \in 1..8 |-> IF i > kk THEN sg * a[i - kk] ELSE 0 - sg * a[i + 8 - kk]]

(* full product (used for probabilities and expectation values) *)
RMul(a, b) ==
  [i \in 1..8 |->
     LET T(j) == IF j <= i THEN a[j] * b[i - j + 1] ELSE 0 - a[j] * b[i - j + 9]
     IN T(1) + T(2) + T(3) + T(4) + T(5) + T(6) + T(7) + T(8)]

(* complex conjugation: zeta -> zeta^-1 = -zeta^7 *)
RConj(a) == << a[1], 0 - a[8], 0 - a[7], 0 - a[6], 0 - a[5], 0 - a[4], 0 - a[3], 0 - a[2] >>

RDivisible(d, a) == /\ a[1] % d = 0 /\ a[2] % d = 0 /\ a[3] % d = 0 /\ a[4] % d = 0
                    /\ a[5] % d = 0 /\ a[6] % d = 0 /\ a[7] % d = 0 /\ a[8] % d = 0
RDiv(d, a) == << a[1] \div d, a[2] \div d, a[3] \div d, a[4] \div d,
                 a[5] \div d, a[6] \div d, a[7] \div d, a[8] \div d >>

RAbs(x) == IF x < 0 THEN 0 - x ELSE x
RMaxAbs(a) == LET M(x, y) == IF x > y THEN x ELSE y
              IN M(M(M(RAbs(a[1]), RAbs(a[2])), M(RAbs(a[3]), RAbs(a[4]))),
                   M(M(RAbs(a[5]), RAbs(a[6])), M(RAbs(a[7]), RAbs(a[8]))))

(* Sparse elements: sequences of terms <<coefficient, exponent>>. *)
RECURSIVE TApply(_, _)
TApply(ts, a) ==
  IF Len(ts) = 0 THEN RZero
  ELSE IF Len(ts) = 1 THEN RShift(ts[1][1], ts[1][2], a)
  ELSE RAdd(RShift(ts[1][1], ts[1][2], a), TApply(Tail(ts), a))

TNeg(ts)  == [i \in 1..Len(ts) |-> <<0 - ts[i][1], ts[i][2]>>]
TConj(ts) == [i \in 1..Len(ts) |-> <<ts[i][1], (16 - ts[i][2]) % 16>>]
TTimesI(ts) == [i \in 1..Len(ts) |-> <<ts[i][1], (ts[i][2] + 4) % 16>>]
TVal(ts)  == TApply(ts, ROne)

(* real and imaginary parts of (4+3i)^m *)
PhiRe(m) == CASE m = 0 -> 1 [] m = 1 \/ m = -1 -> 4 [] m = 2 \/ m = -2 -> 7
              [] m = 3 \/ m = -3 -> -44 [] m = 4 \/ m = -4 -> -527
PhiIm(m) == CASE m = 0 -> 0 [] m = 1 -> 3 [] m = -1 -> -3 [] m = 2 -> 24 [] m = -2 -> -24
              [] m = 3 -> 117 [] m = -3 -> -117 [] m = 4 -> 336 [] m = -4 -> -336
Pow5(m)  == CASE m = 0 -> 1 [] m = 1 -> 5 [] m = 2 -> 25 [] m = 3 -> 125 [] m = 4 -> 625
              [] m = 5 -> 3125 [] m = 6 -> 15625 [] m = 7 -> 78125 [] m = 8 -> 390625

(* exp(i (k pi/8 + m phi)) times 5^|m| *)
TExp(k, m) == IF m = 0 THEN << <<1, k % 16>> >>
              ELSE << <<PhiRe(m), k % 16>>, <<PhiIm(m), (k + 4) % 16>> >>
(* 2 cos and 2 i sin of the same angle, times 5^|m| *)
TCos2(k, m)  == TExp(k, m) \o TExp(0 - k, 0 - m)
TISin2(k, m) == TExp(k, m) \o TNeg(TExp(0 - k, 0 - m))
=============================================================================
