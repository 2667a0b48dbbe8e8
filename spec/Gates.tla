-------------------------------- MODULE Gates --------------------------------
(***************************************************************************)
(* The gate set of ProjectQ and its unitary semantics.                     *)
(*                                                                         *)
(* A gate is a record [n |-> name, p |-> sequence of integers].  Angles are*)
(* pairs (k, m) standing for h = k pi/8 + m phi (see Ring):                *)
(*    Rx, Ry, Rz, Rxx, Ryy, Rzz (theta) have theta = 2 h                   *)
(*    Ph(theta), R(theta)               have theta = h                     *)
(* A matrix is [e |-> rows of sparse ring elements, d2, d5]; it stands for *)
(* e / (2^d2 5^d5).  Bit i of a row/column index belongs to the i-th       *)
(* target qubit.                                                           *)
(***************************************************************************)
EXTENDS Ring, FiniteSets

Gate(n, p) == [n |-> n, p |-> p]
G0(n) == Gate(n, <<>>)

T0 == <<>>
T1(k) == << <<1, k % 16>> >>          \* zeta^k
SQ2 == << <<1, 2>>, <<-1, 6>> >>      \* sqrt 2
MatOf(e, d2, d5) == [e |-> e, d2 |-> d2, d5 |-> d5]
Diag2(a, b, d2, d5) == MatOf(<< <<a, T0>>, <<T0, b>> >>, d2, d5)

MatX == MatOf(<< <<T0, T1(0)>>, <<T1(0), T0>> >>, 0, 0)
MatY == MatOf(<< <<T0, T1(12)>>, <<T1(4), T0>> >>, 0, 0)
MatZ == Diag2(T1(0), T1(8), 0, 0)
MatH == MatOf(<< <<SQ2, SQ2>>, <<SQ2, TNeg(SQ2)>> >>, 1, 0)
MatSqrtX(sg) == LET a == << <<1, 0>>, <<sg, 4>> >>
                    b == << <<1, 0>>, <<0 - sg, 4>> >>
                IN MatOf(<< <<a, b>>, <<b, a>> >>, 1, 0)
MatRot(ax, k, m) ==
  LET c == TCos2(k, m)                 \* 2 cos h
      s == TISin2(k, m)                \* 2 i sin h
      d5 == RAbs(m)
  IN CASE ax = "X" -> MatOf(<< <<c, TNeg(s)>>, <<TNeg(s), c>> >>, 1, d5)
       [] ax = "Y" -> MatOf(<< <<c, TTimesI(s)>>, <<TNeg(TTimesI(s)), c>> >>, 1, d5)
       [] ax = "Z" -> Diag2(TExp(0 - k, 0 - m), TExp(k, m), 0, d5)

(* exp(-i h P(x)P), as 4x4 matrices *)
MatRot2(ax, k, m) ==
  LET c == TCos2(k, m)
      s == TISin2(k, m)
      n == TNeg(s)
      d5 == RAbs(m)
      row(a, b, x, y) == [j \in 1..4 |-> IF j = x THEN a ELSE IF j = y THEN b ELSE T0]
  IN CASE ax = "X" -> MatOf(<<row(c, n, 1, 4), row(c, n, 2, 3), row(c, n, 3, 2), row(c, n, 4, 1)>>, 1, d5)
       [] ax = "Y" -> MatOf(<<row(c, s, 1, 4), row(c, n, 2, 3), row(c, n, 3, 2), row(c, s, 4, 1)>>, 1, d5)
       [] ax = "Z" -> LET a == TExp(0 - k, 0 - m)
                          b == TExp(k, m)
                          dg(x, v) == [j \in 1..4 |-> IF j = x THEN v ELSE T0]
                      IN MatOf(<<dg(1, a), dg(2, b), dg(3, b), dg(4, a)>>, 0, d5)

MatPerm4(f) == MatOf([i \in 1..4 |-> [j \in 1..4 |-> IF f[j] = i THEN T1(0) ELSE T0]], 0, 0)
MatSwap == MatPerm4(<<1, 3, 2, 4>>)
MatSqrtSwap(sg) ==
  LET a == << <<1, 0>>, <<sg, 4>> >>
      b == << <<1, 0>>, <<0 - sg, 4>> >>
      two == << <<2, 0>> >>
  IN MatOf(<< <<two, T0, T0, T0>>, <<T0, a, b, T0>>, <<T0, b, a, T0>>, <<T0, T0, T0, two>> >>, 1, 0)

(* Arbitrary ("user defined") matrix gates, none of them symmetric:        *)
(*   M1a = Rz(h) H T, an arbitrary one-qubit unitary                       *)
(*   M2a: |j> -> zeta^(3j+1) |p(j)>, p = (0 2 3 1), on two qubits          *)
(*   M2b: H on the first qubit if the second is 1, then phase              *)
(*   M3a: |j> -> zeta^(j) |(j+3) mod 8> on three qubits                    *)
MatM1 == LET x == TExp(3, 1)  y == TExp(-3, -1)
             mulsq(t, k) == [i \in 1..Len(t) |-> <<t[i][1], (t[i][2] + 2 + k) % 16>>]
                            \o [i \in 1..Len(t) |-> <<0 - t[i][1], (t[i][2] + 6 + k) % 16>>]
         IN MatOf(<< <<mulsq(y, 0), mulsq(y, 2)>>, <<mulsq(x, 0), TNeg(mulsq(x, 2))>> >>, 1, 1)
MatM2a == LET p == <<1, 3, 4, 2>>
          IN MatOf([i \in 1..4 |-> [j \in 1..4 |-> IF p[j] = i THEN T1(3 * j + 1) ELSE T0]], 0, 0)
MatM2b == LET two == << <<2, 0>> >>  twi == << <<2, 3>> >>
          IN MatOf(<< <<two, T0, T0, T0>>, <<T0, twi, T0, T0>>,
                      <<T0, T0, SQ2, SQ2>>, <<T0, T0, SQ2, TNeg(SQ2)>> >>, 1, 0)
MatM3 == MatOf([i \in 1..8 |-> [j \in 1..8 |-> IF ((j + 2) % 8) + 1 = i THEN T1(j) ELSE T0]], 0, 0)

(*   M4: dense, |j> -> zeta^(3j) (-1)^(i.j) / 4;  M5: the same kind on five  *)
RECURSIVE DotBits(_, _)
DotBits(x, y) == IF x = 0 THEN 0 ELSE (x % 2) * (y % 2) + DotBits(x \div 2, y \div 2)
MatM4 == MatOf([i \in 1..16 |-> [j \in 1..16 |-> T1(3 * j + 8 * (DotBits(i - 1, j - 1) % 2))]], 2, 0)
MatM5 == MatOf([i \in 1..32 |-> [j \in 1..32 |->
            LET k == j * j + 8 * (DotBits(i - 1, (j + 4) % 32) % 2)
            IN << <<1, (k + 2) % 16>>, <<-1, (k + 6) % 16>> >>]], 3, 0)

MatAdj(M) == LET d == Len(M.e) IN
  MatOf([i \in 1..d |-> [j \in 1..d |-> TConj(M.e[j][i])]], M.d2, M.d5)

(* the matrix of a gate that is defined by one *)
MatrixOf(g) ==
  LET n == g.n  p == g.p IN
  CASE n = "I" -> Diag2(T1(0), T1(0), 0, 0)
    [] n \in {"X", "NOT"} -> MatX [] n = "Y" -> MatY [] n = "Z" -> MatZ [] n = "H" -> MatH
    [] n = "S" -> Diag2(T1(0), T1(4), 0, 0) [] n = "Sdag" -> Diag2(T1(0), T1(12), 0, 0)
    [] n = "T" -> Diag2(T1(0), T1(2), 0, 0) [] n = "Tdag" -> Diag2(T1(0), T1(14), 0, 0)
    [] n = "SqrtX" -> MatSqrtX(1) [] n = "SqrtXdag" -> MatSqrtX(-1)
    [] n = "Rx" -> MatRot("X", p[1], p[2]) [] n = "Ry" -> MatRot("Y", p[1], p[2])
    [] n = "Rz" -> MatRot("Z", p[1], p[2])
    [] n = "R"  -> LET a == TExp(p[1], p[2]) IN Diag2(<< <<Pow5(RAbs(p[2])), 0>> >>, a, 0, RAbs(p[2]))
    [] n = "Ph" -> LET a == TExp(p[1], p[2]) IN Diag2(a, a, 0, RAbs(p[2]))
    [] n = "Rxx" -> MatRot2("X", p[1], p[2]) [] n = "Ryy" -> MatRot2("Y", p[1], p[2])
    [] n = "Rzz" -> MatRot2("Z", p[1], p[2])
    [] n = "Swap" -> MatSwap
    [] n = "SqrtSwap" -> MatSqrtSwap(1) [] n = "SqrtSwapdag" -> MatSqrtSwap(-1)
    [] n = "M1" -> MatM1 [] n = "M1dag" -> MatAdj(MatM1)
    [] n = "M2a" -> MatM2a [] n = "M2adag" -> MatAdj(MatM2a)
    [] n = "M2b" -> MatM2b [] n = "M2bdag" -> MatAdj(MatM2b)
    [] n = "M3" -> MatM3 [] n = "M3dag" -> MatAdj(MatM3)
    [] n = "M4" -> MatM4 [] n = "M4dag" -> MatAdj(MatM4)
    [] n = "M5" -> MatM5 [] n = "M5dag" -> MatAdj(MatM5)

OneQ == {"I", "X", "NOT", "Y", "Z", "H", "S", "Sdag", "T", "Tdag", "SqrtX", "SqrtXdag",
         "Rx", "Ry", "Rz", "R", "Ph", "M1", "M1dag"}
TwoQ == {"Rxx", "Ryy", "Rzz", "Swap", "SqrtSwap", "SqrtSwapdag", "M2a", "M2adag", "M2b", "M2bdag"}
ThreeQ == {"M3", "M3dag"}
FourQ == {"M4", "M4dag"}
FiveQ == {"M5", "M5dag"}
Rotations == {"Rx", "Ry", "Rz", "Rxx", "Ryy", "Rzz", "R", "Ph"}
SelfInverse == {"I", "X", "NOT", "Y", "Z", "H", "Swap"}
DagPairs == { <<"S", "Sdag">>, <<"T", "Tdag">>, <<"SqrtX", "SqrtXdag">>, <<"SqrtSwap", "SqrtSwapdag">>,
              <<"M1", "M1dag">>, <<"M2a", "M2adag">>, <<"M2b", "M2bdag">>, <<"M3", "M3dag">>, <<"M4", "M4dag">>, <<"M5", "M5dag">>,
              <<"QFT", "QFTdag">>, <<"Entangle", "Entangledag">>,
              <<"User", "Userdag">> }
MatrixGates == OneQ \cup TwoQ \cup ThreeQ \cup FourQ \cup FiveQ
MatArity(n) == IF n \in OneQ THEN 1 ELSE IF n \in TwoQ THEN 2 ELSE IF n \in ThreeQ THEN 3 ELSE IF n \in FourQ THEN 4 ELSE 5
=============================================================================
