------------------------------ MODULE HighGates ------------------------------
(***************************************************************************)
(* Definitions of the high-level gates, independent of any decomposition.  *)
(***************************************************************************)
EXTENDS MathGates

(* ---- Pauli strings: codes 0 = I, 1 = X, 2 = Y, 3 = Z, one per target ---- *)
RECURSIVE PauliRow(_, _, _)     \* image of basis state x (target value)
PauliRow(codes, x, j) ==
  IF j > Len(codes) THEN 0
  ELSE (IF codes[j] \in {1, 2} THEN 1 - Bit(x, j - 1) ELSE Bit(x, j - 1)) * Pow2(j - 1) + PauliRow(codes, x, j + 1)
RECURSIVE PauliPh(_, _, _)      \* exponent of zeta of the matrix element
PauliPh(codes, x, j) ==
  IF j > Len(codes) THEN 0
  ELSE (CASE codes[j] = 2 -> IF Bit(x, j - 1) = 0 THEN 4 ELSE 12
          [] codes[j] = 3 -> IF Bit(x, j - 1) = 0 THEN 0 ELSE 8
          [] OTHER -> 0) + PauliPh(codes, x, j + 1)

(* zeta^k P *)
MatPauli(codes, k) ==
  LET d == Pow2(Len(codes)) IN
  MatOf([i \in 1..d |-> [j \in 1..d |->
     IF PauliRow(codes, j - 1, 1) = i - 1 THEN T1(k + PauliPh(codes, j - 1, 1)) ELSE T0]], 0, 0)

TermMul(ts, e) == [i \in 1..Len(ts) |-> <<ts[i][1], (ts[i][2] + e) % 16>>]
(* exp(-i h P) = cos h - i sin h P,  h = k pi/8 + m phi *)
MatPauliExp(codes, k, m) ==
  LET d == Pow2(Len(codes))
      c == TCos2(k, m)
      s == TNeg(TISin2(k, m))
      off(i, j) == IF PauliRow(codes, j - 1, 1) = i - 1 THEN TermMul(s, PauliPh(codes, j - 1, 1)) ELSE T0
  IN MatOf([i \in 1..d |-> [j \in 1..d |-> (IF i = j THEN c ELSE T0) \o off(i, j)]], 1, RAbs(m))
(* exp(-i h (P + Q)/sqrt 2) for anticommuting P and Q *)
MatPauliExp2(pc, qc, k, m) ==
  LET d == Pow2(Len(pc))
      c == [x \in 1..Len(TCos2(k, m)) |-> <<2 * TCos2(k, m)[x][1], TCos2(k, m)[x][2]>>]
      s == TNeg(TISin2(k, m))
      r2(ts) == TermMul(ts, 2) \o TNeg(TermMul(ts, 6))     \* times sqrt 2
      off(cd, i, j) == IF PauliRow(cd, j - 1, 1) = i - 1 THEN r2(TermMul(s, PauliPh(cd, j - 1, 1))) ELSE T0
  IN MatOf([i \in 1..d |-> [j \in 1..d |-> (IF i = j THEN c ELSE T0) \o off(pc, i, j) \o off(qc, i, j)]],
           2, RAbs(m))

Anticommute(pc, qc) ==
  Cardinality({i \in 1..Len(pc) : pc[i] # 0 /\ qc[i] # 0 /\ pc[i] # qc[i]}) % 2 = 1

(* ---- quantum Fourier transform; the result is in bit-reversed order ---- *)
RECURSIVE RevBits(_, _)
RevBits(x, n) == IF n = 0 THEN 0 ELSE (x % 2) * Pow2(n - 1) + RevBits(x \div 2, n - 1)
MatQFT(n, sg) ==
  LET d == Pow2(n)
      w == 16 \div d
      odd == n % 2
      el(k) == IF odd = 0 THEN T1(k) ELSE TermMul(SQ2, k % 16)
  IN MatOf([i \in 1..d |-> [j \in 1..d |->
       IF sg = 1 THEN el((w * RevBits(i - 1, n) * (j - 1)) % 16)
       ELSE el((0 - w * RevBits(j - 1, n) * (i - 1)) % 16)]], (n + odd) \div 2, 0)

(* A gate application as a sequence of elementary ones:                    *)
(* <<gate, targets, controls, control states>>                             *)
El(g, t, c, s) == [g |-> g, t |-> t, c |-> c, s |-> s]
NBits(x, n) == [i \in 1..n |-> Bit(x, i - 1)]
NPauli(g, n) == SubSeq(g.p, 1, n)

(* unitaries that phase estimation is applied to: code, k, m on qubits t;   *)
(* the fifth is a function of the time (the power) instead of a gate        *)
UGate(u, k, m) == CASE u = 0 -> Gate("R", <<k, m>>) [] u = 1 -> Gate("Rz", <<k, m>>) [] u = 2 -> G0("X") [] u = 3 -> G0("H")
                    [] u = 4 -> Gate("Ph", <<k, m>>) [] u = 6 -> G0("M2a") [] u = 7 -> Gate("Ry", <<k, m>>)
USize(u) == IF u \in {5, 6} THEN 2 ELSE 1
RECURSIVE UPower(_, _, _, _, _, _)
UPower(u, k, m, t, c, time) ==
  IF u = 5 THEN <<El(G0("X"), <<t[2]>>, <<t[1], c>>, <<1, 1>>), El(Gate("Ry", <<k * time, m * time>>), <<t[1]>>, <<c>>, <<1>>),
                  El(Gate("R", <<k * time, 0>>), <<t[2]>>, <<c>>, <<1>>)>>
  ELSE IF time = 0 THEN <<>> ELSE <<El(UGate(u, k, m), t, <<c>>, <<1>>)>> \o UPower(u, k, m, t, c, time - 1)

(* state preparation algorithms for amplitude amplification *)
AlgEls(a, t) ==
  [i \in 1..Len(t) |-> El(IF a % 2 = 0 THEN G0("H") ELSE Gate("Ry", <<2 + i, 0>>), <<t[i]>>, <<>>, <<>>)]
  \o [i \in 1..(IF a >= 2 THEN Len(t) - 1 ELSE 0) |-> El(G0("X"), <<t[i + 1]>>, <<t[i]>>, <<1>>)]
  \o (IF a >= 4 THEN <<El(G0("T"), <<t[1]>>, <<>>, <<>>)>> ELSE <<>>)

(* evolution under a sum of mutually commuting groups of terms             *)
TEStride(g) == 3 + 2 * g.p[1]
TEGroup(g, i) == LET o == 2 + (i - 1) * TEStride(g) n == g.p[1] IN
  IF g.p[o + 1] = 1 THEN Gate("TE", SubSeq(g.p, o + 2, o + 3 + n)) ELSE Gate("TE2", SubSeq(g.p, o + 2, o + 3 + 2 * n))
TECodes(g, i) == LET o == 2 + (i - 1) * TEStride(g) + 3 n == g.p[1] IN
  IF g.p[o - 2] = 1 THEN {SubSeq(g.p, o + 1, o + n)} ELSE {SubSeq(g.p, o + 1, o + n), SubSeq(g.p, o + n + 1, o + 2 * n)}
GroupsCommute(g) == \A i, j \in 1..g.p[2] : i # j => \A a \in TECodes(g, i), b \in TECodes(g, j) : ~Anticommute(a, b)
TEInv(g) == [g EXCEPT !.p = [i \in 1..Len(g.p) |-> IF i > 2 /\ (i - 3) % TEStride(g) \in {1, 2} THEN 0 - g.p[i] ELSE g.p[i]]]

CompositeNames == {"TEG", "Entangle", "Entangledag", "UCRy", "UCRz", "All", "Flip", "QPE", "QAA"}
RECURSIVE Expand(_, _)
Expand(g, t) ==
  LET n == Len(t)
      CX(c, x) == El(G0("X"), <<x>>, <<c>>, <<1>>)
      RECURSIVE Sel(_, _)
      Sel(mask, i) == IF i > n THEN <<>>
                      ELSE (IF mask % 2 = 1 THEN <<El(G0("X"), <<t[i]>>, <<>>, <<>>)>> ELSE <<>>) \o Sel(mask \div 2, i + 1)
      InvEl(e) == [e EXCEPT !.g = CASE e.g.n \in {"X", "H", "Z"} -> e.g [] e.g.n = "T" -> G0("Tdag") [] e.g.n = "Tdag" -> G0("T") [] e.g.n = "M2a" -> G0("M2adag")
                                    [] e.g.n = "QFTdag" -> G0("QFT")
                                    [] OTHER -> Gate(e.g.n, [i \in 1..Len(e.g.p) |-> 0 - e.g.p[i]])]
      InvEls(es) == [i \in 1..Len(es) |-> InvEl(es[Len(es) + 1 - i])]
  IN
  CASE g.n = "Entangle" -> <<El(G0("H"), <<t[1]>>, <<>>, <<>>)>> \o [i \in 1..(n - 1) |-> CX(t[1], t[i + 1])]
    [] g.n = "Entangledag" -> [i \in 1..(n - 1) |-> CX(t[1], t[i + 1])] \o <<El(G0("H"), <<t[1]>>, <<>>, <<>>)>>
    \* p = k_0, m_0, k_1, m_1, ...: rotation angle for each value of the first n-1 targets
    [] g.n \in {"UCRy", "UCRz"} ->
         [x \in 1..Pow2(n - 1) |->
            El(Gate(IF g.n = "UCRy" THEN "Ry" ELSE "Rz", <<g.p[2 * x - 1], g.p[2 * x]>>), <<t[n]>>,
               SubSeq(t, 1, n - 1), NBits(x - 1, n - 1))]
    \* p = mask; -1 and so on: the complement
    [] g.n = "Flip" -> Sel(g.p[1] % Pow2(n), 1)
    \* p = number of ancillas, unitary, its parameters; the first ancilla becomes the most significant digit
    [] g.n = "QPE" ->
         LET na == g.p[1] sys == SubSeq(t, na + 1, n)
             RECURSIVE Us(_)
             Us(i) == IF i > na THEN <<>> ELSE UPower(g.p[2], g.p[3], g.p[4], sys, t[i], Pow2(i - 1)) \o Us(i + 1)
         IN [i \in 1..na |-> El(G0("H"), <<t[i]>>, <<>>, <<>>)] \o Us(1) \o <<El(G0("QFTdag"), [i \in 1..na |-> t[na + 1 - i]], <<>>, <<>>)>>
    \* p = algorithm, marked value: S_chi, then A S_0 A^-1, negated
    [] g.n = "QAA" ->
         LET sys == SubSeq(t, 1, n - 1) m == n - 1
             xs == [i \in 1..m |-> El(G0("X"), <<sys[i]>>, <<>>, <<>>)]
             A == AlgEls(g.p[1], sys)
         IN <<El(G0("X"), <<t[n]>>, sys, NBits(g.p[2], m))>> \o InvEls(A)
            \o <<El(Gate("Ph", <<8, 0>>), <<sys[1]>>, sys, [i \in 1..m |-> 0])>>     \* changes the sign of |0...0>
            \o A \o <<El(Gate("Ph", <<8, 0>>), <<sys[1]>>, <<>>, <<>>)>>
    \* p = n, number of groups, for each: kind, k, m, codes, codes
    [] g.n = "TEG" -> [i \in 1..g.p[2] |-> El(TEGroup(g, i), t, <<>>, <<>>)]
    [] g.n = "QPEdag" -> InvEls(Expand(Gate("QPE", g.p), t))
    [] g.n = "QAAdag" -> InvEls(Expand(Gate("QAA", g.p), t))

(* ---- state preparation: p = a_0, k_0, a_1, k_1, ...: amplitudes            *)
(* a_i zeta^k_i over the square root of the sum of squares 2^x 5^2y          *)
RECURSIVE SumSquares(_, _)
SumSquares(p, i) == IF i > Len(p) THEN 0 ELSE p[i] * p[i] + SumSquares(p, i + 2)
RECURSIVE Val(_, _)
Val(x, q) == IF x % q = 0 THEN 1 + Val(x \div q, q) ELSE 0
PrepOdd(p) == Val(SumSquares(p, 1), 2) % 2
PrepE2(p) == (Val(SumSquares(p, 1), 2) + PrepOdd(p)) \div 2
PrepE5(p) == Val(SumSquares(p, 1), 5) \div 2
PrepOk(p) == /\ Val(SumSquares(p, 1), 5) % 2 = 0
             /\ SumSquares(p, 1) = Pow2(Val(SumSquares(p, 1), 2)) * Pow5(Val(SumSquares(p, 1), 5))
PrepAmp(p, x) == LET a == <<<<p[2 * x + 1], p[2 * x + 2] % 16>>>>
                 IN IF p[2 * x + 1] = 0 THEN <<>>
                    ELSE IF PrepOdd(p) = 1 THEN [i \in 1..2 |-> <<p[2 * x + 1] * SQ2[i][1], (SQ2[i][2] + p[2 * x + 2]) % 16>>] ELSE a
ConjTerms(ts) == [i \in 1..Len(ts) |-> <<ts[i][1], (16 - ts[i][2]) % 16>>]
(* the target has to be |0...0> where the controls are on *)
PrepReady(S, tq, cq, cs) ==
  LET tp == Positions(S, tq) cp == Positions(S, cq) IN
  \A i \in DOMAIN S.v : S.v[i] # RZero /\ CtrlOn(S, i, cp, cs) => SubIdx(i, tp, 1) = 0
QApplyPrep(S, p, tq, cq, cs) ==
  LET tp == Positions(S, tq) cp == Positions(S, cq) f == Pow2(PrepE2(p)) * Pow5(PrepE5(p)) IN
  QNorm([S EXCEPT !.v = [i \in DOMAIN S.v |->
            IF CtrlOn(S, i, cp, cs) THEN LET ts == PrepAmp(p, SubIdx(i, tp, 1)) a == S.v[SetIdx(i, tp, 0, 1)]
                                         IN IF ts = <<>> \/ a = RZero THEN RZero ELSE TApply(ts, a)
            ELSE RScale(f, S.v[i])], !.e2 = @ + PrepE2(p), !.e5 = @ + PrepE5(p)])
(* the inverse: the target has to be in the prepared state *)
QUnprep(S, p, tq, cq, cs) ==
  LET tp == Positions(S, tq) cp == Positions(S, cq)
      f == Pow2(PrepE2(p)) * Pow5(PrepE5(p))
      d == Pow2(Len(tq))
      RECURSIVE Sum(_, _)
      Sum(i, x) == IF x = d THEN RZero
                   ELSE LET ts == PrepAmp(p, x) a == S.v[SetIdx(i, tp, x, 1)]
                        IN IF ts = <<>> \/ a = RZero THEN Sum(i, x + 1) ELSE RAdd(TApply(ConjTerms(ts), a), Sum(i, x + 1))
  IN QNorm([S EXCEPT !.v = [i \in DOMAIN S.v |->
            IF CtrlOn(S, i, cp, cs) THEN (IF SubIdx(i, tp, 1) = 0 THEN Sum(i, 0) ELSE RZero) ELSE RScale(f, S.v[i])],
            !.e2 = @ + PrepE2(p), !.e5 = @ + PrepE5(p)])
SameState(A, B) == A.v = B.v /\ A.e2 = B.e2 /\ A.e5 = B.e5
UnprepReady(S, p, tq, cq, cs) == LET N == QNorm(S) IN SameState(QApplyPrep(QUnprep(S, p, tq, cq, cs), p, tq, cq, cs), N)

(* matrix of the matrix-like high level gates *)
HighMatrixNames == {"QFT", "QFTdag", "QOp", "TE", "TE2"}
HighMatrix(g, n) ==
  CASE g.n = "QFT" -> MatQFT(n, 1)
    [] g.n = "QFTdag" -> MatQFT(n, -1)
    \* p = phase exponent, codes
    [] g.n = "QOp" -> MatPauli(SubSeq(g.p, 2, n + 1), g.p[1] % 16)
    \* p = k, m, codes
    [] g.n = "TE" -> MatPauliExp(SubSeq(g.p, 3, n + 2), g.p[1], g.p[2])
    \* p = k, m, codes of P, codes of Q
    [] g.n = "TE2" -> MatPauliExp2(SubSeq(g.p, 3, n + 2), SubSeq(g.p, n + 3, 2 * n + 2), g.p[1], g.p[2])

(* ---- inverses ---- *)
InvGate(g) ==
  IF g.n \in SelfInverse \cup {"Cmp"} THEN g
  ELSE IF g.n \in Rotations \/ g.n \in {"UCRy", "UCRz"} THEN Gate(g.n, [i \in 1..Len(g.p) |-> 0 - g.p[i]])
  ELSE IF g.n \in {"TE", "TE2"} THEN Gate(g.n, <<0 - g.p[1], 0 - g.p[2]>> \o SubSeq(g.p, 3, Len(g.p)))
  ELSE IF g.n = "TEG" THEN TEInv(g)
  ELSE IF g.n = "Flip" THEN g
  ELSE IF g.n = "Prep" THEN Gate("Prepdag", g.p) ELSE IF g.n = "Prepdag" THEN Gate("Prep", g.p)
  ELSE IF g.n = "QPE" THEN Gate("QPEdag", g.p) ELSE IF g.n = "QPEdag" THEN Gate("QPE", g.p)
  ELSE IF g.n = "QAA" THEN Gate("QAAdag", g.p) ELSE IF g.n = "QAAdag" THEN Gate("QAA", g.p)
  ELSE IF g.n = "QOp" THEN Gate("QOp", <<(16 - g.p[1]) % 16>> \o Tail(g.p))
  ELSE IF \E d \in DagPairs : d[1] = g.n THEN Gate((CHOOSE d \in DagPairs : d[1] = g.n)[2], g.p)
  ELSE IF \E d \in DagPairs : d[2] = g.n THEN Gate((CHOOSE d \in DagPairs : d[2] = g.n)[1], g.p)
  ELSE CASE g.n = "AddC" -> Gate("SubC", g.p) [] g.n = "SubC" -> Gate("AddC", g.p)
         [] g.n = "AddCModN" -> Gate("SubCModN", g.p) [] g.n = "SubCModN" -> Gate("AddCModN", g.p)
         [] g.n = "MulCModN" -> LET a == g.p[2] N == g.p[3] IN
              Gate("MulCModN", <<g.p[1], CHOOSE b \in 0..(N - 1) : (a * b) % N = 1 % N, N>>)
         [] g.n = "AddQc" -> Gate("AddQcdag", g.p) [] g.n = "AddQcdag" -> Gate("AddQc", g.p)
         [] g.n = "SubQ" -> Gate("SubQdag", g.p) [] g.n = "SubQdag" -> Gate("SubQ", g.p)
         [] g.n = "AddQ" -> Gate("AddQdag", g.p) [] g.n = "AddQdag" -> Gate("AddQ", g.p)
         [] g.n = "Mul" -> Gate("Muldag", g.p) [] g.n = "Muldag" -> Gate("Mul", g.p)
         [] g.n = "Div" -> Gate("Divdag", g.p) [] g.n = "Divdag" -> Gate("Div", g.p)

(* ---- application of any gate ---- *)
RECURSIVE QApplyEls(_, _, _, _)
QApplyGate(S, g, t, c, s) ==
  IF g.n \in MatrixGates THEN QApplyMat(S, MatrixOf(g), t, c, s)
  ELSE IF g.n \in HighMatrixNames THEN QApplyMat(S, HighMatrix(g, Len(t)), t, c, s)
  ELSE IF g.n \in MathGateNames THEN QApplyMath(S, g, t, c, s)
  ELSE IF g.n = "Prep" THEN QApplyPrep(S, g.p, t, c, s)
  ELSE IF g.n = "Prepdag" THEN QUnprep(S, g.p, t, c, s)
  ELSE QApplyEls(S, Expand(g, t), c, s)
QApplyEls(S, els, c, s) ==
  IF els = <<>> \/ ~QSmall(S) THEN S     \* too large for TLC's integers: not continued
  ELSE QApplyEls(QApplyMat(S, IF els[1].g.n \in HighMatrixNames THEN HighMatrix(els[1].g, Len(els[1].t)) ELSE MatrixOf(els[1].g),
                                els[1].t, els[1].c \o c, els[1].s \o s), Tail(els), c, s)

GateOk(S, g, t, c, s) == /\ g.n \in MathGateNames => MathOk(S, g, t, c, s)
                         /\ g.n = "Prep" => PrepReady(S, t, c, s)
                         /\ g.n = "Prepdag" => UnprepReady(S, g.p, t, c, s)
=============================================================================
