------------------------------- MODULE QState -------------------------------
(***************************************************************************)
(* Pure states of the live qubits, exactly.                                *)
(*   ids : sequence of qubit ids; ids[i] is bit i-1 of a basis index       *)
(*   v   : basis index -> ring element, common denominator 2^e2 5^e5       *)
(***************************************************************************)
EXTENDS Gates

Pow2(i) == CASE i = 0 -> 1 [] i = 1 -> 2 [] i = 2 -> 4 [] i = 3 -> 8 [] i = 4 -> 16 [] i = 5 -> 32
             [] i = 6 -> 64 [] i = 7 -> 128 [] i = 8 -> 256 [] i = 9 -> 512 [] i = 10 -> 1024
             [] OTHER -> 2 ^ i
Bit(x, i) == (x \div Pow2(i)) % 2

QEmpty == [ids |-> <<>>, v |-> [i \in 0..0 |-> ROne], e2 |-> 0, e5 |-> 0]

PosOf(S, q) == (CHOOSE i \in 1..Len(S.ids) : S.ids[i] = q) - 1
QHas(S, q) == \E i \in 1..Len(S.ids) : S.ids[i] = q

(* Remove common factors of the denominator. *)
RECURSIVE QNorm(_)
QNorm(S) ==
  IF S.e2 > 0 /\ \A i \in DOMAIN S.v : RDivisible(2, S.v[i])
  THEN QNorm([S EXCEPT !.v = [i \in DOMAIN S.v |-> RDiv(2, S.v[i])], !.e2 = @ - 1])
  ELSE IF S.e5 > 0 /\ \A i \in DOMAIN S.v : RDivisible(5, S.v[i])
  THEN QNorm([S EXCEPT !.v = [i \in DOMAIN S.v |-> RDiv(5, S.v[i])], !.e5 = @ - 1])
  ELSE S

QSize(S) == LET mx == {RMaxAbs(S.v[i]) : i \in DOMAIN S.v} IN CHOOSE x \in mx : \A y \in mx : y <= x
(* TLC's integers have 32 bits: states this large are not explored further *)
QSmall(S) == \A i \in DOMAIN S.v : RMaxAbs(S.v[i]) < 200000

QAlloc(S, q) ==
  LET n == Len(S.ids) IN
  [S EXCEPT !.ids = Append(@, q),
            !.v = [i \in 0..(Pow2(n + 1) - 1) |-> IF i < Pow2(n) THEN S.v[i] ELSE RZero]]

(* is the qubit in a computational basis state, and in which *)
QClassical(S, q) ==
  LET b == PosOf(S, q) IN
  IF \A i \in DOMAIN S.v : Bit(i, b) = 1 => S.v[i] = RZero THEN 0
  ELSE IF \A i \in DOMAIN S.v : Bit(i, b) = 0 => S.v[i] = RZero THEN 1
  ELSE 2

InsBit(x, b, v) == (x \div Pow2(b)) * Pow2(b + 1) + v * Pow2(b) + (x % Pow2(b))

(* deallocation of a qubit known to be classical *)
QDealloc(S, q) ==
  LET b == PosOf(S, q)
      c == QClassical(S, q)
      n == Len(S.ids)
  IN [S EXCEPT !.ids = SubSeq(S.ids, 1, b) \o SubSeq(S.ids, b + 2, n),
               !.v = [i \in 0..(Pow2(n - 1) - 1) |-> S.v[InsBit(i, b, c)]]]

CtrlOn(S, idx, cpos, cs) == \A j \in 1..Len(cpos) : Bit(idx, cpos[j]) = cs[j]

(* value of the target bits, target 1 least significant *)
RECURSIVE SubIdx(_, _, _)
SubIdx(idx, tpos, j) == IF j > Len(tpos) THEN 0
                        ELSE Bit(idx, tpos[j]) * Pow2(j - 1) + SubIdx(idx, tpos, j + 1)
RECURSIVE SetIdx(_, _, _, _)
SetIdx(idx, tpos, val, j) ==
  IF j > Len(tpos) THEN idx
  ELSE SetIdx(idx + (Bit(val, j - 1) - Bit(idx, tpos[j])) * Pow2(tpos[j]), tpos, val, j + 1)

Positions(S, qs) == [i \in 1..Len(qs) |-> PosOf(S, qs[i])]

QApplyMat(S, M, tq, cq, cs) ==
  LET tp == Positions(S, tq)
      cp == Positions(S, cq)
      d == Len(M.e)
      f == Pow2(M.d2) * Pow5(M.d5)
      RECURSIVE Sum(_, _, _)
      Sum(idx, row, j) ==
        IF j > d THEN RZero
        ELSE LET a == S.v[SetIdx(idx, tp, j - 1, 1)] IN
             IF Len(M.e[row][j]) = 0 \/ a = RZero THEN Sum(idx, row, j + 1)
             ELSE RAdd(TApply(M.e[row][j], a), Sum(idx, row, j + 1))
      w == [i \in DOMAIN S.v |->
              IF CtrlOn(S, i, cp, cs) THEN Sum(i, SubIdx(i, tp, 1) + 1, 1)
              ELSE IF f = 1 THEN S.v[i] ELSE RScale(f, S.v[i])]
  IN QNorm([S EXCEPT !.v = w, !.e2 = @ + M.d2, !.e5 = @ + M.d5])

(* a permutation of the target values: f[x] is the image of x *)
QApplyPerm(S, f, tq, cq, cs) ==
  LET tp == Positions(S, tq)
      cp == Positions(S, cq)
      inv == [y \in DOMAIN f |-> CHOOSE x \in DOMAIN f : f[x] = y]
  IN [S EXCEPT !.v = [i \in DOMAIN S.v |->
        IF CtrlOn(S, i, cp, cs) THEN S.v[SetIdx(i, tp, inv[SubIdx(i, tp, 1)], 1)] ELSE S.v[i]]]

(* Probability that the qubits qs read bits bs: a ring element over 2^(2 e2) 5^(2 e5). *)
RECURSIVE SumNorm(_, _, _)
SumNorm(S, D, acc) ==
  IF D = {} THEN acc
  ELSE LET i == CHOOSE x \in D : TRUE IN SumNorm(S, D \ {i}, RAdd(acc, RMul(S.v[i], RConj(S.v[i]))))
QProb(S, qs, bs) ==
  LET p == Positions(S, qs)
      D == {i \in DOMAIN S.v : CtrlOn(S, i, p, bs) /\ S.v[i] # RZero}
  IN SumNorm(S, D, RZero)

(* Projection onto an outcome, WITHOUT renormalisation: the norm of a spec *)
(* state is the product of the probabilities of the outcomes so far; the   *)
(* conformance harness normalises before it compares.                      *)
QProject(S, q, r) ==
  LET b == PosOf(S, q) IN
  QNorm([S EXCEPT !.v = [i \in DOMAIN S.v |-> IF Bit(i, b) = r THEN S.v[i] ELSE RZero]])
=============================================================================
