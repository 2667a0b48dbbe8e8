------------------------------ MODULE MathGates ------------------------------
(***************************************************************************)
(* Arithmetic gates: functions on tuples of register values.  A math gate  *)
(* g has g.p = <<w1, .., wr>> \o constants, the widths of its registers    *)
(* first; the flat target list is the concatenation of the registers, least*)
(* significant qubit first.  MathPre is the documented precondition on the *)
(* register values, MathFun the documented function.                       *)
(***************************************************************************)
EXTENDS QState

MathGateNames == {"AddC", "SubC", "AddCModN", "SubCModN", "MulCModN", "AddQ", "AddQdag", "AddQc", "AddQcdag",
                  "SubQ", "SubQdag", "Cmp", "Mul", "Muldag", "Div", "Divdag", "User", "Userdag"}
NumRegs(g) == CASE g.n \in {"AddC", "SubC", "AddCModN", "SubCModN", "MulCModN", "User", "Userdag"} -> 1
                [] g.n \in {"AddQ", "AddQdag", "SubQ", "SubQdag"} -> 2
                [] OTHER -> 3
Widths(g) == SubSeq(g.p, 1, NumRegs(g))
Const(g, i) == g.p[NumRegs(g) + i]

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
MathArity(g) == SumSeq(Widths(g))

(* register values from the packed target value, and back *)
RegVals(g, x) == [i \in 1..NumRegs(g) |->
                    (x \div Pow2(SumSeq(SubSeq(Widths(g), 1, i - 1)))) % Pow2(Widths(g)[i])]
RECURSIVE Pack(_, _, _)
Pack(g, r, i) == IF i > NumRegs(g) THEN 0
                 ELSE (r[i] % Pow2(Widths(g)[i])) * Pow2(SumSeq(SubSeq(Widths(g), 1, i - 1))) + Pack(g, r, i + 1)

Coprime(a, n) == \A k \in 2..n : ~(a % k = 0 /\ n % k = 0)
B2I(b) == IF b THEN 1 ELSE 0
(* without large intermediate results *)
RECURSIVE MulMod(_, _, _)
MulMod(a, x, n) == IF x = 0 THEN 0 ELSE (2 * MulMod(a, x \div 2, n) + (x % 2) * a) % n

MathPre(g, r) ==
  CASE g.n \in {"AddCModN", "SubCModN", "MulCModN"} -> r[1] < Const(g, 2)
    [] g.n = "Mul" -> r[3] = 0
    [] g.n = "Muldag" -> r[3] = r[1] * r[2]
    [] g.n = "Div" -> r[2] = 0 /\ r[3] > 0 /\ r[1] >= r[3]
    [] g.n = "Divdag" -> r[3] > 0 /\ r[2] > 0 /\ r[1] < r[3] /\ r[1] + r[2] * r[3] < Pow2(Widths(g)[1])
    [] OTHER -> TRUE

MathFun(g, r) ==
  LET w == Widths(g) IN
  CASE g.n = "AddC" -> <<r[1] + Const(g, 1)>>
    [] g.n = "SubC" -> <<r[1] - Const(g, 1)>>
    [] g.n = "AddCModN" -> <<(r[1] + Const(g, 1)) % Const(g, 2)>>
    [] g.n = "SubCModN" -> <<(r[1] - Const(g, 1)) % Const(g, 2)>>
    [] g.n = "MulCModN" -> <<MulMod(Const(g, 1), r[1], Const(g, 2))>>
    [] g.n \in {"AddQ", "SubQdag"} -> <<r[1], r[2] + r[1]>>
    [] g.n \in {"SubQ", "AddQdag"} -> <<r[1], r[2] - r[1]>>
    \* with carry: the carry qubit is flipped when the sum overflows
    [] g.n = "AddQc" -> <<r[1], r[2] + r[1], r[3] + B2I(r[1] + r[2] >= Pow2(w[2]))>>
    [] g.n = "AddQcdag" -> <<r[1], r[2] - r[1], r[3] + B2I(r[2] < r[1])>>
    [] g.n = "Cmp" -> <<r[1], r[2], r[3] + B2I(r[1] > r[2])>>
    [] g.n = "Mul" -> <<r[1], r[2], r[3] + r[1] * r[2]>>
    [] g.n = "Muldag" -> <<r[1], r[2], r[3] - r[1] * r[2]>>
    \* (dividend, 0, divisor) -> (remainder, quotient, divisor)
    [] g.n = "Div" -> IF r[3] = 0 THEN <<r[1], r[2], 0>> ELSE <<r[1] % r[3], r[1] \div r[3], r[3]>>
    [] g.n = "Divdag" -> IF r[3] = 0 THEN <<r[1], r[2], 0>> ELSE <<r[1] + r[2] * r[3], 0, r[3]>>
    \* a user-defined BasicMathGate: x -> 5 x + c (a bijection modulo 2^w)
    [] g.n = "User" -> <<5 * r[1] + Const(g, 1)>>
    [] g.n = "Userdag" -> <<205 * (r[1] - Const(g, 1))>>

MathImage(g, x) == Pack(g, MathFun(g, RegVals(g, x)), 1)

(* The precondition has to hold on the whole support of the state: the    *)
(* circuits prepare and undo intermediate results also where the controls  *)
(* are off.                                                                *)
MathOk(S, g, tq, cq, cs) ==
  LET tp == Positions(S, tq) IN
  \A i \in DOMAIN S.v : S.v[i] # RZero => MathPre(g, RegVals(g, SubIdx(i, tp, 1)))

(* The image of every basis state of the support; the functions are        *)
(* injective where their precondition holds.                               *)
QApplyMath(S, g, tq, cq, cs) ==
  LET tp == Positions(S, tq)
      cp == Positions(S, cq)
      D == {i \in DOMAIN S.v : S.v[i] # RZero}
      img == [i \in D |-> IF CtrlOn(S, i, cp, cs)
                          THEN SetIdx(i, tp, MathImage(g, SubIdx(i, tp, 1)), 1) ELSE i]
      R == {img[i] : i \in D}
  IN [S EXCEPT !.v = [j \in DOMAIN S.v |-> IF j \in R THEN S.v[CHOOSE i \in D : img[i] = j] ELSE RZero]]
=============================================================================
