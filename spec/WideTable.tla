------------------------------ MODULE WideTable ------------------------------
(***************************************************************************)
(* Arithmetic gates on registers that are too wide to list every content:  *)
(* a gate, and its value on the corner cases and some drawn contents.      *)
(***************************************************************************)
EXTENDS MathTable

CONSTANTS Lo, Hi       \* widths of a one-register gate

(* every choice is derived from the draws d *)
Draw(d, i, n) == ((d[i] % 32768) * 32768 + ((d[i] * 7919 + d[i + 1]) % 32768)) % n
Top(w) == Pow2(w) - 1
OneOf(d, i, s) == s[1 + (d[i] % Len(s))]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE NextCoprime(_, _)
NextCoprime(a, n) == IF Gcd(a, n) = 1 THEN a ELSE NextCoprime((a + 1) % n, n)

WideGate(d) ==
  LET w == Lo + (d[1] % (Hi - Lo + 1))
      n == OneOf(d, 2, <<Pow2(w) - Draw(d, 3, Pow2(w - 2)), Pow2(w), Draw(d, 4, Pow2(w) - 2) + 2>>)
      h == w \div 2
      k == w \div 4
      t == w \div 3
      nm == OneOf(d, 5, <<"AddC", "SubC", "AddCModN", "SubCModN", "MulCModN", "MulCModN", "User", "AddQ", "AddQdag", "SubQ", "SubQdag", "AddQc", "AddQcdag",
                          "Cmp", "Mul", "Muldag", "Div", "Divdag">>)
  IN CASE nm \in {"AddC", "SubC"} -> Gate(nm, <<w, OneOf(d, 6, <<Draw(d, 7, Pow2(w)), 0 - Draw(d, 8, Pow2(w)), d[9] % 8, Top(w)>>)>>)
       [] nm = "User" -> Gate(nm, <<w, Draw(d, 7, Pow2(w))>>)
       [] nm \in {"AddCModN", "SubCModN"} -> Gate(nm, <<w, Draw(d, 7, n), n>>)
       [] nm = "MulCModN" -> Gate(nm, <<w, NextCoprime(Draw(d, 7, n), n), n>>)
       [] nm \in {"AddQ", "AddQdag", "SubQ", "SubQdag"} -> Gate(nm, <<h, h>>)
       [] nm \in {"AddQc", "AddQcdag", "Cmp"} -> Gate(nm, <<h, h, 1>>)
       [] nm \in {"Mul", "Muldag"} -> Gate(nm, <<k, k, 2 * k + 1>>)
       [] nm \in {"Div", "Divdag"} -> Gate(nm, <<t, t, t>>)

(* register contents that meet the precondition *)
RegDraw(w, d, i) == OneOf(d, i, <<0, 1 % Pow2(w), Top(w), Pow2(w - 1), Draw(d, i + 1, Pow2(w)), Draw(d, i + 1, Pow2(w)), Draw(d, i + 1, Pow2(w))>>)
Content(gt, d, o) ==
  LET w == Widths(gt) r == [i \in 1..Len(w) |-> RegDraw(w[i], d, o + 2 * i)] IN
  CASE gt.n \in {"AddCModN", "SubCModN", "MulCModN"} -> <<OneOf(d, o, <<r[1] % Const(gt, 2), r[1] % Const(gt, 2), Const(gt, 2) - 1, 0>>)>>
    [] gt.n = "Mul" -> <<r[1], r[2], 0>>
    [] gt.n = "Muldag" -> <<r[1], r[2], r[1] * r[2]>>
    [] gt.n = "Div" -> LET q == IF r[3] = 0 THEN 1 ELSE r[3] IN <<IF r[1] < q THEN q ELSE r[1], 0, q>>
    [] gt.n = "Divdag" -> LET q == IF r[3] = 0 THEN 1 ELSE r[3] a == IF r[1] < q THEN q ELSE r[1] IN <<a % q, a \div q, q>>
    [] OTHER -> r
WidePairs(gt, d) == LET C == {Content(gt, d, o) : o \in {10, 18, 26, 34, 42, 50}} IN Pairs(gt, {Pack(gt, c, 1) : c \in {x \in C : MathPre(gt, x)}})

Row == \E d \in {<<RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767)>>} :
         LET gt == WideGate(d) m == WidePairs(gt, d) h == InvGate(gt) IN
         /\ m # <<>>
         /\ Assert(gt.n \in {"User", "MulCModN"} \/ \A i \in 1..Len(m) : MathPre(h, RegVals(h, m[i][2])) /\ Image(h, m[i][2]) = m[i][1], <<gt, m>>)
         /\ PrintT(ToJson([g |-> gt, m |-> m]))
         /\ g' = gt /\ done' = done
WInit == g = G0("X") /\ done = FALSE
WNext == ~done /\ Row
==============================================================================
