------------------------------- MODULE WideRuns -------------------------------
(* Draws wide circuits: a gate, what its registers hold, and the controls. *)
EXTENDS WideTable

CONSTANTS Top1,      \* largest width of a register
          TopMod,    \* ... of a modular addition
          TopMul     \* ... of a modular multiplication
GW == INSTANCE WideGoals

Between(d, i, lo, hi) == lo + (d[i] % (hi - lo + 1))
RunGate(d) ==
  LET nm == OneOf(d, 5, <<"AddC", "SubC", "AddC", "AddCModN", "SubCModN", "MulCModN", "AddQ", "AddQdag", "SubQ", "SubQdag", "AddQc", "AddQcdag",
                          "Cmp", "Mul", "Muldag", "Div", "Divdag", "QFT", "QFTdag", "QFT", "QPE", "QPEf">>)
      w == Between(d, 1, 5, Top1)
      wm == Between(d, 1, 4, TopMod)
      wx == Between(d, 1, 3, TopMul)
      n(v) == OneOf(d, 2, <<Pow2(v) - Draw(d, 3, Pow2(v - 2)), Pow2(v), Draw(d, 4, Pow2(v) - 2) + 2>>)
  IN CASE nm \in {"AddC", "SubC"} -> Gate(nm, <<w, OneOf(d, 6, <<Draw(d, 7, Pow2(w)), 0 - Draw(d, 8, Pow2(w)), d[9] % 8, Top(w)>>)>>)
       [] nm \in {"AddCModN", "SubCModN"} -> Gate(nm, <<wm, Draw(d, 7, n(wm)), n(wm)>>)
       [] nm = "MulCModN" -> Gate(nm, <<wx, NextCoprime(Draw(d, 7, n(wx)), n(wx)), n(wx)>>)
       [] nm \in {"AddQ", "AddQdag", "SubQ", "SubQdag"} -> Gate(nm, <<w, w>>)
       [] nm \in {"AddQc", "AddQcdag", "Cmp"} -> Gate(nm, <<w, w, 1>>)
       [] nm \in {"Mul", "Muldag"} -> LET k == Between(d, 1, 3, Top1 \div 2 - 1) IN Gate(nm, <<k, k, 2 * k + 1>>)
       [] nm \in {"Div", "Divdag"} -> LET k == Between(d, 1, 3, Top1 \div 2) IN Gate(nm, <<k, k, k>>)
       [] nm \in {"QFT", "QFTdag"} -> Gate(nm, <<w>>)
       [] nm = "QPE" -> LET k == Between(d, 1, 2, 7) IN Gate(nm, <<k, Draw(d, 7, Pow2(k))>>)
       [] nm = "QPEf" -> LET k == Between(d, 1, 2, Top1 - 4) IN Gate(nm, <<k, Draw(d, 7, Pow2(k))>>)
RunValues(gt, d) == IF gt.n \in MathGateNames THEN Content(gt, d, 10) ELSE IF gt.n \in {"QFT", "QFTdag"} THEN <<RegDraw(gt.p[1], d, 10)>> ELSE <<0, 1>>
RunControls(d) == [j \in 1..(d[20] % 3) |-> LET st == IF d[20 + j] % 3 = 0 THEN 0 ELSE 1 IN <<IF d[22 + j] % 4 = 0 THEN 1 - st ELSE st, st>>]
Run == \E d \in {<<RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767), RandomElement(0..32767)>>} :
         LET gt == RunGate(d)
             gl == [g |-> gt, x |-> RunValues(gt, d), c |-> RunControls(d)]
         IN /\ GW!GoalPre(gl)
            /\ PrintT(ToJson([g |-> gt, x |-> gl.x, c |-> gl.c, w |-> GW!GoalWidths(gt)]))
            /\ g' = gt /\ done' = TRUE
RunInit == g = G0("X") /\ done = FALSE
RunNext == ~done /\ Run
==============================================================================
