------------------------------ MODULE WideGoals ------------------------------
(***************************************************************************)
(* What the wide circuits have to end in: arithmetic on basis states, the  *)
(* Fourier transform of a basis state and its inverse, and the estimation  *)
(* of a phase that the ancillas can represent.                             *)
(*   goal: [g |-> gate, x |-> register values, c |-> <<bit, state>>, ...]  *)
(***************************************************************************)
EXTENDS MathGates

(* digits of x, least significant first *)
Digits(x, w) == [i \in 1..w |-> (x \div Pow2(i - 1)) % 2]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
BitsOf(r, ws) == Flat([i \in 1..Len(ws) |-> Digits(r[i] % Pow2(ws[i]), ws[i])])

GoalWidths(g) == CASE g.n \in {"QFT", "QFTdag"} -> <<g.p[1]>> [] g.n \in {"QPE", "QPEf"} -> <<g.p[1], 1>> [] OTHER -> Widths(g)
GoalPre(gl) == gl.g.n \notin MathGateNames \/ MathPre(gl.g, gl.x)
(* what a qubit is: <<kind, value>> with phases in units of 2 pi / 2^u *)
Basis(s) == [i \in 1..Len(s) |-> [s |-> "b", v |-> s[i]]]
Waves(x, w, u) == [i \in 1..w |-> [s |-> "p", v |-> (x % Pow2(i)) * Pow2(u - i)]]
RECURSIVE Mirror(_)
Mirror(s) == IF s = <<>> THEN <<>> ELSE Append(Mirror(Tail(s)), s[1])
Before(gl, u) == IF gl.g.n = "QFTdag" THEN Waves(gl.x[1], gl.g.p[1], u)
                 ELSE IF gl.g.n \in {"QPE", "QPEf"} THEN Basis(Digits(0, gl.g.p[1]) \o <<1>>)
                 ELSE Basis(BitsOf(gl.x, GoalWidths(gl.g)))
On(gl) == \A j \in 1..Len(gl.c) : gl.c[j][1] = gl.c[j][2]
After(gl, u) ==
  IF ~On(gl) THEN Before(gl, u)
  ELSE CASE gl.g.n = "QFT" -> Waves(gl.x[1], gl.g.p[1], u)
         [] gl.g.n = "QFTdag" -> Basis(Digits(gl.x[1], gl.g.p[1]))
         \* the phase p[2] / 2^p[1], most significant digit first
         [] gl.g.n \in {"QPE", "QPEf"} -> Basis(Mirror(Digits(gl.g.p[2], gl.g.p[1])) \o <<1>>)
         [] OTHER -> Basis(BitsOf(MathFun(gl.g, gl.x), Widths(gl.g)))
==============================================================================
