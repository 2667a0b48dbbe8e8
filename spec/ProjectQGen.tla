---------------------------- MODULE ProjectQGen ----------------------------
(***************************************************************************)
(* Random walks of the ProjectQ machine, printed as programs with the      *)
(* predicted observations (one JSON array of events per behaviour).  Every *)
(* choice is derived from the draws d, so `tlc -simulate -seed S` is       *)
(* deterministic.  Profile selects which actions and gates are drawn; the  *)
(* machine itself is the unrestricted one of module ProjectQ.              *)
(***************************************************************************)
EXTENDS ProjectQ, TLC, TLCExt, Json

CONSTANTS Steps, Profile

VARIABLES step, done
gvars == <<st, frames, live, nid, meas, hist, flat, step, done>>

(* ----------------------- weighted choice of actions --------------------- *)
Weights ==
  CASE Profile = "sim" -> << <<"alloc", 4>>, <<"dealloc", 3>>, <<"gate", 26>>, <<"all", 1>>, <<"measure", 2>>, <<"flush", 3>> >>
    [] Profile = "simwide" -> << <<"alloc", 5>>, <<"gate", 20>>, <<"flush", 2>> >>
    [] Profile = "meas" -> << <<"alloc", 5>>, <<"dealloc", 3>>, <<"gate", 16>>, <<"bad", 1>>, <<"measure", 8>>, <<"flush", 2>> >>
    [] Profile = "measmap" -> << <<"alloc", 5>>, <<"dealloc", 3>>, <<"gate", 16>>, <<"measure", 6>>, <<"flush", 2>> >>
    [] Profile \in {"query", "querymap"} -> << <<"alloc", 6>>, <<"dealloc", 1>>, <<"gate", 20>>, <<"prob", 4>>, <<"amp", 4>>, <<"expect", 6>>,
                               <<"collapse", 2>>, <<"qop", 3>>, <<"setwf", 2>>, <<"bad", 2>>, <<"measure", 1>>, <<"flush", 1>> >>
    [] Profile = "meta" -> << <<"alloc", 3>>, <<"gate", 16>>, <<"open", 8>>, <<"close", 8>>, <<"anc", 3>>, <<"pair", 2>>, <<"dealloc", 1>>, <<"flush", 1>> >>
    [] Profile = "dagger" -> << <<"alloc", 3>>, <<"gate", 16>>, <<"odagger", 6>>, <<"open", 2>>, <<"close", 8>>, <<"anc", 3>>, <<"pair", 2>>, <<"flush", 1>> >>
    [] Profile = "control" -> << <<"alloc", 3>>, <<"gate", 16>>, <<"ocontrol", 6>>, <<"open", 2>>, <<"close", 8>>, <<"anc", 2>>, <<"pair", 2>>, <<"flush", 1>> >>
    [] Profile = "compute" -> << <<"alloc", 3>>, <<"gate", 16>>, <<"ocompute", 7>>, <<"open", 2>>, <<"close", 8>>, <<"anc", 2>>, <<"pair", 2>>, <<"flush", 1>> >>
    [] Profile = "loop" -> << <<"alloc", 3>>, <<"gate", 16>>, <<"oloop", 6>>, <<"open", 2>>, <<"close", 8>>, <<"anc", 2>>, <<"pair", 2>>, <<"flush", 1>> >>
    [] Profile \in {"opt", "optdec"} -> << <<"alloc", 2>>, <<"dealloc", 1>>, <<"gate", 14>>, <<"echo", 22>>, <<"measure", 1>>, <<"flush", 1>> >>
    [] Profile = "optop" -> << <<"alloc", 2>>, <<"gate", 12>>, <<"echo", 24>>, <<"flush", 1>> >>
    [] Profile = "dec" -> << <<"alloc", 3>>, <<"gate", 12>>, <<"echo", 1>>, <<"flush", 3>> >>
    [] Profile = "decwide" -> << <<"alloc", 9>>, <<"all", 3>>, <<"gate", 10>>, <<"flush", 1>> >>
    [] Profile \in {"setup", "setup1"} -> << <<"alloc", 3>>, <<"dealloc", 1>>, <<"gate", 14>>, <<"echo", 5>>, <<"measure", 2>>, <<"flush", 1>> >>
    [] Profile \in {"setupjob", "setupjob2", "setupcx"} -> << <<"alloc", 3>>, <<"gate", 14>>, <<"echo", 5>> >>
    [] Profile \in {"te", "tec"} -> << <<"alloc", 3>>, <<"gate", 12>>, <<"echo", 3>>, <<"odagger", 1>>, <<"oloop", 1>>, <<"ocompute", 1>>, <<"close", 3>>, <<"flush", 3>> >>
    [] Profile = "high" -> << <<"alloc", 5>>, <<"gate", 12>>, <<"prep", 6>>, <<"echo", 6>>, <<"open", 1>>, <<"close", 2>>, <<"all", 2>>, <<"flush", 3>> >>
    [] Profile = "highmeta" -> << <<"alloc", 5>>, <<"gate", 12>>, <<"prep", 2>>, <<"echo", 6>>, <<"open", 8>>, <<"close", 7>>, <<"all", 2>>, <<"flush", 1>> >>
    [] Profile = "math" -> << <<"alloc", 6>>, <<"gate", 6>>, <<"math", 14>>, <<"echo", 1>>, <<"open", 1>>, <<"close", 2>>, <<"flush", 2>> >>
    [] Profile = "classical" -> << <<"alloc", 6>>, <<"dealloc", 1>>, <<"gate", 8>>, <<"math", 12>>, <<"write", 2>>, <<"echo", 2>>, <<"measure", 1>>, <<"flush", 2>> >>
    [] Profile = "unitary" -> << <<"alloc", 3>>, <<"dealloc", 1>>, <<"measure", 1>>, <<"gate", 20>>, <<"all", 1>>, <<"flush", 2>> >>

TotalW == SumSeq([i \in 1..Len(Weights) |-> Weights[i][2]])
RECURSIVE PickW(_, _)
PickW(r, i) == IF r < Weights[i][2] THEN Weights[i][1] ELSE PickW(r - Weights[i][2], i + 1)

(* New qubits mostly start in a superposition: in computational basis states *)
(* the phases between the branches of a control do not show.                *)
Spread == Profile \notin {"classical", "math", "unitary", "simwide", "decwide", "setupcx"}

(* ------------------------------- gates ---------------------------------- *)
Single == <<"X", "Y", "Z", "H", "S", "Sdag", "T", "Tdag", "SqrtX", "SqrtXdag", "Rx", "Ry", "Rz", "R", "Ph", "I">>
GateSeq ==
  CASE Profile \in {"sim", "meas", "query", "unitary"} ->
         Single \o <<"H", "H", "X", "X", "Rx", "Ry", "Rz", "M1", "M1dag", "Rxx", "Ryy", "Rzz", "Swap", "SqrtSwap", "SqrtSwapdag",
                     "M2a", "M2adag", "M2b", "M2b", "M3", "M3dag">>
    [] Profile = "simwide" -> <<"H", "T", "X", "Ry", "M1", "M2a", "M2b", "M2bdag", "M3", "M3dag", "M4", "M4", "M4dag", "M5", "M5", "M5dag">>
    [] Profile \in {"querymap", "measmap"} -> Single \o <<"H", "H", "X", "X", "Ry", "Rx", "Swap", "SqrtSwap", "M1">>
    [] Profile \in {"meta", "dagger", "control", "compute", "loop"} ->
         Single \o <<"H", "X", "X", "Rxx", "Rzz", "Swap", "SqrtSwap", "M1", "M2a">>
    [] Profile = "opt" -> <<"X", "Y", "Z", "H", "S", "Sdag", "T", "Tdag", "SqrtX", "Rx", "Ry", "Rz", "R", "Ph", "Rx", "Ry", "Rz", "R",
                            "Rxx", "Ryy", "Rzz", "Swap", "SqrtSwap", "M1", "M2a", "X", "X", "TE", "I">>
    [] Profile = "optdec" -> <<"X", "H", "T", "S", "Rz", "Ry", "Swap", "UCRy", "UCRz", "UCRy", "QFT", "QFTdag", "Entangle", "TE", "QOp", "SqrtX", "SqrtSwap">>
    [] Profile = "optop" -> <<"X", "H", "T", "Rz", "Swap", "UCRy", "UCRz", "UCRy", "QFT", "QFTdag", "Entangle", "TE", "TE", "QOp", "QOp", "Flip">>
    [] Profile = "dec" -> Single \o <<"Rx", "Ry", "Rz", "R", "Ph", "Rxx", "Ryy", "Rzz", "Swap", "SqrtSwap", "SqrtSwapdag", "M1", "M1dag",
                            "QFT", "QFTdag", "Entangle", "UCRy", "UCRz", "TE", "QOp">>
    [] Profile = "decwide" -> <<"X", "X", "X", "H", "Z", "T", "Rx", "Ry", "Rz", "Ph", "R", "S", "SqrtX", "Swap", "Y">>
    [] Profile \in {"setup", "setupjob"} -> Single \o <<"X", "X", "X", "Swap", "Swap", "SqrtSwap", "H", "Rz", "Ry", "M1", "M1", "QFT", "QFTdag", "Entangle", "UCRy", "UCRz", "TE">>
    [] Profile = "setupjob2" -> Single \o <<"X", "X", "X", "Swap", "Rxx", "Ryy", "Rzz", "Rxx", "Rzz", "M1">>
    [] Profile = "setupcx" -> Single \o <<"X", "X", "X", "X", "X", "M1">>
    [] Profile = "setup1" -> Single \o <<"Rx", "Ry", "Rz", "R", "Swap", "Swap", "Swap", "QOp", "M1">>
    [] Profile = "te" -> <<"TE", "TE", "TE2", "TE2", "TEG", "TEG", "TEG", "TEG", "QOp", "QOp", "H", "X", "T", "Ry">>
    [] Profile = "tec" -> <<"TE", "TE", "TE", "TEG", "TEG", "TEG", "TEG", "QOp", "QOp", "H", "H", "X", "T", "Ry">>
    [] Profile \in {"high", "highmeta"} -> <<"QFT", "QFT", "QFTdag", "QFTdag", "Entangle", "Entangle", "Entangledag", "UCRy", "UCRy", "UCRz", "UCRz", "H", "X", "T", "Ry",
                             "Swap", "Flip", "Flip", "QPE", "QPE", "QPE", "QAA", "QAA", "QAA">>
    [] Profile = "math" -> <<"H", "X", "X", "X", "T", "Ry">>
    [] Profile = "classical" -> <<"X">>

MathSeq == IF Profile = "classical"
           THEN <<"AddC", "AddC", "SubC", "AddCModN", "SubCModN", "MulCModN", "User", "AddQ", "AddQdag", "SubQ", "SubQdag", "AddQc", "AddQcdag", "Cmp", "Mul", "Muldag",
                  "Div", "Divdag">>
           ELSE <<"AddC", "SubC", "AddCModN", "SubCModN", "MulCModN", "AddQ", "AddQdag", "AddQc", "AddQcdag", "SubQ", "SubQdag", "Cmp", "Mul", "Mul", "Muldag",
                  "Div", "Div", "Divdag">>

MaxC == CASE Profile \in {"sim", "meas", "query", "opt", "optdec", "meta", "control", "dagger", "compute", "loop", "unitary", "classical"} -> 3
          [] Profile = "math" -> 2
          [] Profile = "decwide" -> 5
          [] Profile \in {"setup", "setupjob", "setupjob2", "dec", "high", "highmeta", "te", "tec", "simwide", "querymap", "measmap"} -> 2
          [] Profile \in {"optop", "setupcx", "setup1"} -> 1
(* how often a gate gets controls at all, out of 10 *)
CtlRate == CASE Profile = "setup1" -> 0 [] Profile \in {"meta", "dagger", "compute", "loop", "high", "highmeta", "te", "tec"} -> 3 [] Profile = "control" -> 3 [] Profile = "decwide" -> 8 [] OTHER -> 5

(* small pseudo-random numbers out of one draw *)
Mix(x, i) == ((x * 211 + i * 7919 + 31) % 30011)
Mod(a, n) == ((a % n) + n) % n
AngK(x, i) == (Mix(x, i) % 33) - 16
AngM(x, i) == LET r == Mix(x, i + 50) % 8 IN CASE r = 0 -> 1 [] r = 1 -> -1 [] r = 2 -> 2 [] OTHER -> 0

RECURSIVE PickSeq(_, _, _)
PickSeq(s, n, x) ==
  IF n = 0 THEN <<>>
  ELSE LET i == (x % Len(s)) + 1
       IN <<s[i]>> \o PickSeq(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)), n - 1, Mix(x, n))

(* gate of the given name; w = available width *)
MkGate(nm, w, x) ==
  LET pick(lo, hi, i) == lo + (Mix(x, i) % (hi - lo + 1)) IN
  CASE nm \in Rotations -> Gate(nm, <<AngK(x, 1), AngM(x, 1)>>)
    [] nm \in {"QFT", "QFTdag", "Entangle", "Entangledag"} -> Gate(nm, <<>>)
    [] nm = "Flip" -> Gate(nm, <<pick(-9, 15, 1)>>)
    [] nm = "QPE" -> LET u == pick(0, 7, 1) na == pick(1, IF w >= 5 /\ USize(u) = 1 THEN 4 ELSE IF w >= 4 THEN 3 ELSE 2, 2)
                     IN Gate(nm, <<na, u, IF Mix(x, 5) % 2 = 0 THEN 2 * AngK(x, 3) ELSE AngK(x, 3), IF na < 3 THEN AngM(x, 4) ELSE 0>>)
    [] nm = "QAA" -> Gate(nm, <<pick(0, 5, 1), pick(0, 7, 2)>>)
    [] nm \in {"UCRy", "UCRz"} ->
         LET n == pick(1, IF Profile \in {"high", "highmeta"} THEN 4 ELSE 3, 1) IN Gate(nm, [i \in 1..(2 * Pow2(n - 1)) |-> IF i % 2 = 1 THEN AngK(x, i) ELSE IF n <= 2 /\ Mix(x, i) % 4 = 0 THEN 1 ELSE 0])
    [] nm \in {"TE", "QOp"} ->
         LET n == pick(1, 3, 1) c == [i \in 1..n |-> Mix(x, 2 + i) % 4]
         IN IF nm = "TE" THEN Gate(nm, <<AngK(x, 1), AngM(x, 1)>> \o c) ELSE Gate(nm, <<Mix(x, 1) % 16>> \o c)
    [] nm = "TE2" ->
         LET n == pick(1, 3, 1) p == [i \in 1..n |-> Mix(x, 2 + i) % 4]
             q == [i \in 1..n |-> Mix(x, 7 + i) % 4]
             q2 == IF Anticommute(p, q) THEN q ELSE [q EXCEPT ![1] = IF p[1] = 0 THEN 1 ELSE (p[1] % 3) + 1]
             p2 == IF Anticommute(p, q2) THEN p ELSE [p EXCEPT ![1] = IF q2[1] = 3 THEN 1 ELSE 3]
         IN IF Anticommute(p2, q2) THEN Gate(nm, <<AngK(x, 1), AngM(x, 1)>> \o p2 \o q2) ELSE Gate("TE", <<AngK(x, 1), 0>> \o p)
    [] nm = "TEG" ->
         LET n == IF w < 1 THEN 1 ELSE pick(1, IF w > 4 THEN 4 ELSE w, 1)
             style == Mix(x, 60) % 3
             code(i, j, y) == LET r == Mix(x, 20 * i + j + y) IN IF style < 2 THEN (IF r % 3 = 0 THEN 0 ELSE (IF style = 0 THEN 3 ELSE 1 + (Mix(x, j + 70) % 3))) ELSE r % 4
             ps(i, y) == [j \in 1..n |-> code(i, j, y)]
             two(i) == Profile = "te" /\ Mix(x, 80 + i) % 3 = 0
             q(i) == LET a == ps(i, 0) j == 1 + (Mix(x, 90 + i) % n) IN [a EXCEPT ![j] = IF a[j] = 0 THEN 1 ELSE (a[j] % 3) + 1]
             grp(i) == IF two(i) /\ Anticommute(ps(i, 0), q(i)) THEN <<2, AngK(x, i), AngM(x, i)>> \o ps(i, 0) \o q(i)
                       ELSE <<1, AngK(x, i), AngM(x, i)>> \o ps(i, 0) \o [j \in 1..n |-> 0]
             RECURSIVE Add(_, _)
             Add(g, i) == IF i > 3 THEN g ELSE LET h == Gate("TEG", <<n, g.p[2] + 1>> \o SubSeq(g.p, 3, Len(g.p)) \o grp(i))
                                               IN Add(IF GroupsCommute(h) THEN h ELSE g, i + 1)
         IN IF Mix(x, 61) % 12 = 0 THEN Gate("TEG", <<n, 0>>) ELSE Add(Gate("TEG", <<n, 0>>), 1)
    [] OTHER -> G0(nm)

(* number of targets; for the gates of any width it is drawn *)
GateArity(g, x) ==
  CASE g.n \in MatrixGates -> MatArity(g.n)
    [] g.n \in {"QFT", "QFTdag"} -> 1 + (x % (IF Profile \in {"high", "highmeta"} THEN 4 ELSE 3))
    [] g.n \in {"Entangle", "Entangledag"} -> 1 + (x % (IF Profile \in {"high", "highmeta"} THEN 5 ELSE 4))
    [] g.n \in {"UCRy", "UCRz"} -> (CASE Len(g.p) = 2 -> 1 [] Len(g.p) = 4 -> 2 [] Len(g.p) = 8 -> 3 [] Len(g.p) = 16 -> 4)
    [] g.n = "Flip" -> 1 + (x % 4)
    [] g.n = "QPE" -> g.p[1] + USize(g.p[2])
    [] g.n = "QAA" -> 2 + (x % 3)
    [] g.n = "TE" -> Len(g.p) - 2
    [] g.n = "TEG" -> g.p[1]
    [] g.n = "QOp" -> Len(g.p) - 1
    [] g.n = "TE2" -> (Len(g.p) - 2) \div 2

MkMath(nm, w, x) ==     \* w >= 1 qubits available
  LET pick(lo, hi, i) == IF hi <= lo THEN lo ELSE lo + (Mix(x, i) % (hi - lo + 1))
      n1 == pick(1, w, 1)
      h == pick(1, w \div 2, 2)
      g3 == (w - 1) \div 3
  IN
  CASE nm = "AddC" -> Gate(nm, <<n1, (Mix(x, 3) % (2 * Pow2(n1) + 3)) - Pow2(n1)>>)
    [] nm = "SubC" -> Gate(nm, <<n1, (Mix(x, 3) % (2 * Pow2(n1) + 3)) - Pow2(n1)>>)
    [] nm = "User" -> Gate(nm, <<n1, Mix(x, 3) % Pow2(n1)>>)
    [] nm \in {"AddCModN", "SubCModN"} ->
         LET N == pick(1, Pow2(n1), 4) IN Gate(nm, <<n1, Mix(x, 3) % N, N>>)
    [] nm = "MulCModN" ->
         LET N == pick(2, Pow2(n1), 4) S == {a \in 1..(N - 1) : Coprime(a, N)}
             RECURSIVE Nth(_, _)
             Nth(T, i) == LET mn == CHOOSE a \in T : \A b \in T : a <= b IN IF i = 0 THEN mn ELSE Nth(T \ {mn}, i - 1)
         IN Gate(nm, <<n1, Nth(S, Mix(x, 3) % Cardinality(S)), N>>)
    [] nm \in {"AddQ", "AddQdag", "SubQ", "SubQdag"} -> Gate(nm, <<h, h>>)
    [] nm \in {"AddQc", "AddQcdag"} -> Gate(nm, <<pick(1, (w - 1) \div 2, 2), pick(1, (w - 1) \div 2, 2), 1>>)
    [] nm = "Cmp" -> Gate(nm, <<pick(1, (w - 1) \div 2, 2), pick(1, (w - 1) \div 2, 2), 1>>)
    [] nm \in {"Mul", "Muldag"} -> Gate(nm, <<pick(1, g3, 2), pick(1, g3, 2), 2 * pick(1, g3, 2) + 1>>)
    [] nm \in {"Div", "Divdag"} -> LET k == pick(1, w \div 3, 2) IN Gate(nm, <<k, k, k>>)
MathMin(nm) == CASE nm \in {"AddC", "SubC", "AddCModN", "SubCModN", "MulCModN", "User"} -> 1
                 [] nm \in {"AddQ", "AddQdag", "SubQ", "SubQdag"} -> 2
                 [] nm \in {"AddQc", "AddQcdag", "Cmp", "Div", "Divdag"} -> 3
                 [] nm \in {"Mul", "Muldag"} -> 5

Usable == SelectSeq(live, LAMBDA q : q \notin CtlQubits \cup Protected)
UsableC == SelectSeq(live, LAMBDA q : q \notin CtlQubits)

WithControls(g, t, d) ==
  LET rest == SelectSeq(UsableC, LAMBDA q : q \notin ToSet(t))
      nc0 == IF d[6] % 10 < CtlRate THEN (IF Profile \in {"te", "tec"} /\ g.n = "QOp" THEN 1 ELSE 1 + (Mix(d[6], 3) % MaxC)) ELSE 0
      \* no predefined rule controls these
      fixed == Profile \in {"dec", "setupjob2"} /\ g.n \in {"Rxx", "Ryy", "Rzz"}
      nc == IF fixed THEN 0 ELSE  IF nc0 > Len(rest) THEN Len(rest) ELSE nc0
      c == PickSeq(rest, nc, d[7])
      s == [i \in 1..nc |-> IF d[8] % 3 = 0 THEN 1 ELSE Mix(d[8], i) % 2]
  IN Apply(g, t, c, s)

GenGate(d) ==
  LET nm == GateSeq[(d[2] % Len(GateSeq)) + 1]
      g == MkGate(nm, Len(Usable), d[3])
      n == GateArity(g, d[4])
  IN Len(Usable) >= n /\ WithControls(g, PickSeq(Usable, n, d[5]), d)

GenMath(d) ==
  LET nm == MathSeq[(d[2] % Len(MathSeq)) + 1] IN
  /\ Len(Usable) >= MathMin(nm)
  /\ LET g == MkMath(nm, Len(Usable), d[3])
         n == MathArity(g)
         \* control qubits with negative states only sometimes
         rest == n
     IN Len(Usable) >= n /\ WithControls(g, PickSeq(Usable, n, d[5]), d)

(* amplitude patterns: the sums of squares are 2^x 5^2y *)
Patterns == << << <<1, 0>>, <<0, 1>>, <<1, 1>>, <<3, 4>>, <<4, 3>>, <<1, 7>>, <<7, 1>> >>,
               << <<1, 1, 1, 1>>, <<1, 0, 0, 1>>, <<0, 1, 1, 0>>, <<1, 1, 7, 7>>, <<1, 5, 5, 7>>, <<0, 3, 4, 0>>, <<0, 0, 0, 1>>, <<1, 3, 3, 9>>,
                  <<0, 0, 3, 4>>, <<5, 7, 1, 5>>, <<1, 0, 1, 0>> >>,
               << <<1, 0, 0, 0, 0, 0, 0, 1>>, <<2, 2, 2, 2, 2, 4, 8, 0>>, <<0, 8, 2, 2, 2, 4, 2, 2>>, <<1, 1, 1, 1, 1, 1, 1, 1>>, <<0, 1, 0, 1, 1, 0, 1, 0>>,
                  <<0, 0, 0, 0, 0, 3, 4, 0>>, <<5, 0, 0, 5, 0, 7, 1, 0>>, <<1, 3, 3, 9, 0, 0, 0, 0>>, <<0, 0, 0, 0, 1, 1, 1, 1>> >> >>
GenPrep(d) ==
  LET zero == SelectSeq(Usable, LAMBDA q : QHas(st, q) /\ QClassical(st, q) = 0)
      n == 1 + (d[3] % 3)
  IN /\ Len(zero) >= n
     /\ LET pt == Patterns[n][(d[2] % Len(Patterns[n])) + 1]
            p == [i \in 1..(2 * Pow2(n)) |-> IF i % 2 = 1 THEN pt[(i + 1) \div 2] ELSE IF d[4] % 3 = 0 THEN 8 * (Mix(d[4], i) % 2) ELSE Mix(d[4], i) % 16]
        IN /\ Assert(PrepOk(p), p)
           /\ WithControls(Gate("Prep", p), PickSeq(zero, n, d[5]), d)

(* another gate of the same kind *)
Sibling(g, x) ==
  LET k == 1 + (x % Len(g.p)) r == [g EXCEPT !.p[k] = @ + 1] IN
  CASE g.n \in {"QOp"} -> IF k = 1 THEN r ELSE [g EXCEPT !.p[k] = (@ + 1) % 4]
    [] g.n = "TE" -> IF k <= 2 THEN [g EXCEPT !.p[1] = @ + 1] ELSE [g EXCEPT !.p[k] = (@ + 1) % 4]
    [] g.n = "TEG" -> IF g.p[2] > 0 THEN [g EXCEPT !.p[4] = @ + 1] ELSE g
    [] g.n \in {"UCRy", "UCRz", "QPE", "QPEdag"} ->
         IF g.n \in {"QPE", "QPEdag"} THEN (IF g.p[2] \in {2, 3, 6} THEN [g EXCEPT !.p[2] = IF @ = 2 THEN 3 ELSE IF @ = 3 THEN 2 ELSE 5] ELSE [g EXCEPT !.p[3] = @ + 1])
         ELSE IF k % 2 = 1 THEN r ELSE [g EXCEPT !.p[k - 1] = @ + 1]
    [] g.n \in {"QAA", "QAAdag"} -> IF k = 1 THEN [g EXCEPT !.p[1] = (@ + 1) % 6] ELSE [g EXCEPT !.p[2] = (@ + 1) % 8]
    [] g.n \in {"Flip", "AddC", "SubC", "User"} -> [g EXCEPT !.p[Len(g.p)] = @ + 1]
    [] OTHER -> g
HasSibling(g) == g.n \in {"QOp", "TE", "TEG", "UCRy", "UCRz", "QPE", "QPEdag", "QAA", "QAAdag", "Flip"}

(* repeat an earlier gate, or its inverse, or a variant of it *)
GenEcho(d) ==
  LET lo == IF Len(hist) > 4 THEN Len(hist) - 4 ELSE 0
      cand == SelectSeq(SubSeq(hist, lo + 1, Len(hist)), LAMBDA e : e.a = "gate")
  IN /\ cand # <<>>
     /\ LET e == cand[(d[2] % Len(cand)) + 1]
            mode == d[3] % 10
            g == IF mode \in {2, 3} /\ HasSibling(e.g) THEN Sibling(IF d[4] % 2 = 0 THEN InvGate(e.g) ELSE e.g, d[4] \div 2)
                 ELSE IF mode < 4 /\ e.g.n # "User" THEN InvGate(e.g)
                 ELSE IF mode < 8 \/ e.g.n \notin Rotations THEN e.g
                 ELSE Gate(e.g.n, <<AngK(d[4], 1), 0 - e.g.p[2]>>)
            flip == d[5] % 6 = 0 /\ Len(e.s) > 0
            s == IF flip THEN [e.s EXCEPT ![1] = 1 - @] ELSE e.s
            perm == d[6] % 6 = 0 /\ Len(e.t) > 1
            t == IF perm THEN <<e.t[2], e.t[1]>> \o SubSeq(e.t, 3, Len(e.t)) ELSE e.t
            swapct == d[6] % 7 = 1 /\ Len(e.t) = 1 /\ Len(e.c) > 0
            c1 == IF swapct THEN [e.c EXCEPT ![1] = e.t[1]] ELSE e.c
            t1 == IF swapct THEN <<e.c[1]>> ELSE t
        IN /\ ToSet(t1) \cup ToSet(c1) \subseteq LiveSet
           /\ Apply(g, t1, c1, s)

Bits(n, x) == [i \in 1..n |-> Mix(x, i) % 2]

(* the last three steps of a short frame budget *)
MaxDepth == 3
GenOpen(k, d) ==
  /\ Len(frames) < MaxDepth /\ Len(UsableC) >= 2
  /\ CASE k = "control" ->
            LET n == IF Len(UsableC) > 2 /\ d[3] % 3 = 0 THEN 2 ELSE 1
                c == PickSeq(UsableC, n, d[4])
            IN OpenControl(c, IF d[5] % 3 = 0 THEN [i \in 1..n |-> 1] ELSE Bits(n, d[5]))
       [] k = "dagger" -> OpenDagger
       [] k = "loop" -> OpenLoop(d[3] % 4)
       [] k = "compute" -> IF d[3] % 4 = 0 /\ Len(Usable) > 0 THEN OpenComputeAnc(Usable[(d[4] % Len(Usable)) + 1]) ELSE OpenCompute
GenClose(d) ==
  \/ CloseControl \/ CloseDagger \/ CloseLoop \/ CloseCompute
  \/ IF d[3] % 4 = 0 /\ \A i \in 1..Len(Top.comp) : Top.comp[i].o = "g" THEN CustomUncompute ELSE Uncompute

Work ==
  \E d \in {<<RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999),
              RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999)>>} :
    LET act == IF Spread /\ ~InFrame /\ hist # <<>> /\ hist[Len(hist)].a = "alloc" /\ Len(live) > 0 /\ d[2] % 3 # 0 THEN "fresh"
               ELSE IF Len(live) < 2 THEN "alloc" ELSE PickW(d[1] % TotalW, 1)
        q == live[(d[2] % Len(live)) + 1]
        kinds == <<"control", "dagger", "loop", "compute">>
        n1 == 1 + (d[3] % Len(live))
        qs == PickSeq(live, n1, d[4])
        perm == PickSeq(live, Len(live), d[4])
    IN
    /\ step' = step + 1 /\ done' = done
    /\ CASE act = "alloc" -> ~InFrame /\ Allocate
         [] act = "fresh" -> Apply(IF d[3] % 4 = 0 THEN Gate("Ry", <<AngK(d[4], 1), 0>>) ELSE G0("H"), <<live[Len(live)]>>, <<>>, <<>>)
         [] act = "dealloc" -> Deallocate(q)
         [] act = "gate" -> GenGate(d)
         [] act = "math" -> GenMath(d)
         [] act = "prep" -> GenPrep(d)
         [] act = "echo" -> GenEcho(d)
         [] act = "all" -> Len(Usable) > 0 /\ ApplyAll(IF Profile = "decwide" THEN (IF d[2] % 3 = 0 THEN Gate("Ry", <<AngK(d[3], 1), 0>>) ELSE G0("H"))
                                                            ELSE MkGate(Single[(d[2] % Len(Single)) + 1], 1, d[3]), PickSeq(Usable, 1 + (d[5] % Len(Usable)), d[4]))
         [] act = "measure" -> MeasureQ(q, d[3] % 2)
         [] act = "flush" -> Flush
         [] act = "open" -> GenOpen(kinds[(d[2] % 4) + 1], d)
         [] act = "ocontrol" -> GenOpen("control", d)
         [] act = "odagger" -> GenOpen("dagger", d)
         [] act = "oloop" -> GenOpen("loop", d)
         [] act = "ocompute" -> GenOpen("compute", d)
         [] act = "close" -> InFrame /\ GenClose(d)
         [] act = "anc" -> Len(Usable) >= 2 /\ LET p == PickSeq(Usable, 2, d[3]) IN
                           AncillaUse(p[1], MkGate(Single[(d[2] % Len(Single)) + 1], 1, d[4]), p[2])
         [] act = "pair" -> Len(Usable) >= 2 /\ LET p == PickSeq(Usable, 2, d[3])
                                 A2 == << <<0, 1>>, <<1, 0>>, <<2, 0>>, <<1, 2>> >>
                                 A3 == << <<0, 1, 2>>, <<2, 1, 0>>, <<1, 2, 0>> >>
                                 W2 == <<G0("QFT"), G0("Entangle"), G0("Swap"), G0("M2a"), Gate("Rzz", <<3, 0>>), G0("SqrtSwap"),
                                         Gate("UCRy", <<3, 0, 5, 0>>)>>
                                 W3 == <<G0("QFT"), G0("QFTdag"), G0("M3"), Gate("UCRz", <<3, 0, 5, 0, 2, 0, 7, 0>>)>>
                                 two == d[5] % 3 # 0
                             IN WorkPair(p[1], IF two THEN W2[(d[6] % Len(W2)) + 1] ELSE W3[(d[6] % Len(W3)) + 1],
                                         IF two THEN A2[(d[7] % Len(A2)) + 1] ELSE A3[(d[7] % Len(A3)) + 1],
                                         MkGate(Single[(d[2] % Len(Single)) + 1], 1, d[4]), p[2], Bits(2, d[8]), d[8] % 2 = 0)
         [] act = "prob" -> ProbeProb(qs, Bits(n1, d[5]))
         [] act = "amp" -> ProbeAmp(perm, Bits(Len(perm), d[5]))
         [] act = "expect" -> ProbeExpect(qs, [i \in 1..(1 + (d[5] % 3)) |->
                                  <<(Mix(d[6], i) % 7) - 3, [j \in 1..n1 |-> Mix(d[7], 4 * i + j) % 4]>>])
         [] act = "collapse" -> Collapse(qs, Bits(n1, d[5]))
         [] act = "write" -> WriteBits(qs, Bits(n1, d[5]))
         [] act = "bad" -> LET B == <<"prob-unknown", "prob-short", "amp-unknown", "amp-missing", "amp-short", "setwf-unknown", "setwf-missing", "setwf-long",
                                      "setwf-short", "collapse-unknown", "collapse-short", "collapse-long", "expect-wide", "qop-wide", "read-unmeasured">>
                           IN BadQuery(B[(d[3] % Len(B)) + 1])
         [] act = "qop" -> ApplyOperator(qs, [j \in 1..n1 |-> Mix(d[7], j) % 4], d[5] % 16)
         [] act = "setwf" ->
              LET n == Len(perm) odd == n % 2
                  e(i) == (d[5] * i * i + d[6] * i) % 16
                  W == IF d[7] % 3 = 0
                       THEN [v |-> [i \in 0..(Pow2(n) - 1) |-> IF i = d[5] % Pow2(n) THEN ROne ELSE RZero], e2 |-> 0, e5 |-> 0]
                       ELSE [v |-> [i \in 0..(Pow2(n) - 1) |-> TVal(IF odd = 0 THEN T1(e(i)) ELSE TermMul(SQ2, e(i)))],
                             e2 |-> (n + odd) \div 2, e5 |-> 0]
              IN SetWavefunction(perm, W)

Skip == step' = step + 1 /\ UNCHANGED <<st, frames, live, nid, meas, hist, flat, done>>

(* wind up: close the open sections, then print *)
WindUp ==
  /\ InFrame
  /\ CloseControl \/ CloseDagger \/ CloseLoop \/ CloseCompute \/ Uncompute
  /\ UNCHANGED <<step, done>>
Emit ==
  /\ ~InFrame /\ ~done
  /\ PrintT(ToJson(Append(hist, [a |-> "flush", s |-> st, flat |-> flat])))
  /\ done' = TRUE
  /\ UNCHANGED <<st, frames, live, nid, meas, hist, flat, step>>

GInit == Init /\ step = 0 /\ done = FALSE
GNext == \/ step < Steps /\ Work
         \/ step < Steps /\ Skip
         \/ step >= Steps /\ WindUp
         \/ step >= Steps /\ Emit
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
