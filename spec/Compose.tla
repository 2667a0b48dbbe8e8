-------------------------------- MODULE Compose --------------------------------
(***************************************************************************)
(* Programs that share no qubits, run in any interleaving on one machine:   *)
(* the state of all qubits is the product of the states each program would  *)
(* have on its own.  Independent behaviours of ProjectQGen can therefore be *)
(* replayed together, which reaches sizes no single exact state vector has. *)
(***************************************************************************)
EXTENDS HighGates, TLC

CONSTANTS NA, NB, Depth   \* qubits of the two programs: 0..NA-1 and NA..NA+NB-1
VARIABLES A, B, S, k
Op(n, p, t, c) == [n |-> n, p |-> p, t |-> t, c |-> c]
Ops(Q) == UNION {{Op(n, <<>>, <<t>>, c) : n \in {"X", "H", "T"}, c \in {<<>>} \cup {<<y>> : y \in Q \ {t}}} : t \in Q}
          \cup UNION {{Op("Ry", <<1, 1>>, <<t>>, <<>>)} : t \in Q}
          \cup {Op("SqrtSwap", <<>>, <<y[1], y[2]>>, <<>>) : y \in {z \in Q \X Q : z[1] # z[2]}}
Do(V, o) == QApplyGate(V, Gate(o.n, o.p), o.t, o.c, [j \in 1..Len(o.c) |-> 1])
RECURSIVE New(_, _)
New(V, s) == IF s = <<>> THEN V ELSE New(QAlloc(V, s[1]), Tail(s))
QA == [i \in 1..NA |-> i - 1]
QB == [i \in 1..NB |-> NA + i - 1]
(* the machine allocates the qubits of both in turns *)
RECURSIVE Zip(_, _)
Zip(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE <<b[1], a[1]>> \o Zip(Tail(a), Tail(b))
Init == A = New(QEmpty, QA) /\ B = New(QEmpty, QB) /\ S = New(QEmpty, Zip(QA, QB)) /\ k = 0
Next == /\ k < Depth /\ k' = k + 1
        /\ \/ \E o \in Ops(0..(NA - 1)) : A' = Do(A, o) /\ S' = Do(S, o) /\ UNCHANGED B
           \/ \E o \in Ops(NA..(NA + NB - 1)) : B' = Do(B, o) /\ S' = Do(S, o) /\ UNCHANGED A
(* the part of a basis index of S that belongs to V *)
RECURSIVE Part(_, _, _)
Part(V, i, j) == IF j > Len(V.ids) THEN 0 ELSE Bit(i, PosOf(S, V.ids[j])) * Pow2(j - 1) + Part(V, i, j + 1)
Scale(V, e2, e5) == Pow2(e2 - V.e2) * Pow5(e5 - V.e5)
ProductState ==
  \A i \in DOMAIN S.v :
    LET x == RMul(A.v[Part(A, i, 1)], B.v[Part(B, i, 1)])
        d2 == A.e2 + B.e2  d5 == A.e5 + B.e5
        m2 == IF d2 > S.e2 THEN d2 ELSE S.e2
        m5 == IF d5 > S.e5 THEN d5 ELSE S.e5
    IN RScale(Pow2(m2 - d2) * Pow5(m5 - d5), x) = RScale(Pow2(m2 - S.e2) * Pow5(m5 - S.e5), S.v[i])
===============================================================================
