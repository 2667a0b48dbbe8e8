------------------------------- MODULE Product -------------------------------
(***************************************************************************)
(* States in which every qubit is by itself: 0, 1, or |0> + e^(i v) |1>    *)
(* with v a multiple of 2 pi / 2^U.  Circuits that stay within such states *)
(* (reversible arithmetic on basis states, Fourier transforms of basis     *)
(* states, additions of phases to them and the way back) are followed      *)
(* exactly, whatever the number of qubits.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT U
Full == 2 ^ U
Half == 2 ^ (U - 1)
B(x) == [s |-> "b", v |-> x]
P(k) == [s |-> "p", v |-> k % Full]

(* a state: [q |-> function from ids, g |-> global phase, in |-> still a product] *)
Off(S) == [S EXCEPT !.in = FALSE]
IsB(S, x) == S.q[x].s = "b"
(* controls c: <<id, state>> pairs *)
Blocked(S, c) == \E j \in 1..Len(c) : IsB(S, c[j][1]) /\ S.q[c[j][1]].v # c[j][2]
Open(S, c) == {j \in 1..Len(c) : ~IsB(S, c[j][1])}       \* controls that are neither 0 nor 1

(* the phase k where all of c hold *)
Diag(S, k, c) ==
  IF k % Full = 0 \/ Blocked(S, c) THEN S
  ELSE CASE Cardinality(Open(S, c)) = 0 -> [S EXCEPT !.g = (@ + k) % Full]
         [] Cardinality(Open(S, c)) = 1 ->
              LET e == c[CHOOSE j \in Open(S, c) : TRUE] IN
              IF e[2] = 1 THEN [S EXCEPT !.q[e[1]] = P(@.v + k)]
              ELSE [S EXCEPT !.g = (@ + k) % Full, !.q[e[1]] = P(@.v - k)]
         [] OTHER -> Off(S)
Not(S, t, c) ==
  IF Blocked(S, c) THEN S
  ELSE IF Open(S, c) = {}
  THEN IF IsB(S, t) THEN [S EXCEPT !.q[t] = B(1 - @.v)]
       ELSE [S EXCEPT !.g = (@ + S.q[t].v) % Full, !.q[t] = P(0 - @.v)]
  \* |+> is left alone, |-> changes its sign
  ELSE IF S.q[t] = P(0) THEN S ELSE IF S.q[t] = P(Half) THEN Diag(S, Half, c) ELSE Off(S)
Hadamard(S, t, c) ==
  IF Blocked(S, c) THEN S
  ELSE IF Open(S, c) # {} THEN Off(S)
  ELSE IF IsB(S, t) THEN [S EXCEPT !.q[t] = P(@.v * Half)]
  ELSE IF S.q[t].v \in {0, Half} THEN [S EXCEPT !.q[t] = B(@.v \div Half)] ELSE Off(S)
Exchange(S, a, b, c) ==
  IF Blocked(S, c) \/ S.q[a] = S.q[b] THEN S
  ELSE IF Open(S, c) # {} THEN Off(S) ELSE [S EXCEPT !.q[a] = S.q[b], !.q[b] = S.q[a]]

(* one gate: [n, t, c, k] *)
Step(S, e) ==
  IF ~S.in THEN S
  ELSE CASE e.n = "X" -> Not(S, e.t[1], e.c)
         [] e.n = "H" -> Hadamard(S, e.t[1], e.c)
         [] e.n = "Swap" -> Exchange(S, e.t[1], e.t[2], e.c)
         [] e.n = "Phase" -> Diag(S, e.k, e.c)
         [] OTHER -> Off(S)
==============================================================================
