----------------------------- MODULE ProductCheck -----------------------------
(* The two semantics agree: module Product against the exact state vector. *)
EXTENDS HighGates, TLC

CONSTANTS N, Depth
VARIABLES S, R, k
PR == INSTANCE Product WITH U <- 4
Qs == 0..(N - 1)
Ctl(X) == {<<>>} \cup {<<<<a, st>>>> : a \in X, st \in {0, 1}} \cup {<<<<a, st>>, <<b, 1>>>> : <<a, b, st>> \in {y \in X \X X \X {0, 1} : y[1] < y[2]}}
Ev(n, t, c, p) == [n |-> n, t |-> t, c |-> c, k |-> p]
Ops == UNION {{Ev(n, <<t>>, c, 0) : n \in {"X", "H"}, c \in Ctl(Qs \ {t})} : t \in Qs}
       \cup UNION {{Ev("Swap", <<y[1], y[2]>>, c, 0) : c \in Ctl(Qs \ {y[1], y[2]})} : y \in {z \in Qs \X Qs : z[1] < z[2]}}
       \cup {Ev("Phase", <<>>, c, p) : c \in Ctl(Qs), p \in {1, 4, 8, 11}}
Fst(c) == [j \in 1..Len(c) |-> c[j][1]]
Snd(c) == [j \in 1..Len(c) |-> c[j][2]]
Exact(V, e) == IF e.n = "Phase"
               THEN IF e.c = <<>> THEN QApplyGate(V, Gate("Ph", <<e.k, 0>>), <<0>>, <<>>, <<>>)
                    \* the target of a phase does not matter: one that is no control
                    ELSE LET f == CHOOSE q \in 0..N : \A j \in 1..Len(e.c) : e.c[j][1] # q
                         IN QApplyGate(V, Gate("Ph", <<e.k, 0>>), <<f>>, Fst(e.c), Snd(e.c))
               ELSE QApplyGate(V, G0(e.n), e.t, Fst(e.c), Snd(e.c))
RECURSIVE Start(_)
Start(n) == IF n = 0 THEN QEmpty ELSE QAlloc(Start(n - 1), n - 1)
Init == S = Start(N + 1) /\ R = [q |-> [q \in 0..N |-> PR!B(0)], g |-> 0, in |-> TRUE] /\ k = 0
Next == k < Depth /\ k' = k + 1 /\ R.in /\ \E e \in Ops : S' = Exact(S, e) /\ R' = PR!Step(R, e)
Agree(i) == \A q \in 0..N : R.q[q].s = "b" => Bit(i, q) = R.q[q].v
RECURSIVE WaveSum(_, _)
WaveSum(i, q) == IF q > N THEN 0 ELSE (IF R.q[q].s = "p" /\ Bit(i, q) = 1 THEN R.q[q].v ELSE 0) + WaveSum(i, q + 1)
RECURSIVE LowIdx(_)
LowIdx(q) == IF q > N THEN 0 ELSE (IF R.q[q].s = "b" THEN R.q[q].v * Pow2(q) ELSE 0) + LowIdx(q + 1)
A == RShift(1, (16 - R.g) % 16, S.v[LowIdx(0)])
Refines == R.in => /\ A = RConj(A) /\ A[1] >= 0 /\ A[3] >= 0 /\ A # RZero
                     /\ \A i \in DOMAIN S.v : S.v[i] = IF Agree(i) THEN RShift(1, (R.g + WaveSum(i, 0)) % 16, A) ELSE RZero
===============================================================================
