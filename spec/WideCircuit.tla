----------------------------- MODULE WideCircuit -----------------------------
(***************************************************************************)
(* Recorded command streams of wide circuits.  Every command is followed   *)
(* exactly; at the end the registers hold what the operation is defined to *)
(* do, work qubits were returned as 0 and no phase is left over.           *)
(* A circuit may leave the states that can be followed (module Product):   *)
(* nothing is said about the rest of it.                                   *)
(*   [goal, t |-> ids, cq |-> ids of controls, ev |-> <<[n, t, c, k]>>]    *)
(***************************************************************************)
EXTENDS WideGoals, Product, TLC, Json

CONSTANT TraceFile
VARIABLES tr, i, S
Traces == JsonDeserialize(TraceFile)
T == Traces[tr]
E == T.ev[i]
Ids == [j \in 1..Len(T.t) |-> T.t[j]] \o T.cq
Value(q, st) == st[CHOOSE j \in 1..Len(Ids) : Ids[j] = q]
Whole(st) == st \o Basis([j \in 1..Len(T.cq) |-> T.goal.c[j][1]])
FromSeq(st) == [q \in {Ids[j] : j \in 1..Len(Ids)} |-> Value(q, st)]
Stuck(w) == PrintT(ToJson([stuck |-> tr, at |-> i, why |-> w])) /\ i' = Len(T.ev) + 2 /\ UNCHANGED <<tr, S>>
Init == /\ tr \in 1..Len(Traces) /\ i = 1
        /\ S = [q |-> FromSeq(Whole(Before(T.goal, U))), g |-> 0, in |-> TRUE]
Has(q) == q \in DOMAIN S.q
Known(e) == (\A j \in 1..Len(e.t) : Has(e.t[j])) /\ \A j \in 1..Len(e.c) : Has(e.c[j][1])
Next ==
  \/ /\ i <= Len(T.ev) /\ S.in
     /\ CASE E.n = "new" -> IF Has(E.t[1]) THEN Stuck("allocates a qubit twice")
                            ELSE S' = [S EXCEPT !.q = [q \in DOMAIN S.q \cup {E.t[1]} |-> IF q = E.t[1] THEN B(0) ELSE S.q[q]]] /\ i' = i + 1 /\ UNCHANGED tr
          [] E.n = "free" -> IF ~Has(E.t[1]) \/ \E j \in 1..Len(Ids) : Ids[j] = E.t[1] THEN Stuck("returns a qubit that is not its own")
                             ELSE IF S.q[E.t[1]] # B(0) THEN Stuck("returns a work qubit that is not 0")
                             ELSE S' = [S EXCEPT !.q = [q \in DOMAIN S.q \ {E.t[1]} |-> S.q[q]]] /\ i' = i + 1 /\ UNCHANGED tr
          [] OTHER -> IF ~Known(E) THEN Stuck("uses a qubit that is not allocated") ELSE S' = Step(S, E) /\ i' = i + 1 /\ UNCHANGED tr
  \/ /\ i <= Len(T.ev) + 1 /\ ~S.in
     /\ PrintT(ToJson([ok |-> tr, left |-> 1])) /\ i' = Len(T.ev) + 2 /\ UNCHANGED <<tr, S>>
  \/ /\ i = Len(T.ev) + 1 /\ S.in
     /\ IF DOMAIN S.q # {Ids[j] : j \in 1..Len(Ids)} THEN Stuck("keeps work qubits")
        ELSE IF S.q # FromSeq(Whole(After(T.goal, U))) THEN Stuck("ends in another state")
        ELSE IF T.cq # <<>> /\ S.g # 0 THEN Stuck("leaves a phase")
        ELSE PrintT(ToJson([ok |-> tr])) /\ i' = i + 1 /\ UNCHANGED <<tr, S>>
==============================================================================
