------------------------------- MODULE Flipper -------------------------------
(***************************************************************************)
(* Rewriting for a coupling map: controlled nots in the wrong direction    *)
(* and swaps become sequences of one-qubit gates and controlled nots along *)
(* the arrows, with the same effect; everything else passes as it is.      *)
(*                                                                         *)
(* The effect is compared exactly: a two-qubit Clifford circuit is known   *)
(* (up to a phase) by the images of X1, Z1, X2, Z2.                        *)
(*                                                                         *)
(* Traces are recorded from the implementation:                            *)
(* [arrows |-> <<<<c, t>>, ...>>, ev |-> <<[o, key, n, t, c, tags], ...>>] *)
(*   o: "in", "out", "raise"; c = <<id, state>> pairs; key names the gate  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT TraceFile
VARIABLES tr, i, cur, outs
Traces == JsonDeserialize(TraceFile)
T == Traces[tr]
E == T.ev[i]

Range(s) == {s[j] : j \in 1..Len(s)}
Arrow(c, t) == \E j \in 1..Len(T.arrows) : T.arrows[j] = <<c, t>>
Linked(a, b) == Arrow(a, b) \/ Arrow(b, a)
IsCX(e) == e.n = "X" /\ Len(e.c) = 1 /\ Len(e.t) = 1
IsSwap(e) == e.n = "Swap" /\ e.c = <<>>
Pair(e) == IF IsSwap(e) THEN e.t ELSE <<e.c[1][1], e.t[1]>>
Rewritten(e) == IsCX(e) \/ IsSwap(e)

(* ----------------- signed Pauli operators on two qubits ----------------- *)
(* [x |-> <<x1, x2>>, z |-> <<z1, z2>>, s |-> sign bit] *)
Xor(a, b) == (a + b) % 2
Gens == << [x |-> <<1, 0>>, z |-> <<0, 0>>, s |-> 0], [x |-> <<0, 0>>, z |-> <<1, 0>>, s |-> 0],
           [x |-> <<0, 1>>, z |-> <<0, 0>>, s |-> 0], [x |-> <<0, 0>>, z |-> <<0, 1>>, s |-> 0] >>
ConjH(p, q) == [x |-> [p.x EXCEPT ![q] = p.z[q]], z |-> [p.z EXCEPT ![q] = p.x[q]], s |-> Xor(p.s, p.x[q] * p.z[q])]
ConjX(p, q) == [p EXCEPT !.s = Xor(p.s, p.z[q])]
ConjZ(p, q) == [p EXCEPT !.s = Xor(p.s, p.x[q])]
ConjS(p, q) == [x |-> p.x, z |-> [p.z EXCEPT ![q] = Xor(p.z[q], p.x[q])], s |-> Xor(p.s, p.x[q] * p.z[q])]
ConjCX(p, c, t) == [x |-> [p.x EXCEPT ![t] = Xor(p.x[t], p.x[c])], z |-> [p.z EXCEPT ![c] = Xor(p.z[c], p.z[t])],
                    s |-> Xor(p.s, p.x[c] * p.z[t] * Xor(Xor(p.x[t], p.z[c]), 1))]
ConjSwap(p) == [x |-> <<p.x[2], p.x[1]>>, z |-> <<p.z[2], p.z[1]>>, s |-> p.s]
Slot(pr, q) == IF pr[1] = q THEN 1 ELSE 2
Conj(p, e, pr) ==
  CASE IsSwap(e) -> ConjSwap(p)
    [] IsCX(e) -> LET c == Slot(pr, e.c[1][1])  t == Slot(pr, e.t[1])
                  IN IF e.c[1][2] = 1 THEN ConjCX(p, c, t) ELSE ConjX(ConjCX(ConjX(p, c), c, t), c)
    [] e.n = "H" -> ConjH(p, Slot(pr, e.t[1]))
    [] e.n = "X" -> ConjX(p, Slot(pr, e.t[1]))
    [] e.n = "Z" -> ConjZ(p, Slot(pr, e.t[1]))
    [] e.n = "S" -> ConjS(p, Slot(pr, e.t[1]))
    [] e.n = "Sdag" -> ConjS(ConjZ(p, Slot(pr, e.t[1])), Slot(pr, e.t[1]))
RECURSIVE Run(_, _, _)
Run(p, s, pr) == IF s = <<>> THEN p ELSE Run(Conj(p, s[1], pr), Tail(s), pr)
SameEffect(s1, s2, pr) == \A g \in 1..4 : Run(Gens[g], s1, pr) = Run(Gens[g], s2, pr)

(* ------------------------------- the machine ---------------------------- *)
AllowedOut(e, pr) ==
  \/ e.n \in {"H", "X", "Z", "S", "Sdag"} /\ e.c = <<>> /\ Len(e.t) = 1 /\ e.t[1] \in Range(pr)
  \/ IsCX(e) /\ {e.c[1][1], e.t[1]} = Range(pr) /\ e.c[1][2] = 1 /\ Arrow(e.c[1][1], e.t[1])
  \* a controlled not along an arrow may keep its control state
  \/ IsCX(e) /\ <<e.c[1][1], e.t[1]>> = pr /\ Arrow(pr[1], pr[2]) /\ e = [cur EXCEPT !.o = "out"]
WhyNot ==
  IF ~Rewritten(cur)
  THEN IF Len(outs) = 1 /\ [outs[1] EXCEPT !.o = "in"] = cur THEN "" ELSE "does not pass unchanged"
  ELSE LET pr == Pair(cur) IN
       IF ~Linked(pr[1], pr[2]) THEN "is accepted although the qubits are not connected"
       ELSE IF \E j \in 1..Len(outs) : ~AllowedOut(outs[j], pr) THEN "becomes gates that the coupling map does not have"
       ELSE IF \E j \in 1..Len(outs) : outs[j].tags # cur.tags THEN "loses its tags"
       ELSE IF ~SameEffect(outs, <<cur>>, pr) THEN "becomes gates with another effect" ELSE ""
NoCmd == [o |-> "none"]
Stuck(w) == PrintT(ToJson([stuck |-> tr, at |-> i - 1, why |-> w])) /\ i' = Len(T.ev) + 2 /\ UNCHANGED <<tr, cur, outs>>
Finished == cur = NoCmd \/ WhyNot = ""
Init == tr \in 1..Len(Traces) /\ i = 1 /\ cur = NoCmd /\ outs = <<>>
Next ==
  \/ /\ i <= Len(T.ev) /\ E.o = "in"
     /\ IF ~Finished THEN Stuck(WhyNot) ELSE cur' = E /\ outs' = <<>> /\ i' = i + 1 /\ UNCHANGED tr
  \/ /\ i <= Len(T.ev) /\ E.o = "out"
     /\ IF cur = NoCmd THEN Stuck("sends a command of its own") ELSE outs' = Append(outs, E) /\ i' = i + 1 /\ UNCHANGED <<tr, cur>>
  \/ /\ i <= Len(T.ev) /\ E.o = "raise"
     /\ IF cur # NoCmd /\ Rewritten(cur) /\ ~Linked(Pair(cur)[1], Pair(cur)[2]) /\ outs = <<>>
        THEN cur' = NoCmd /\ outs' = <<>> /\ i' = i + 1 /\ UNCHANGED tr ELSE Stuck("is refused without a reason")
  \/ /\ i = Len(T.ev) + 1
     /\ IF ~Finished THEN Stuck(WhyNot) ELSE PrintT(ToJson([ok |-> tr])) /\ i' = i + 1 /\ UNCHANGED <<tr, cur, outs>>
=============================================================================
