------------------------------ MODULE CompareSeq ------------------------------
(***************************************************************************)
(* When two recorded programs are the same: if every qubit sees the same   *)
(* sequence of commands.  All pairs of short programs over an alphabet of  *)
(* near misses, and random pairs of longer ones.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Random
VARIABLES a, b, done

O(g, p, t, c, s) == [g |-> g, p |-> p, t |-> t, c |-> c, s |-> s]
Letters == << O("X", 0, <<0>>, <<>>, <<>>), O("X", 0, <<1>>, <<0>>, <<1>>), O("X", 0, <<1>>, <<0>>, <<0>>), O("X", 0, <<0>>, <<1>>, <<1>>),
              O("Rz", 1, <<1>>, <<>>, <<>>), O("Rz", 2, <<1>>, <<>>, <<>>), O("H", 0, <<2>>, <<>>, <<>>), O("Swap", 0, <<0, 1>>, <<>>, <<>>),
              O("Swap", 0, <<1, 0>>, <<>>, <<>>), O("X", 0, <<2>>, <<0, 1>>, <<0, 1>>), O("X", 0, <<2>>, <<0, 1>>, <<1, 0>>),
              O("X", 0, <<2>>, <<1, 0>>, <<1, 0>>), O("Measure", 0, <<0>>, <<>>, <<>>), O("tagged", 0, <<0>>, <<>>, <<>>) >>
(* interchangeable qubits and the order of the controls do not matter *)
Norm(o) == IF o.g = "Swap" THEN [o EXCEPT !.t = <<0, 1>>]
           ELSE IF Len(o.c) = 2 /\ o.c[1] > o.c[2] THEN [o EXCEPT !.c = <<o.c[2], o.c[1]>>, !.s = <<o.s[2], o.s[1]>>] ELSE o
On(o, q) == \E i \in 1..Len(o.t) : o.t[i] = q \/ \E j \in 1..Len(o.c) : o.c[j] = q
Seen(p, q) == [i \in 1..Len(SelectSeq(p, LAMBDA o : On(o, q))) |-> Norm(SelectSeq(p, LAMBDA o : On(o, q))[i])]
SameOf(x, y) == \A q \in 0..2 : Seen(x, q) = Seen(y, q)
Pair(x, y) == ToJson([a |-> x, b |-> y, same |-> SameOf(x, y)])

Init == a = <<>> /\ b = <<>> /\ done = FALSE
L(i) == Letters[(i % Len(Letters)) + 1]
(* the second program: the first one with two neighbours exchanged, and then maybe one command replaced *)
Edit(p, i, j, k) ==
  LET n == Len(p)  x == 1 + (i % (n - 1))
      e == IF p # <<>> /\ n > 1 THEN [p EXCEPT ![x] = p[x + 1], ![x + 1] = p[x]] ELSE p
  IN IF j % 3 = 0 /\ n > 0 THEN [e EXCEPT ![1 + (k % n)] = L(j \div 3)] ELSE e
Next ==
  /\ ~done
  /\ \/ /\ ~Random /\ \/ Len(a) < MaxLen /\ (\E i \in 1..Len(Letters) : a' = Append(a, Letters[i])) /\ b = <<>> /\ UNCHANGED <<b, done>>
                      \/ Len(b) < MaxLen /\ (\E i \in 1..Len(Letters) : b' = Append(b, Letters[i])) /\ UNCHANGED <<a, done>>
     \/ /\ Random /\ Len(a) < MaxLen
        /\ \E d \in {<<RandomElement(0..9999)>>} : a' = Append(a, L(d[1]))
        /\ UNCHANGED <<b, done>>
     \/ /\ Random /\ Len(a) = MaxLen
        /\ \E d \in {<<RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999)>>} : \E nb \in {Edit(IF b = <<>> THEN a ELSE b, d[1], d[2], d[3])} : b' = nb /\ PrintT(Pair(a, nb))
        /\ UNCHANGED <<a, done>>
     \/ /\ ~Random /\ done' = TRUE /\ PrintT(Pair(a, b)) /\ UNCHANGED <<a, b>>
=============================================================================
