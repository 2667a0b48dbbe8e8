------------------------------ MODULE TermSets ------------------------------
(***************************************************************************)
(* Hamiltonians that are sums of Pauli terms, and whether exp(-iHt) is the *)
(* product of the evolutions of its terms: exactly if the terms commute.   *)
(*   NQ      qubits                                                        *)
(*   MaxLen  terms                                                         *)
(*   Random  FALSE: every sequence of distinct terms                       *)
(*           TRUE: random ones, many of them commuting                     *)
(***************************************************************************)
EXTENDS HighGates, TLC, Json
CONSTANTS NQ, MaxLen, Random
VARIABLES terms, done

Terms == [1..NQ -> 0..3]
Clashes(ts) == {<<i, j>> \in (1..Len(ts)) \X (1..Len(ts)) : i < j /\ Anticommute(ts[i], ts[j])}
Commute(ts) == Clashes(ts) = {}
(* reordering or repeating terms changes nothing; a term commutes with the *)
(* products of the terms it commutes with (up to a phase, the product of   *)
(* codes is the sum in Z2 x Z2)                                            *)
Code(x, z) == CASE x = 0 /\ z = 0 -> 0 [] x = 1 /\ z = 0 -> 1 [] x = 1 /\ z = 1 -> 2 [] OTHER -> 3
XPart(c) == IF c \in {1, 2} THEN 1 ELSE 0
ZPart(c) == IF c \in {2, 3} THEN 1 ELSE 0
Times(p, q) == [i \in 1..NQ |-> Code((XPart(p[i]) + XPart(q[i])) % 2, (ZPart(p[i]) + ZPart(q[i])) % 2)]
ProductsCommute ==
  Commute(terms) => \A i, j, k \in 1..Len(terms) : ~Anticommute(Times(terms[i], terms[j]), terms[k])
RowsCommute ==          \* the matrices, on every basis state
  (NQ <= 2 /\ Len(terms) = 2) =>
    LET p == terms[1] q == terms[2]
        ph(a, b, x) == (PauliPh(b, x, 1) + PauliPh(a, PauliRow(b, x, 1), 1)) % 16 IN
    \A x \in 0..(Pow2(NQ) - 1) :
      IF Anticommute(p, q) THEN (ph(p, q, x) + 8) % 16 = ph(q, p, x) ELSE ph(p, q, x) = ph(q, p, x)

Used == {terms[i] : i \in 1..Len(terms)}
Fit == {t \in Terms \ Used : \A u \in Used : ~Anticommute(t, u)}
Emit == PrintT(ToJson([terms |-> terms', commute |-> Commute(terms'), clashes |-> Clashes(terms')]))

Init == terms = <<>> /\ done = FALSE
Next ==
  \/ ~done /\ Len(terms) < MaxLen /\ ~Random /\ \E t \in Terms \ Used : terms' = Append(terms, t) /\ UNCHANGED done /\ Emit
  \/ ~done /\ Random /\ Len(terms) < MaxLen
     /\ \E d \in {<<RandomElement(0..9), RandomElement(0..9)>>} :
          \E t \in {RandomElement(IF d[1] < 8 /\ Fit # {} THEN Fit ELSE Terms \ Used)} :
            /\ terms' = Append(terms, t)
            /\ done' = (Len(terms') = MaxLen \/ (Len(terms') > 2 /\ d[2] < 3))
            /\ IF done' THEN Emit ELSE TRUE
=============================================================================
