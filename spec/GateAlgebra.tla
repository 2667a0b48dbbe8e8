---------------------------- MODULE GateAlgebra ----------------------------
(***************************************************************************)
(* The algebra of gates, exactly: for every ordered pair (g, h) of gates   *)
(* of one width the specification decides whether they have the same       *)
(* effect and what "g, then h" does.  Effects are read off the Choi state: *)
(* half of n maximally entangled pairs goes through the gate.              *)
(* One behaviour per g; it lists all its partners h.                       *)
(***************************************************************************)
EXTENDS ProjectQ, TLC, Json

CONSTANTS Width, Full, Requests
VARIABLE todo

Ang == IF Full THEN {<<0, 0>>, <<16, 0>>, <<-16, 0>>, <<8, 0>>, <<-8, 0>>, <<1, 0>>, <<-1, 0>>, <<4, 0>>, <<-4, 0>>, <<12, 0>>, <<2, 0>>,
                     <<15, 0>>, <<0, 1>>, <<0, -1>>, <<3, 1>>, <<5, -2>>, <<16, 1>>}
       ELSE {<<0, 0>>, <<16, 0>>, <<8, 0>>, <<1, 0>>, <<-1, 0>>, <<4, 0>>, <<0, 1>>, <<3, -1>>}
AngS == {<<0, 0>>, <<16, 0>>, <<8, 0>>, <<3, 0>>, <<-3, 0>>, <<1, 1>>}
Phs == IF Full THEN {0, 8, 4, 12, 1, 15, 3} ELSE {0, 8, 4, 1}

Rot(names) == {Gate(n, a) : n \in names, a \in Ang}
Seqs(S, n) == [1..n -> S]
TEs(codes) == {Gate("TE", a \o c) : a \in (IF Full THEN AngS ELSE {<<0, 0>>, <<8, 0>>, <<3, 0>>, <<1, 1>>}), c \in codes}
QOps(codes) == {Gate("QOp", <<k>> \o c) : k \in Phs, c \in codes}
UCRs(n) == LET as == {<<0, 0>>, <<16, 0>>, <<3, 0>>, <<-3, 0>>, <<8, 0>>} IN
  {Gate(u, a \o [i \in 1..(2 * (Pow2(n - 1) - 1)) |-> IF i % 2 = 0 THEN 0 ELSE b + (i \div 2)]) :
     u \in {"UCRy", "UCRz"}, a \in as, b \in (IF Full THEN {0, 5} ELSE {5})}
Maths(n) ==
  {Gate("AddC", <<n, c>>) : c \in {0, 1, Pow2(n) - 1, 0 - 1, Pow2(n)}} \cup {Gate("SubC", <<n, c>>) : c \in {1, Pow2(n) - 1}}
  \cup {Gate("User", <<n, c>>) : c \in {0, 1}}
  \cup {Gate(g, <<n, a, Pow2(n)>>) : g \in {"AddCModN", "SubCModN"}, a \in {1, 3}}
  \cup {Gate("MulCModN", <<n, a, Pow2(n)>>) : a \in {x \in 1..(Pow2(n) - 1) : x % 2 = 1}}

Gates ==
  CASE Width = 1 -> {G0(n) : n \in {"X", "Y", "Z", "H", "S", "Sdag", "T", "Tdag", "SqrtX", "SqrtXdag", "I", "M1", "M1dag"}}
                    \cup Rot({"Rx", "Ry", "Rz", "R", "Ph"})
                    \cup QOps({<<0>>, <<1>>, <<2>>, <<3>>}) \cup TEs({<<1>>, <<2>>, <<3>>})
                    \cup {Gate(u, a) : u \in {"UCRy", "UCRz"}, a \in AngS}
    [] Width = 2 -> {G0(n) : n \in {"Swap", "SqrtSwap", "SqrtSwapdag", "M2a", "M2adag", "M2b", "M2bdag", "QFT", "QFTdag", "Entangle", "Entangledag"}}
                    \cup Rot({"Rxx", "Ryy", "Rzz"}) \cup UCRs(2) \cup Maths(2)
                    \cup QOps(IF Full THEN Seqs(0..3, 2) ELSE {<<1, 1>>, <<3, 3>>, <<2, 1>>, <<1, 2>>, <<3, 0>>, <<0, 3>>, <<0, 0>>})
                    \cup TEs({<<1, 1>>, <<3, 3>>, <<1, 3>>})
                    \cup {Gate("TE2", a \o <<1, 3>> \o <<3, 3>>) : a \in AngS}
    [] Width = 3 -> {G0(n) : n \in {"M3", "M3dag", "QFT", "QFTdag", "Entangle", "Entangledag"}} \cup UCRs(3) \cup Maths(3)
                    \cup QOps({<<1, 2, 3>>, <<3, 2, 1>>, <<1, 0, 1>>, <<3, 3, 3>>, <<0, 2, 0>>}) \cup TEs({<<1, 2, 3>>, <<3, 0, 3>>})

tq == [i \in 1..Width |-> i - 1]
Pairs == [i \in 1..(2 * Width) |->
            IF i <= Width THEN OpG(G0("H"), <<Width + i - 1>>, <<>>, <<>>)
            ELSE OpG(G0("X"), <<i - Width - 1>>, <<i - 1>>, <<1>>)]
Choi == ExecAll([s |-> QEmpty, ok |-> TRUE], [i \in 1..(2 * Width) |-> OpA(i - 1)] \o Pairs).s
Eff(S, g) == QApplyGate(S, g, tq, <<>>, <<>>)
EffOf == [g \in Gates |-> Eff(Choi, g)]

(* The number of qubits a gate is for; 0: any number, it depends on the    *)
(* register it is applied to.  Gates for different numbers of qubits have  *)
(* no product that is a gate, and they are different gates.                *)
Arity(g) == IF g.n \in {"AddC", "SubC", "User", "AddCModN", "SubCModN", "MulCModN", "QFT", "QFTdag", "Entangle", "Entangledag", "QOp", "TE", "TE2"} THEN 0 ELSE Width

(* equal states: the representation is canonical *)
Same(A, B) == A.v = B.v /\ A.e2 = B.e2 /\ A.e5 = B.e5
(* First run: every gate with its effect, its inverse and the gates of the *)
(* same effect.  Second run (Requests is a file): the products the         *)
(* implementation claims to have a single gate for.                        *)
Reqs == IF Requests = "" THEN <<>> ELSE JsonDeserialize(Requests)
AInit == /\ Init
         /\ IF Requests = "" THEN todo \in {<<g>> : g \in Gates} ELSE todo \in {<<i>> : i \in 1..Len(Reqs)}
AStep ==
  /\ todo # <<>>
  /\ IF Requests = ""
     THEN LET g == todo[1] IN
          PrintT(ToJson([g |-> g, w |-> Width, ar |-> Arity(g), id |-> Same(EffOf[g], Choi), s |-> EffOf[g], inv |-> InvGate(g),
                         invs |-> Eff(Choi, InvGate(g)), back |-> Same(Eff(EffOf[g], InvGate(g)), Choi),
                         same |-> {h \in Gates : Same(EffOf[g], EffOf[h])}]))
     ELSE LET r == Reqs[todo[1]] IN
          PrintT(ToJson([i |-> todo[1], s |-> Eff(Eff(Choi, r[1]), r[2])]))
  /\ todo' = <<>> /\ UNCHANGED pvars

(* what the algebra promises, checked on the definitions themselves *)
InverseIsInverse == todo # <<>> /\ Requests = "" => Same(Eff(EffOf[todo[1]], InvGate(todo[1])), Choi)
InverseTwice == todo # <<>> /\ Requests = "" => Same(Eff(Choi, InvGate(InvGate(todo[1]))), EffOf[todo[1]])
=============================================================================
