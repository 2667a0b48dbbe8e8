-------------------------------- MODULE FlipGen --------------------------------
(* Coupling maps and commands on located qubits. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Len0, Random
VARIABLES arrows, prog, done
Pairs == {p \in (0..(N - 1)) \X (0..(N - 1)) : p[1] # p[2]}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
PairSeq == SeqOf(Pairs)
Two == <<"CX", "nCX", "CXT", "CXTT", "Swap", "SwapT", "CZ", "CH", "Rzz", "SqrtSwap">>
Most == <<"CX", "CX", "nCX", "CXT", "CXTT", "Swap", "Swap", "SwapT", "CZ", "CH", "Rzz", "SqrtSwap">>
One == <<"X", "H", "T", "Rz", "Measure", "Barrier">>
Op(g, q) == [g |-> g, q |-> q]
Out == ToJson([arrows |-> SeqOf(arrows), prog |-> prog])
Init == /\ prog = <<>> /\ done = FALSE /\ (IF Random THEN arrows = {} ELSE arrows \in SUBSET Pairs)
Next ==
  /\ ~done
  /\ \/ /\ ~Random /\ Len(prog) < Len0 /\ UNCHANGED <<arrows, done>>
        /\ \E p \in Pairs : \E g \in 1..Len(Two) : prog' = Append(prog, Op(Two[g], p))
     \/ ~Random /\ Len(prog) = Len0 /\ done' = TRUE /\ PrintT(Out) /\ UNCHANGED <<arrows, prog>>
     \* half of the pairs are connected, and most commands act on connected ones
     \/ /\ Random /\ arrows = {} /\ UNCHANGED <<prog, done>>
        /\ \E d \in {<<RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999)>>} :
              arrows' = {PairSeq[1]} \cup {PairSeq[j] : j \in {k \in 1..Len(PairSeq) : ((d[1] * k) + d[2] + ((d[3] * k * k) % 101) + (d[4] \div k)) % 5 < 2}}
     \/ /\ Random /\ arrows # {} /\ Len(prog) < Len0 /\ UNCHANGED <<arrows, done>>
        /\ \E d \in {<<RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999)>>} :
             LET a == SeqOf(arrows)
                 p == IF d[1] % 60 = 0 THEN PairSeq[1 + (d[2] % Len(PairSeq))]
                      ELSE IF d[1] % 2 = 0 THEN a[1 + (d[2] % Len(a))] ELSE <<a[1 + (d[2] % Len(a))][2], a[1 + (d[2] % Len(a))][1]>>
             IN prog' = Append(prog, IF d[1] % 5 = 4 THEN Op(One[1 + (d[3] % Len(One))], <<p[1]>>)
                                     ELSE IF d[3] % 23 = 0 THEN Op("CCX", <<p[1], p[2], CHOOSE z \in 0..(N - 1) : z # p[1] /\ z # p[2]>>)
                                     ELSE IF d[3] % 23 = 1 THEN Op("CSwap", <<p[1], p[2], CHOOSE z \in 0..(N - 1) : z # p[1] /\ z # p[2]>>)
                                     ELSE Op(Most[1 + (d[3] % Len(Most))], p))
     \/ Random /\ Len(prog) = Len0 /\ done' = TRUE /\ PrintT(Out) /\ UNCHANGED <<arrows, prog>>
=============================================================================
