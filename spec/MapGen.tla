-------------------------------- MODULE MapGen --------------------------------
(***************************************************************************)
(* Programs for mappers: any history of allocations, releases, gates on    *)
(* one or two qubits, measurements and flushes.                            *)
(*   N     qubits that may be alive at a time                              *)
(*   Over  also programs with too many qubits and too large gates          *)
(*   Jobs  "no", "new": after a flush only new qubits are used,            *)
(*         "ibm": CNOTs only, at most N qubits ever                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Steps, Over, Jobs, Random
VARIABLES hist, live, old, nid
vars == <<hist, live, old, nid>>

G1 == <<"X", "T", "Rz", "H">>
G2 == IF Jobs = "ibm" THEN <<"CX">> ELSE <<"CX", "Swap", "nCX", "CZ", "Rzz", "SwapT", "CXT">>
Cap == IF Over THEN N + 2 ELSE N
O(k, g, q) == [k |-> k, g |-> g, q |-> q]
Init == hist = <<>> /\ live = <<>> /\ old = <<>> /\ nid = 0
Drop(s, j) == [k \in 1..(Len(s) - 1) |-> s[IF k < j THEN k ELSE k + 1]]
Emit(o) == hist' = Append(hist, o)
Alloc == /\ Len(live) < Cap /\ (Jobs = "ibm" => nid < Cap)
         /\ Emit(O("a", "", <<nid>>)) /\ live' = Append(live, nid) /\ nid' = nid + 1 /\ UNCHANGED old
Dealloc(j) == /\ Emit(O("d", "", <<live[j]>>)) /\ live' = Drop(live, j) /\ UNCHANGED <<old, nid>>
DeallocOld(j) == /\ Emit(O("d", "", <<old[j]>>)) /\ old' = Drop(old, j) /\ UNCHANGED <<live, nid>>
One(g, j) == /\ Emit(O("g", g, <<live[j]>>)) /\ UNCHANGED <<live, old, nid>>
Two(g, j, k) == /\ j # k /\ Emit(O("g", g, <<live[j], live[k]>>)) /\ UNCHANGED <<live, old, nid>>
Three(j) == /\ Emit(O("g", "CCX", <<live[j], live[(j % Len(live)) + 1], live[((j + 1) % Len(live)) + 1]>>)) /\ UNCHANGED <<live, old, nid>>
Meas(j) == /\ Emit(O("m", "", <<live[j]>>)) /\ UNCHANGED <<live, old, nid>>
Flush == /\ Emit(O("f", "", <<>>)) /\ UNCHANGED nid
         /\ IF Jobs = "new" THEN live' = <<>> /\ old' = old \o live ELSE UNCHANGED <<live, old>>
Draw(d) ==
  LET n == Len(live)  j == 1 + (d[2] % (IF n = 0 THEN 1 ELSE n))  k == 1 + (d[3] % (IF n = 0 THEN 1 ELSE n))  w == d[1] % 40
  IN CASE w < 9 \/ n = 0 -> IF Len(live) < Cap /\ (Jobs = "ibm" => nid < Cap) THEN Alloc ELSE IF n > 1 /\ j # k THEN Two(G2[1], j, k) ELSE Flush
       [] w \in 9..11 -> IF Jobs # "ibm" \/ d[3] % 4 = 0 THEN Dealloc(j) ELSE One("H", j)
       [] w \in 12..15 -> One(G1[1 + (d[3] % 4)], j)
       [] w \in 16..33 -> IF n > 1 /\ j # k THEN Two(G2[1 + (d[4] % Len(G2))], j, k) ELSE One("H", j)
       [] w \in 34..36 -> Meas(j)
       [] w = 37 -> IF old # <<>> THEN DeallocOld(1 + (d[2] % Len(old))) ELSE One("X", j)
       [] w = 38 -> IF Over /\ Jobs # "ibm" /\ n >= 3 /\ d[2] % 3 = 0 THEN Three(j) ELSE Flush
       [] OTHER -> Flush
Next ==
  \/ /\ Len(hist) < Steps
     /\ IF Random
        THEN \E d \in {<<RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999)>>} : Draw(d)
        ELSE \/ Alloc \/ Flush
             \/ \E j \in 1..Len(live) : Dealloc(j) \/ Meas(j) \/ (\E k \in 1..Len(live) : Two("CX", j, k))
             \/ \E j \in 1..Len(live) : \E k \in (j + 1)..Len(live) : Two("Swap", j, k)
  \/ /\ Len(hist) = Steps
     /\ PrintT(ToJson(hist)) /\ hist' = Append(hist, O("f", "", <<>>)) /\ UNCHANGED <<live, old, nid>>
(* what a mapper is asked to do is well formed *)
WellFormed == /\ Cardinality({live[j] : j \in 1..Len(live)}) = Len(live) /\ Len(live) <= Cap
=============================================================================
