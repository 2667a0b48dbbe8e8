------------------------------ MODULE Delivered ------------------------------
(***************************************************************************)
(* What a backend may receive: the machine that accepts a recorded stream  *)
(* of commands.  Every qubit is allocated once, used while it is alive and *)
(* deallocated once; every gate is in the gate set the target declares,    *)
(* acts on distinct qubits, and a two-qubit gate acts on connected ones.   *)
(*                                                                         *)
(* The traces are recorded from the implementation (trace validation): TLC *)
(* reads them from TraceFile, consumes each one command by command and     *)
(* prints where a trace stops being a behaviour of this machine.           *)
(*                                                                         *)
(* trace: [set  |-> <<[n, c, k], ...>>  gates, numbers of controls and of  *)
(*                   qubits (-1: any; n = "*": any gate; k counts controls)*)
(*         no   |-> patterns that are not in the set all the same          *)
(*         pos  |-> only positive controls are allowed in the set          *)
(*         topo |-> [k |-> "none" | "line" | "ring" | "grid" | "edges", ..]*)
(*         loc  |-> ids are locations, which may be allocated again        *)
(*         open |-> qubits may be alive at the end                         *)
(*         ev   |-> <<[o, n, t, c, s], ...>>]                              *)
(***************************************************************************)
EXTENDS Topology, FiniteSets, TLC, Json

CONSTANT TraceFile
VARIABLES tr, i, alive, used
Traces == JsonDeserialize(TraceFile)
T == Traces[tr]

SetOf(s) == {s[j] : j \in 1..Len(s)}
NoDup(s) == Cardinality(SetOf(s)) = Len(s)

(* ------------------------------- gate sets ------------------------------ *)
Matches(e, p) ==
  /\ p.n = "*" \/ p.n = e.n
  /\ p.c = -1 \/ p.c = Len(e.c)
  /\ p.k = -1 \/ p.k = Len(e.t) + Len(e.c)
InSet(e) == /\ \E j \in 1..Len(T.set) : Matches(e, T.set[j])
            /\ \A j \in 1..Len(T.no) : ~Matches(e, T.no[j])
Positive(e) == ~T.pos \/ \A j \in 1..Len(e.s) : e.s[j] = 1

Why(e) ==
  CASE e.o = "a" -> IF Len(e.t) # 1 \/ e.c # <<>> THEN "allocates several qubits"
                    ELSE IF e.t[1] \in alive THEN "allocates a qubit that is alive"
                    ELSE IF e.t[1] \in used /\ ~T.loc THEN "allocates an id a second time"
                    ELSE IF ~Located(T.topo, e.t[1]) THEN "allocates outside the device" ELSE ""
    [] e.o = "d" -> IF e.t[1] \notin alive THEN "deallocates a qubit that is not alive" ELSE ""
    [] e.o = "m" -> IF ~(SetOf(e.t) \subseteq alive) THEN "measures a qubit that is not alive" ELSE ""
    [] e.o = "g" -> IF ~(SetOf(e.t \o e.c) \subseteq alive) THEN "uses a qubit that is not alive"
                    ELSE IF ~NoDup(e.t \o e.c) THEN "uses a qubit twice"
                    ELSE IF Len(e.s) # Len(e.c) THEN "has not one state per control qubit"
                    ELSE IF ~InSet(e) THEN "is not in the gate set"
                    ELSE IF ~Positive(e) THEN "has a negative control, which is not in the gate set"
                    ELSE IF Len(e.t \o e.c) = 2 /\ ~Connected(T.topo, (e.c \o e.t)[1], (e.c \o e.t)[2])
                    THEN "acts on qubits that are not connected"
                    ELSE IF Len(e.t \o e.c) > 2 /\ T.topo.k # "none" THEN "acts on more than two qubits" ELSE ""
    [] OTHER -> ""

Init == /\ tr \in 1..Len(Traces) /\ i = 1 /\ alive = {} /\ used = {}
Consume ==
  /\ i <= Len(T.ev)
  /\ LET e == T.ev[i] IN
     IF Why(e) # "" THEN /\ PrintT(ToJson([stuck |-> tr, at |-> i, why |-> Why(e)]))
                         /\ i' = Len(T.ev) + 2 /\ UNCHANGED <<tr, alive, used>>
     ELSE /\ alive' = CASE e.o = "a" -> alive \cup SetOf(e.t) [] e.o = "d" -> alive \ SetOf(e.t) [] OTHER -> alive
          /\ used' = IF e.o = "a" THEN used \cup SetOf(e.t) ELSE used
          /\ i' = i + 1 /\ UNCHANGED tr
Accept ==
  /\ i = Len(T.ev) + 1
  /\ IF alive # {} /\ ~T.open THEN PrintT(ToJson([stuck |-> tr, at |-> i, why |-> "ends with live qubits"]))
     ELSE PrintT(ToJson([ok |-> tr]))
  /\ i' = Len(T.ev) + 2 /\ UNCHANGED <<tr, alive, used>>
Next == Consume \/ Accept
=============================================================================
