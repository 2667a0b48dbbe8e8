-------------------------------- MODULE Mapper --------------------------------
(***************************************************************************)
(* A mapper: the machine between the commands of a program, on logical     *)
(* qubits, and the commands a device gets, on locations.                   *)
(*                                                                         *)
(*   pend   commands that have arrived and were not sent yet               *)
(*   loc    where each logical qubit is                                    *)
(*   on     logical qubits that are allocated on the device                *)
(*   blank  locations allocated for swaps only                             *)
(*   live   logical qubits the program has allocated                       *)
(*   seen   logical qubits the program has ever allocated (of this mapper) *)
(*   over   there were more live qubits than locations at some time; if    *)
(*          locations are used once per job: more qubits in this job       *)
(*   bad    a command cannot be placed (too many qubits)                   *)
(*                                                                         *)
(* Every command is sent once, behind those that arrived before it on one  *)
(* of its qubits, at the location of its qubits; swaps may be inserted and *)
(* move what is at the two locations.  At a flush nothing is pending.      *)
(* Mappers that place once per job announce the placement (event "place"). *)
(*                                                                         *)
(* Traces are recorded from the implementation: arrivals ("in"), sent      *)
(* commands ("out"), placements, refusals ("raise").                       *)
(* trace: [n, topo, jobs, lim, ev |-> <<[o, k, key, t, c, q, sw, ic, ids, at], ...>>] *)
(*   key  names the gate, its parameters and tags; c = <<id, state>> pairs *)
(*   q    logical id in the tag of an allocation, release or measurement   *)
(*   sw   a plain swap; ic: the target qubits are interchangeable          *)
(*   ids, at  the announced mapping (at a flush and a placement)           *)
(*   jobs a flush ends a job; locations are given anew in the next one     *)
(*   lim  bound on the number of qubits of a command (0: none)             *)
(***************************************************************************)
EXTENDS Topology, FiniteSets, TLC, Json

CONSTANT TraceFile
VARIABLES tr, i, pend, loc, on, blank, live, seen, over, bad
vars == <<tr, i, pend, loc, on, blank, live, seen, over, bad>>
Traces == JsonDeserialize(TraceFile)
T == Traces[tr]
E == T.ev[i]

Range(s) == {s[j] : j \in 1..Len(s)}
NoF == [x \in {} |-> 0]
Ids(o) == Range(o.t) \cup {o.c[j][1] : j \in 1..Len(o.c)}
Occupied == {loc[x] : x \in on} \cup blank

(* the first pending command on its qubits *)
First(j) == \A k \in 1..(j - 1) : pend[k].k # "f" /\ Ids(pend[k]) \cap Ids(pend[j]) = {}
Placed(o) == \A x \in Ids(o) : x \in on
At(o) == [o EXCEPT !.t = [j \in 1..Len(o.t) |-> loc[o.t[j]]], !.c = [j \in 1..Len(o.c) |-> <<loc[o.c[j][1]], o.c[j][2]>>]]
SameOp(o, e) == /\ o.key = e.key /\ Len(o.t) = Len(e.t) /\ Len(o.c) = Len(e.c)
                /\ IF o.ic THEN Range(o.t) = Range(e.t) ELSE o.t = e.t
                /\ Range(o.c) = Range(e.c)
Without(j) == [k \in 1..(Len(pend) - 1) |-> pend[IF k < j THEN k ELSE k + 1]]
Here(e) == Range(e.t) \cup {e.c[j][1] : j \in 1..Len(e.c)}
Reach(e) == \/ Cardinality(Here(e)) = 1
            \/ Cardinality(Here(e)) = 2 /\ LET q == [j \in 1..Len(e.c) |-> e.c[j][1]] \o e.t IN Connected(T.topo, q[1], q[2])
            \/ Cardinality(Here(e)) > 2 /\ T.topo.k = "none"

(* the qubit an allocation at location l may be for *)
Cand(kind, e) == {j \in 1..Len(pend) : /\ pend[j].k = kind /\ First(j)
                                       /\ IF e.q >= 0 THEN pend[j].t[1] = e.q ELSE T.fixed /\ pend[j].t[1] \in DOMAIN loc /\ loc[pend[j].t[1]] = e.t[1]}

(* ------------------------------- steps ---------------------------------- *)
In ==
  /\ E.o = "in"
  /\ pend' = Append(pend, E)
  /\ live' = CASE E.k = "a" -> live \cup {E.t[1]} [] E.k = "d" -> live \ {E.t[1]} [] OTHER -> live
  /\ seen' = IF E.k = "a" THEN seen \cup {E.t[1]} ELSE seen
  /\ over' = (over \/ Cardinality(IF T.jobs = "new" THEN seen' ELSE live') > T.n)
  /\ bad' = (bad \/ (E.k = "g" /\ T.lim > 0 /\ Len(E.t) + Len(E.c) > T.lim))
  /\ UNCHANGED <<loc, on, blank>>
Alloc ==
  /\ E.o = "out" /\ E.k = "a" /\ Located(T.topo, E.t[1]) /\ E.t[1] \notin Occupied
  /\ \/ \E j \in Cand("a", E) : LET x == pend[j].t[1] IN
          /\ on' = on \cup {x} /\ loc' = [y \in DOMAIN loc \cup {x} |-> IF y = x THEN E.t[1] ELSE loc[y]]
          /\ pend' = Without(j) /\ UNCHANGED blank
     \/ E.q < 0 /\ ~T.fixed /\ blank' = blank \cup {E.t[1]} /\ UNCHANGED <<on, loc, pend>>
  /\ UNCHANGED <<live, seen, over, bad>>
Dealloc ==
  /\ E.o = "out" /\ E.k = "d"
  /\ \/ \E j \in Cand("d", E) : LET x == pend[j].t[1] IN
          /\ (x \in on \/ (T.jobs = "new" /\ x \in DOMAIN loc)) /\ loc[x] = E.t[1] /\ on' = on \ {x} /\ pend' = Without(j) /\ UNCHANGED blank
     \/ E.q < 0 /\ ~T.fixed /\ E.t[1] \in blank /\ blank' = blank \ {E.t[1]} /\ UNCHANGED <<on, pend>>
  /\ UNCHANGED <<loc, live, seen, over, bad>>
Do ==
  /\ E.o = "out" /\ E.k \in {"g", "m"} /\ Reach(E) /\ ~bad
  /\ \E j \in 1..Len(pend) :
       /\ pend[j].k = E.k /\ First(j) /\ Placed(pend[j]) /\ SameOp(At(pend[j]), E)
       /\ E.k = "m" => E.q = pend[j].t[1]
       /\ pend' = Without(j)
  /\ UNCHANGED <<loc, on, blank, live, seen, over, bad>>
Moved(l) == CASE l = E.t[1] -> E.t[2] [] l = E.t[2] -> E.t[1] [] OTHER -> l
SwapIn ==
  /\ E.o = "out" /\ E.k = "g" /\ E.sw /\ Reach(E) /\ ~T.fixed
  /\ Range(E.t) \subseteq Occupied
  /\ loc' = [x \in DOMAIN loc |-> IF x \in on THEN Moved(loc[x]) ELSE loc[x]]
  /\ blank' = {Moved(l) : l \in blank}
  /\ UNCHANGED <<pend, on, live, seen, over, bad>>
Told(x) == \E j \in 1..Len(E.ids) : E.ids[j] = x /\ E.at[j] = loc[x]
Flush ==
  /\ E.o = "out" /\ E.k = "f"
  /\ Len(pend) = 1 /\ pend[1].k = "f" /\ ~bad /\ blank = {}
  /\ \A x \in on : Told(x)
  /\ pend' = <<>>
  \* in the next job locations are given anew
  /\ on' = IF T.jobs = "new" THEN {} ELSE on
  /\ live' = IF T.jobs = "new" THEN {} ELSE live
  /\ over' = FALSE
  /\ seen' = IF T.jobs = "new" THEN {} ELSE seen
  /\ UNCHANGED <<loc, blank, bad>>
(* the placement of the job *)
Place ==
  /\ E.o = "place"
  /\ Cardinality(Range(E.ids)) = Len(E.ids) /\ Cardinality(Range(E.at)) = Len(E.at)
  /\ \A j \in 1..Len(E.at) : Located(T.topo, E.at[j])
  /\ on \subseteq Range(E.ids)
  /\ loc' = [x \in Range(E.ids) |-> E.at[CHOOSE j \in 1..Len(E.ids) : E.ids[j] = x]]
  /\ UNCHANGED <<pend, on, blank, live, seen, over, bad>>
(* a program may be refused if it cannot be placed *)
Inj(f) == \A x \in DOMAIN f : \A y \in DOMAIN f : x # y => f[x] # f[y]
Placeable ==
  LET cx == {j \in 1..Len(pend) : pend[j].k = "g" /\ Len(pend[j].t) + Len(pend[j].c) = 2}
      pair(j) == [k \in 1..Len(pend[j].c) |-> pend[j].c[k][1]] \o pend[j].t
  IN /\ Cardinality(seen) <= T.n
     /\ (cx # {} => \E f \in [seen -> 0..(T.n - 1)] :
           Inj(f) /\ \A j \in cx : Connected(T.topo, f[pair(j)[1]], f[pair(j)[2]]) \/ Connected(T.topo, f[pair(j)[2]], f[pair(j)[1]]))
Raise == /\ E.o = "raise" /\ (over \/ bad \/ (T.fixed /\ ~Placeable))
         /\ UNCHANGED <<pend, loc, on, blank, live, seen, over, bad>>

Step == In \/ Alloc \/ Dealloc \/ Do \/ SwapIn \/ Flush \/ Place \/ Raise
Why == CASE E.o = "raise" -> "is refused without a reason"
         [] E.o = "place" -> "places two qubits at the same location"
         [] E.k = "f" -> (IF pend = <<>> \/ pend[Len(pend)].k # "f" THEN "flushes on its own"
                          ELSE IF Len(pend) > 1 THEN "flushes while commands are pending"
                          ELSE IF bad THEN "accepts a command that it cannot place"
                          ELSE IF blank # {} THEN "leaves locations allocated" ELSE "announces another mapping")
         [] E.k = "a" -> "allocates a location that is in use, or without a reason"
         [] E.k = "d" -> "deallocates without a reason"
         [] ~Reach(E) -> "acts on locations that are not connected"
         [] OTHER -> "sends a command that is not next on its qubits, or elsewhere"

Init == /\ tr \in 1..Len(Traces) /\ i = 1 /\ pend = <<>> /\ loc = NoF /\ on = {} /\ blank = {} /\ live = {} /\ seen = {}
        /\ over = FALSE /\ bad = FALSE
Next ==
  /\ i <= Len(T.ev) + 1 /\ UNCHANGED tr
  /\ IF i = Len(T.ev) + 1
     THEN PrintT(ToJson([ok |-> tr])) /\ i' = i + 1 /\ UNCHANGED <<pend, loc, on, blank, live, seen, over, bad>>
     ELSE \/ Step /\ i' = i + 1
          \/ ~ENABLED Step /\ PrintT(ToJson([stuck |-> tr, at |-> i, why |-> Why])) /\ i' = Len(T.ev) + 2
             /\ UNCHANGED <<pend, loc, on, blank, live, seen, over, bad>>
=============================================================================
