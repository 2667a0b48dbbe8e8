------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* Qubit handles and the commands their life gives rise to.                *)
(*                                                                         *)
(*   vars  what the program's names are bound to: sequences of qubits      *)
(*         (registers); a qubit lives as long as some register holds it    *)
(*   dead  qubits that were released while registers still hold them       *)
(*   st    exact state of the live qubits (a qubit can only be released in *)
(*         a classical state)                                              *)
(*   rec   recorded measurement results                                    *)
(*                                                                         *)
(* Each event carries out: the commands that reach the backend, a sequence *)
(* of groups; the order within a group (registers dropped at once) is open.*)
(* err |-> TRUE: the step is refused.  Refused steps that would leave the  *)
(* backend with a qubit it cannot release and no handle refers to end the  *)
(* program; every other refused step leaves everything as it was.          *)
(***************************************************************************)
EXTENDS HighGates, TLC, Json

CONSTANTS Names,      \* names of the program
          MaxQ,       \* bound on the live qubits
          Steps,
          Random,     \* draw the steps at random (simulation)
          Sections    \* also work qubits in meta sections

VARIABLES vars, dead, st, rec, nid, hist, step, over, done
lvars == <<vars, dead, st, rec, nid, hist, step, over, done>>

Set(s) == {s[i] : i \in 1..Len(s)}
Refs(v) == UNION {Set(v[x]) : x \in Names}
Alive(v) == Refs(v) \ dead
X1(t) == [g |-> "X", t |-> <<t>>, c |-> <<>>]
H1(t) == [g |-> "H", t |-> <<t>>, c |-> <<>>]
CX(c, t) == [g |-> "X", t |-> <<t>>, c |-> <<c>>]
ExecG(S, g) == QApplyGate(S, G0(g.g), g.t, g.c, [i \in 1..Len(g.c) |-> 1])

CmdA(q) == [o |-> "a", t |-> <<q>>, c |-> <<>>, g |-> "", d |-> FALSE]
CmdAD(q) == [CmdA(q) EXCEPT !.d = TRUE]
CmdD(q, dirty) == [o |-> "d", t |-> <<q>>, c |-> <<>>, g |-> "", d |-> dirty]
CmdM(q) == [o |-> "m", t |-> <<q>>, c |-> <<>>, g |-> "", d |-> FALSE]
CmdG(g) == [o |-> "g", t |-> g.t, c |-> g.c, g |-> g.g, d |-> FALSE]
CmdF == [o |-> "f", t |-> <<>>, c |-> <<>>, g |-> "", d |-> FALSE]

(* qubits allocated as dirty are released with the same tag *)
Dirty(q) == \E i \in 1..Len(hist) : hist[i].a = "new" /\ hist[i].dirty /\ q \in hist[i].n..(hist[i].n + hist[i].k - 1)

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SeqOf(S \ {x})
Classical(S, q) == QClassical(S, q) # 2
RECURSIVE DeallocAll(_, _)
DeallocAll(S, D) == IF D = <<>> THEN S ELSE DeallocAll(QDealloc(S, D[1]), Tail(D))
Group(D) == IF D = {} THEN <<>> ELSE << [i \in 1..Cardinality(D) |-> CmdD(SeqOf(D)[i], Dirty(SeqOf(D)[i]))] >>

Log(e) == hist' = Append(hist, e)
E(a, args, out, err) == [a |-> a, out |-> out, err |-> err] @@ args

(* rebind the names to v2 after the commands pre (with state S2), then     *)
(* release what nothing refers to any more                                 *)
Rebind(v2, d2, S2, a, args, pre) ==
  LET lost == {q \in (Refs(vars) \ Refs(v2)) : q \notin d2}
      ok == \A q \in lost : Classical(S2, q)
  IN /\ vars' = v2 /\ dead' = (d2 \cap Refs(v2))
     /\ over' = ~ok
     /\ st' = IF ok THEN DeallocAll(S2, SeqOf(lost)) ELSE S2
     /\ Log(E(a, args, pre \o Group(lost), ~ok))

(* ------------------------------- registers ------------------------------ *)
New(x, k, dirty) ==
  /\ Cardinality(Alive(vars)) + k <= MaxQ
  /\ LET ids == [i \in 1..k |-> nid + i - 1]
         RECURSIVE AllocAll(_, _)
         AllocAll(S, i) == IF i > k THEN S ELSE AllocAll(QAlloc(S, ids[i]), i + 1)
     IN Rebind([vars EXCEPT ![x] = ids], dead, AllocAll(st, 1), "new", [x |-> x, k |-> k, n |-> nid, dirty |-> dirty],
               [i \in 1..k |-> <<IF dirty THEN CmdAD(ids[i]) ELSE CmdA(ids[i])>>])
  /\ nid' = nid + k /\ UNCHANGED rec
Copy(x, y) ==
  /\ x # y /\ vars[y] # <<>>
  /\ Rebind([vars EXCEPT ![x] = vars[y]], dead, st, "copy", [x |-> x, y |-> y], <<>>)
  /\ UNCHANGED <<nid, rec>>
Concat(x, y, z) ==
  /\ y # z /\ vars[y] # <<>> /\ vars[z] # <<>> /\ Len(vars[y]) + Len(vars[z]) <= MaxQ + 1
  /\ Rebind([vars EXCEPT ![x] = vars[y] \o vars[z]], dead, st, "concat", [x |-> x, y |-> y, z |-> z], <<>>)
  /\ UNCHANGED <<nid, rec>>
Slice(x, y, i, j) ==
  /\ vars[y] # <<>> /\ i <= j /\ j <= Len(vars[y])
  /\ Rebind([vars EXCEPT ![x] = SubSeq(vars[y], i, j)], dead, st, "slice", [x |-> x, y |-> y, i |-> i, j |-> j], <<>>)
  /\ UNCHANGED <<nid, rec>>
Del(x) ==
  /\ vars[x] # <<>>
  /\ Rebind([vars EXCEPT ![x] = <<>>], dead, st, "del", [x |-> x], <<>>)
  /\ UNCHANGED <<nid, rec>>
DelItem(x, i) ==
  /\ i <= Len(vars[x])
  /\ Rebind([vars EXCEPT ![x] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))], dead, st, "delitem", [x |-> x, i |-> i], <<>>)
  /\ UNCHANGED <<nid, rec>>

(* --------------------------------- use ---------------------------------- *)
Gate1(g, x, i) ==
  /\ i <= Len(vars[x])
  /\ LET q == vars[x][i]
         bad == q \in dead
         cmd == IF g = "X" THEN X1(q) ELSE H1(q)
     IN /\ st' = IF bad THEN st ELSE ExecG(st, cmd)
        /\ Log(E("gate", [g |-> g, x |-> x, i |-> i], IF bad THEN <<>> ELSE <<<<CmdG(cmd)>>>>, bad))
  /\ UNCHANGED <<vars, dead, rec, nid, over>>
Gate2(x, i, y, j) ==
  /\ i <= Len(vars[x]) /\ j <= Len(vars[y])
  /\ LET c == vars[x][i]  t == vars[y][j]
         bad == c \in dead \/ t \in dead
     IN /\ c # t
        /\ st' = IF bad THEN st ELSE ExecG(st, CX(c, t))
        /\ Log(E("cx", [x |-> x, i |-> i, y |-> y, j |-> j], IF bad THEN <<>> ELSE <<<<CmdG(CX(c, t))>>>>, bad))
  /\ UNCHANGED <<vars, dead, rec, nid, over>>
Measure(x, i, r) ==
  /\ i <= Len(vars[x])
  /\ LET q == vars[x][i]
         bad == q \in dead
         det == IF bad THEN 2 ELSE QClassical(st, q)
     IN /\ det = 2 \/ det = r
        /\ bad => r = 0
        /\ st' = IF bad THEN st ELSE QProject(st, q, r)
        /\ rec' = IF bad THEN rec ELSE [k \in DOMAIN rec \cup {q} |-> IF k = q THEN r ELSE rec[k]]
        /\ Log(E("measure", [x |-> x, i |-> i, r |-> r, det |-> det], IF bad THEN <<>> ELSE <<<<CmdM(q)>>>>, bad))
  /\ UNCHANGED <<vars, dead, nid, over>>
Read(x, i) ==
  /\ i <= Len(vars[x])
  /\ LET q == vars[x][i]
         r == IF q \in dead \/ q \notin DOMAIN rec THEN 2 ELSE rec[q]
     IN Log(E("read", [x |-> x, i |-> i, r |-> r], <<<<CmdF>>>>, r = 2))
  /\ UNCHANGED <<vars, dead, st, rec, nid, over>>
Release(x, i, how) ==
  /\ i <= Len(vars[x])
  /\ LET q == vars[x][i]
         bad == q \in dead
         ok == ~bad /\ Classical(st, q)
         a == [x |-> x, i |-> i, how |-> how]
     IN IF bad
        THEN \* releasing twice: the handle knows, the engine refuses
             /\ Log(E("release", a @@ [why |-> "twice"], <<>>, how = "engine")) /\ UNCHANGED <<dead, st, over>>
        ELSE \* the backend refuses to release a superposed qubit: asked for by the engine,
             \* the qubit is still there; a handle that is given up is lost
             /\ over' = (~ok /\ how = "handle")
             /\ dead' = IF ok THEN dead \cup {q} ELSE dead
             /\ st' = IF ok THEN QDealloc(st, q) ELSE st
             /\ Log(E("release", a @@ [why |-> IF ok THEN "" ELSE "superposed"],
                      IF ~ok /\ how = "engine" THEN <<>> ELSE <<<<CmdD(q, Dirty(q))>>>>, ~ok))
  /\ UNCHANGED <<vars, rec, nid>>
Flush ==
  /\ Log(E("flush", [s |-> st], <<<<CmdF>>>>, FALSE))
  /\ UNCHANGED <<vars, dead, st, rec, nid, over>>
FlushAll ==
  /\ LET live == Alive(vars)
         ok == \A q \in live : Classical(st, q)
     IN /\ over' = ~ok
        /\ dead' = IF ok THEN Refs(vars) ELSE dead
        /\ st' = IF ok THEN DeallocAll(st, SeqOf(live)) ELSE st
        /\ Log(E("flushall", [z |-> 0], Group(live) \o <<<<CmdF>>>>, ~ok))
  /\ UNCHANGED <<vars, rec, nid>>

(* a work qubit in a section: q is copied into it and erased again *)
WorkCmds(n, q) == <<<<CmdA(n)>>, <<CmdG(CX(q, n))>>, <<CmdG(CX(q, n))>>, <<CmdD(n, FALSE)>>>>
RECURSIVE WorkLoop(_, _, _)
WorkLoop(n, k, q) == IF k = 0 THEN <<>> ELSE WorkCmds(n, q) \o WorkLoop(n + 1, k - 1, q)
Work(kind, k, x, i) ==
  /\ i <= Len(vars[x]) /\ vars[x][i] \notin dead /\ Cardinality(Alive(vars)) < MaxQ
  /\ Log(E("work", [kind |-> kind, k |-> k, x |-> x, i |-> i], WorkLoop(nid, k, vars[x][i]), FALSE))
  /\ nid' = nid + k
  /\ UNCHANGED <<vars, dead, st, rec, over>>

(* ------------------------------- exploration ---------------------------- *)
(* Names that are not used yet are interchangeable: take them in order. *)
Used == {hist[i].x : i \in {j \in 1..Len(hist) : "x" \in DOMAIN hist[j]}}
Fresh(x) == x \in Used \/ \A y \in Names \ Used : x <= y

Small == \A i \in DOMAIN st.v : RMaxAbs(st.v[i]) < 100000
Free(x) == Fresh(x)
StepAll ==
  \/ \E x \in Names : /\ Free(x)
                      /\ \/ \E k \in 1..2 : New(x, k, FALSE)
                         \/ Del(x)
                         \/ \E y \in Names : Copy(x, y) \/ \E z \in Names : Concat(x, y, z)
                         \/ \E y \in Names : \E i, j \in 1..2 : i < j + 1 /\ j - i + 1 < Len(vars[y]) /\ Slice(x, y, i, j)
  \/ \E x \in Names : \E i \in 1..2 :
        \/ DelItem(x, i)
        \/ \E g \in {"X", "H"} : Gate1(g, x, i)
        \/ \E r \in 0..1 : Measure(x, i, r)
        \/ Read(x, i)
        \/ \E h \in {"handle", "engine"} : Release(x, i, h)
        \/ \E y \in Names : \E j \in 1..2 : Gate2(x, i, y, j)
  \/ Flush \/ FlushAll

NameSeq == SeqOf(Names)
Pick(d) ==
  LET x == NameSeq[(d[2] % Len(NameSeq)) + 1]
      y == NameSeq[(d[3] % Len(NameSeq)) + 1]
      z == NameSeq[(d[4] % Len(NameSeq)) + 1]
      at(v, e) == 1 + (e % (IF Len(vars[v]) = 0 THEN 1 ELSE Len(vars[v])))
      i == at(x, d[5])  j == at(y, d[6])
      w == d[1] % 52
  IN CASE w < 9 -> New(x, 1 + (d[5] % 3), d[6] % 3 = 0)
       [] w = 9 -> New(x, 0, FALSE)
       [] w \in 10..12 -> Copy(x, y)
       [] w \in 13..14 -> Concat(x, y, z)
       [] w \in 15..16 -> LET a == 1 + (d[5] % 4) IN Slice(x, y, a, at(y, d[6]))
       [] w \in 17..19 -> Del(x)
       [] w \in 20..21 -> DelItem(x, i)
       [] w \in 22..25 -> Gate1("X", x, i)
       [] w \in 26..28 -> Gate1("H", x, i)
       [] w \in 29..33 -> Gate2(x, i, y, j)
       [] w \in 34..40 -> Measure(x, i, d[4] % 2)
       [] w \in 41..42 -> Read(x, i)
       [] w \in 43..45 -> Release(x, i, IF d[6] % 2 = 0 THEN "handle" ELSE "engine")
       [] w \in 46..47 -> Flush
       [] w = 48 -> IF d[5] % 3 = 0 THEN FlushAll ELSE Flush
       [] OTHER -> LET k == d[6] % 5 IN
                   Sections /\ IF k < 2 THEN Work("loop", 1 + (d[4] % 3), x, i)
                               ELSE Work(IF k = 2 THEN "dagger" ELSE IF k = 3 THEN "compute" ELSE "plain", 1, x, i)
StepRandom ==
  \E d \in {<<RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999),
              RandomElement(0..9999)>>} : Pick(d)

(* dropping the engine releases what is left (it must be classical) *)
End ==
  /\ ~done /\ (over \/ step = Steps)
  /\ LET live == Alive(vars)
         ok == ~over /\ \A q \in live : Classical(st, q)
     IN PrintT(ToJson(hist \o (IF over THEN <<>> ELSE
          <<E("end", [z |-> 0], IF ok THEN Group(live) \o <<<<CmdF>>>> ELSE <<>>, ~ok)>>)))
  /\ done' = TRUE
  /\ UNCHANGED <<vars, dead, st, rec, nid, hist, step, over>>

Init == /\ vars = [x \in Names |-> <<>>] /\ dead = {} /\ st = QEmpty /\ rec = [q \in {} |-> 0] /\ nid = 0
        /\ hist = <<>> /\ step = 0 /\ over = FALSE /\ done = FALSE
Next == \/ /\ ~over /\ step < Steps /\ step' = step + 1 /\ UNCHANGED done
           /\ IF Random THEN StepRandom ELSE StepAll
           /\ Small' 
        \/ Random /\ ~over /\ step < Steps /\ step' = step + 1 /\ UNCHANGED <<vars, dead, st, rec, nid, hist, over, done>>
        \/ End

(* ------------------------------ properties ------------------------------ *)
Outs == LET RECURSIVE Cat(_) Cat(h) == IF h = <<>> THEN <<>> ELSE h[1].out \o Cat(Tail(h)) IN Cat(hist)
Flat == LET RECURSIVE Cat(_) Cat(h) == IF h = <<>> THEN <<>> ELSE h[1] \o Cat(Tail(h)) IN Cat(Outs)
(* every qubit is allocated once, used while it is alive, released at most once *)
WellFormed == over \/ \A i \in 1..Len(Flat) : LET e == Flat[i] IN
  /\ e.o = "a" => \A j \in 1..(i - 1) : e.t[1] \notin Set(Flat[j].t)
  /\ e.o # "f" => \A q \in Set(e.t \o e.c) :
        /\ Cardinality({j \in 1..i : Flat[j].o = "a" /\ Flat[j].t[1] = q}) = 1
        /\ \A j \in 1..(i - 1) : ~(Flat[j].o = "d" /\ Flat[j].t[1] = q)
(* the backend's qubits are the ones the program can reach *)
Consistent == over \/ Set(st.ids) = Alive(vars)
=============================================================================
