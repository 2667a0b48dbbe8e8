-------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* Chains of engines that pass commands on: which commands a chain accepts,*)
(* what it changes of them, what each engine notes, and which chains the   *)
(* main engine refuses to build.                                           *)
(*                                                                         *)
(* The chain is built engine by engine; every chain is printed with the    *)
(* predictions for each class of commands.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,     \* engines before the backend
          Random,     \* random chains of that length
          Broken      \* chains that must be refused instead

VARIABLES chain, done

Commands == {"X", "CX", "nCX", "H", "CH", "Measure", "Allocate", "Deallocate", "AddC", "TE", "QFT", "Nomat", "M6"}

Engines == <<"id", "fwd", "fwdtag", "tag", "tagrem", "remmine", "filter", "filterand", "dummy", "dummysave", "compare", "printer",
             "drawer", "drawerplt", "counter", "replacer">>
Backends == <<"sim", "classical", "unitary", "dummysave", "compare", "printer", "counter", "drawer", "drawerplt", "id">>

FilterSet == {"X", "CX", "H", "Measure", "Allocate", "Deallocate", "Nomat"}
FilterAndSet == {"X", "H", "CX", "nCX", "QFT", "AddC", "Measure", "Allocate", "Deallocate"}

BackendAccepts(b, c) ==
  CASE b = "sim" -> c \notin {"nCX", "QFT", "Nomat", "M6"}
    [] b = "classical" -> c \in {"X", "CX", "nCX", "Measure", "Allocate", "Deallocate", "AddC"}
    [] b = "unitary" -> c \notin {"nCX", "QFT", "Nomat", "TE", "AddC"}
    [] OTHER -> TRUE
(* what happens to commands that a backend does not announce: the          *)
(* simulators can do controls on zero, all else is an error                *)
BackendRuns(b, c) == BackendAccepts(b, c) \/ c = "nCX"

(* "yes", "no" or "last": no engine answers, because the last one is no    *)
(* backend; engines that can be the last one take that for a yes           *)
RECURSIVE Avail(_, _)
Avail(ch, c) ==
  LET k == ch[1]  yes(b) == IF b THEN "yes" ELSE "no" IN
  IF Len(ch) = 1 THEN (IF k \in {"id", "fwd", "tag", "tagrem"} THEN "last" ELSE yes(BackendAccepts(k, c)))
  ELSE CASE k \in {"dummy", "dummysave", "compare"} -> "yes"
         [] k = "filter" -> yes(c \in FilterSet)
         [] k = "filterand" -> IF c \in FilterAndSet THEN Avail(Tail(ch), c) ELSE "no"
         [] k \in {"printer", "drawer", "drawerplt", "counter"} -> IF Avail(Tail(ch), c) = "last" THEN "yes" ELSE Avail(Tail(ch), c)
         [] OTHER -> Avail(Tail(ch), c)

(* The tags of a command behind the chain.  A tag remover removes the tags *)
(* that are instances of its classes: those of derived classes ("Csub",    *)
(* "minesub") as well.                                                     *)
RECURSIVE Tags(_, _)
Tags(ch, t) ==
  IF Len(ch) = 1 THEN t
  ELSE Tags(Tail(ch), CASE ch[1] \in {"tag", "fwdtag"} -> Append(t, "mine")
                        [] ch[1] = "tagrem" -> SelectSeq(t, LAMBDA x : x \notin {"C", "Csub", "U"})
                        [] ch[1] = "remmine" -> SelectSeq(t, LAMBDA x : x \notin {"mine", "minesub"})
                        [] OTHER -> t)
(* does the command arrive: an automatic replacer without rules stops what *)
(* is not available behind it, a backend what it cannot do                 *)
RECURSIVE Arrives(_, _)
Arrives(ch, c) ==
  IF Len(ch) = 1 THEN (ch[1] # "id" /\ BackendRuns(ch[1], c))
  ELSE (ch[1] # "replacer" \/ Avail(Tail(ch), c) = "yes") /\ Arrives(Tail(ch), c)

(* -------------------------- chains to be refused ------------------------ *)
(* "class": a class instead of an instance, "none": no engine at all,      *)
(* "map": a mapper, "again": the engine before a second time,              *)
(* "most": 99 engines (100 with the backend are allowed)                   *)
BrokenParts == {"id", "class", "none", "map", "again", "dummy", "most"}
BrokenBackends == {"dummysave", "class", "none", "again", "map"}
Verdict(ch, aslist) ==
  LET n == Len(ch)
      body == SubSeq(ch, 1, n - 1)
      bads(s) == \E i \in 1..Len(s) : s[i] \in {"class", "none"}
      size == n + 98 * Cardinality({i \in 1..n : ch[i] = "most"})
      maps(s) == Cardinality({i \in 1..Len(s) : s[i] = "map"})
  IN IF ch[n] = "class" THEN "UnsupportedEngineError"      \* "none": the default backend
     ELSE IF ~aslist THEN "UnsupportedEngineError"
     ELSE IF bads(body) \/ maps(body) > 1 \/ (\E i \in 2..n : ch[i] = "again") THEN "UnsupportedEngineError"
     ELSE IF size > 100 THEN "ValueError"
     ELSE "ok"

(* ------------------------------ exploration ----------------------------- *)
Describe ==
  IF Broken THEN [chain |-> chain, verdict |-> Verdict(chain, TRUE), tuple |-> Verdict(chain, FALSE)]
  ELSE [chain |-> chain,
        avail |-> [c \in Commands |-> Avail(chain, c)],
        arrives |-> [c \in Commands |-> Arrives(chain, c)],
        tags |-> Tags(chain, <<"Csub", "C", "mine", "U", "minesub", "other">>)]

Init == chain = <<>> /\ done = FALSE
Add(k) == chain' = Append(chain, k) /\ UNCHANGED done
Finish(b) == /\ chain' = Append(chain, b) /\ done' = TRUE /\ PrintT(ToJson(Describe'))
Next ==
  /\ ~done
  /\ IF Broken
     THEN \/ Len(chain) < MaxLen /\ \E k \in BrokenParts : (k = "again" => chain # <<>>) /\ Add(k)
          \/ \E b \in BrokenBackends : (b = "again" => chain # <<>>) /\ Finish(b)
     ELSE IF Random
     THEN \E d \in {<<RandomElement(0..9999), RandomElement(0..9999)>>} :
            IF Len(chain) < MaxLen /\ (d[2] % 9 # 0) THEN Add(Engines[(d[1] % Len(Engines)) + 1]) ELSE Finish(Backends[(d[1] % Len(Backends)) + 1])
     ELSE \/ Len(chain) < MaxLen /\ \E i \in 1..Len(Engines) : Add(Engines[i])
          \/ \E i \in 1..Len(Backends) : Finish(Backends[i])

(* a chain that accepts a command delivers it *)
AcceptedArrives == done /\ ~Broken =>
  \A c \in Commands : (Avail(chain, c) = "yes" /\ \A i \in 1..Len(chain) : chain[i] \notin {"filter", "dummy", "dummysave", "compare"}) =>
     Arrives(chain, c) \/ chain[Len(chain)] = "id"
=============================================================================
