----------------------------- MODULE ProjectQMC -----------------------------
(***************************************************************************)
(* All programs of at most Steps steps over a small alphabet, exhaustively.*)
(* Every program starts from the same entangled three-qubit state that has *)
(* no symmetry, so that any difference of two programs shows in the state. *)
(* Each complete program is printed with the predicted final state.        *)
(***************************************************************************)
EXTENDS ProjectQ, TLC, Json

CONSTANTS Steps, Alphabet, MaxDepth

VARIABLES step, done

(* ---------------------- the start of every program ---------------------- *)
Prep == << <<G0("H"), <<0>>, <<>> >>, <<Gate("Ry", <<3, 0>>), <<1>>, <<>> >>, <<G0("X"), <<2>>, <<0>> >>,
           <<Gate("Rx", <<5, 0>>), <<2>>, <<>> >>, <<G0("T"), <<0>>, <<>> >>, <<G0("H"), <<1>>, <<>> >>,
           <<Gate("Rz", <<3, 0>>), <<1>>, <<2>> >>, <<Gate("Ry", <<5, 0>>), <<0>>, <<>> >> >>
PrepOps == <<OpA(0), OpA(1), OpA(2)>> \o
           [i \in 1..Len(Prep) |-> OpG(Prep[i][1], Prep[i][2], Prep[i][3], [j \in 1..Len(Prep[i][3]) |-> 1])]
PrepHist == <<Ev("alloc", 0), Ev("alloc", 1), Ev("alloc", 2)>> \o
            [i \in 1..Len(Prep) |-> [a |-> "gate", g |-> Prep[i][1], t |-> Prep[i][2], c |-> Prep[i][3], s |-> [j \in 1..Len(Prep[i][3]) |-> 1]]]

MInit ==
  /\ st = ExecAll([s |-> QEmpty, ok |-> TRUE], PrepOps).s
  /\ frames = <<>> /\ live = <<0, 1, 2>> /\ nid = 3
  /\ meas = [q \in {} |-> 0]
  /\ hist = PrepHist /\ flat = PrepOps
  /\ step = 0 /\ done = FALSE

(* ------------------------------ alphabets ------------------------------- *)
GA(g, t, c, s) == <<g, t, c, s>>
Letters ==
  CASE Alphabet = "meta" ->
         << GA(G0("S"), <<0>>, <<>>, <<>>), GA(G0("H"), <<1>>, <<>>, <<>>), GA(G0("X"), <<1>>, <<0>>, <<0>>) >>
    [] Alphabet = "dagger" ->
         << GA(G0("S"), <<0>>, <<>>, <<>>), GA(Gate("Ry", <<3, 0>>), <<0>>, <<1>>, <<0>>), GA(G0("SqrtX"), <<1>>, <<>>, <<>>),
            GA(Gate("Rxx", <<5, 0>>), <<0, 1>>, <<>>, <<>>) >>
    [] Alphabet = "opt" ->
         << GA(G0("X"), <<0>>, <<>>, <<>>), GA(G0("X"), <<1>>, <<0>>, <<1>>), GA(G0("X"), <<1>>, <<0>>, <<0>>),
            GA(G0("X"), <<0>>, <<1>>, <<1>>), GA(Gate("Rz", <<3, 0>>), <<0>>, <<>>, <<>>), GA(Gate("Rz", <<-3, 0>>), <<0>>, <<>>, <<>>),
            GA(Gate("Rz", <<11, 0>>), <<0>>, <<>>, <<>>),
            GA(Gate("Rz", <<3, 0>>), <<0>>, <<1>>, <<0>>), GA(Gate("Ry", <<8, 0>>), <<1>>, <<>>, <<>>), GA(G0("S"), <<0>>, <<>>, <<>>),
            GA(G0("Sdag"), <<0>>, <<>>, <<>>), GA(G0("H"), <<1>>, <<>>, <<>>), GA(Gate("Rxx", <<4, 0>>), <<0, 1>>, <<>>, <<>>),
            GA(Gate("Rxx", <<4, 0>>), <<1, 0>>, <<2>>, <<1>>), GA(G0("M2a"), <<0, 1>>, <<>>, <<>>), GA(G0("M2adag"), <<1, 0>>, <<>>, <<>>),
            GA(G0("Swap"), <<1, 0>>, <<>>, <<>>), GA(Gate("Ph", <<8, 0>>), <<0>>, <<1>>, <<1>>), GA(Gate("R", <<8, 0>>), <<1>>, <<>>, <<>>) >>
    [] Alphabet = "opt3" ->
         << GA(G0("X"), <<0>>, <<>>, <<>>), GA(G0("X"), <<1>>, <<0>>, <<1>>), GA(G0("X"), <<1>>, <<0>>, <<0>>),
            GA(Gate("Rz", <<8, 0>>), <<1>>, <<>>, <<>>), GA(G0("H"), <<1>>, <<>>, <<>>),
            GA(Gate("Rzz", <<8, 0>>), <<1, 2>>, <<>>, <<>>), GA(G0("X"), <<2>>, <<1>>, <<1>>), GA(G0("X"), <<2>>, <<0, 1>>, <<1, 0>>),
            GA(G0("X"), <<2>>, <<0, 1>>, <<0, 1>>) >>

Sections ==
  CASE Alphabet = "meta" -> {"control0", "dagger", "compute", "loop2", "close", "uncompute", "anc"}
    [] Alphabet = "dagger" -> {"control0", "control1", "dagger", "loop0", "loop3", "compute", "computeanc", "close", "uncompute", "custom"}
    [] OTHER -> {}

Step ==
  \/ \E i \in 1..Len(Letters) : LET l == Letters[i] IN Apply(l[1], l[2], l[3], l[4])
  \/ /\ Len(frames) < MaxDepth
     /\ \/ "control0" \in Sections /\ OpenControl(<<2>>, <<0>>)
        \/ "control1" \in Sections /\ OpenControl(<<2>>, <<1>>)
        \/ "dagger" \in Sections /\ OpenDagger
        \/ "compute" \in Sections /\ OpenCompute
        \/ "computeanc" \in Sections /\ OpenComputeAnc(1)
        \/ "loop0" \in Sections /\ OpenLoop(0)
        \/ "loop2" \in Sections /\ OpenLoop(2)
        \/ "loop3" \in Sections /\ OpenLoop(3)
  \/ "anc" \in Sections /\ 0 \notin CtlQubits /\ AncillaUse(1, G0("S"), 0)
  \/ CloseControl \/ CloseDagger \/ CloseLoop \/ CloseCompute
  \/ "uncompute" \in Sections /\ Uncompute
  \/ "custom" \in Sections /\ CustomUncompute

(* a section still open needs at least one (compute: two) steps to close *)
RECURSIVE Need(_)
Need(i) == IF i = 0 THEN 0 ELSE Need(i - 1) + (IF frames[i].k = "compute" THEN 2 ELSE 1)

MNext ==
  \/ /\ step < Steps /\ ~done
     /\ Step
     /\ step' = step + 1 /\ done' = FALSE
     /\ Len(frames') = 0 \/ Need(Len(frames))' <= Steps - step - 1
  \/ /\ step = Steps /\ ~done /\ ~InFrame
     /\ PrintT(ToJson(Append(hist, [a |-> "flush", s |-> st, flat |-> flat])))
     /\ done' = TRUE
     /\ UNCHANGED <<st, frames, live, nid, meas, hist, flat, step>>

(* The section laws on the machine itself, for every program: a section    *)
(* that closes contributes what its definition says, so a program followed *)
(* by its own inverse restores the initial state.                          *)
Unitary == Normalised
=============================================================================
