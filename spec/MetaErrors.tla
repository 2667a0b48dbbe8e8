----------------------------- MODULE MetaErrors -----------------------------
(***************************************************************************)
(* Which uses of meta sections are refused, and that a refused section     *)
(* leaves no trace.  All programs of at most Steps steps with one open     *)
(* section at a time over classical gates, so the state is a set of bits.  *)
(*                                                                         *)
(* Each program is printed with the error (or "ok") predicted for every    *)
(* step and the bits expected at its end.  The first refusal ends the      *)
(* program, apart from a final probe that the pipeline works as before.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Steps

VARIABLES bit,      \* q0's value as executed so far
          sec,      \* "none", "control", "dagger", "loop0", "loop1", "loop2", "loop3", "compute", "action", "custom"
          body,     \* number of X gates on q0 in the open section
          comp,     \* the same for the compute section that awaits its uncompute
          alloc,    \* inner qubits allocated in the open section (compute: also carried to custom)
          dealloc,  \* inner qubits deallocated there
          outer,    \* whether q1 (allocated outside) is alive
          outerIn,  \* whether it was deallocated inside the open section
          meas,     \* whether the open section contains a measurement
          over,     \* refused
          nid, hist, step, done
vars == <<bit, sec, body, comp, alloc, dealloc, outer, outerIn, meas, over, nid, hist, step, done>>

Init == /\ bit = 0 /\ sec = "none" /\ body = 0 /\ comp = 0 /\ alloc = {} /\ dealloc = {}
        /\ outer = TRUE /\ outerIn = FALSE /\ meas = FALSE /\ over = FALSE /\ nid = 2 /\ hist = <<>> /\ step = 0 /\ done = FALSE

Rec(e, r) == hist' = Append(hist, [a |-> e, r |-> r, n |-> nid])
WithBlocks == {"control", "dagger", "loop0", "loop1", "loop2", "loop3", "compute", "custom"}
Buffered == {"dagger", "loop0", "loop2", "loop3"}       \* sections whose commands wait for the end

(* a measurement is the last command of its section, so that a refusal is  *)
(* due before anything of the section has been sent                        *)
Quiet == ~(meas /\ sec # "action")
GateX == /\ Quiet
         /\ (IF sec = "none" \/ sec = "action" THEN bit' = 1 - bit /\ UNCHANGED body
             ELSE bit' = bit /\ body' = body + 1)
         /\ Rec("x", "ok")
         /\ UNCHANGED <<sec, comp, alloc, dealloc, outer, outerIn, meas, over, nid>>
Open(k) == /\ sec = "none" /\ sec' = k /\ body' = 0 /\ meas' = FALSE /\ alloc' = {} /\ dealloc' = {}
           /\ Rec("open-" \o k, "ok")
           /\ UNCHANGED <<bit, comp, outer, outerIn, over, nid>>
AllocIn == /\ Quiet /\ sec \in WithBlocks /\ alloc' = alloc \cup {nid} /\ nid' = nid + 1
           /\ Rec("alloc", "ok")
           /\ UNCHANGED <<bit, sec, body, comp, dealloc, outer, outerIn, meas, over>>
DeallocIn == /\ Quiet /\ sec \in WithBlocks
             /\ \E q \in alloc \ dealloc : /\ \A p \in alloc \ dealloc : q <= p
                                           /\ dealloc' = dealloc \cup {q}
                                           /\ hist' = Append(hist, [a |-> "dealloc", r |-> "ok", n |-> q])
             /\ UNCHANGED <<bit, sec, body, comp, alloc, outer, outerIn, meas, over, nid>>
DeallocOuter == /\ Quiet /\ sec \in {"dagger", "loop0", "loop2", "loop3", "compute", "control", "custom"} /\ outer
                /\ outer' = FALSE /\ outerIn' = TRUE
                /\ Rec("dealloc-outer", "ok")
                /\ UNCHANGED <<bit, sec, body, comp, alloc, dealloc, meas, over, nid>>
MeasureIn == /\ sec \in {"dagger", "compute"} /\ ~meas /\ meas' = TRUE
             /\ Rec("measure", "ok")
             /\ UNCHANGED <<bit, sec, body, comp, alloc, dealloc, outer, outerIn, over, nid>>

Reps == CASE sec = "loop0" -> 0 [] sec = "loop1" -> 1 [] sec = "loop2" -> 2 [] sec = "loop3" -> 3 [] OTHER -> 1
Parity(n) == n % 2
Leaky == alloc # dealloc \/ outerIn

Finish(r) ==                    \* end of a with block that is accepted or refused
  /\ Rec("close", r)
  /\ over' = (r # "ok")
  /\ meas' = FALSE /\ outerIn' = FALSE
  /\ UNCHANGED <<outer, nid>>
CloseBuffered == /\ sec \in Buffered
                 /\ LET r == IF Leaky THEN "QubitManagementError" ELSE IF meas THEN "error" ELSE "ok" IN
                    /\ Finish(r)
                    /\ bit' = IF r = "ok" THEN Parity(bit + Reps * body) ELSE bit
                 /\ sec' = "none" /\ body' = 0 /\ alloc' = {} /\ dealloc' = {} /\ UNCHANGED comp
(* Controlled on a qubit that is one; a single iteration needs no buffering *)
CloseDirect == /\ sec \in {"control", "loop1"}
               /\ Finish("ok")
               /\ bit' = Parity(bit + body)
               /\ sec' = "none" /\ body' = 0 /\ alloc' = {} /\ dealloc' = {} /\ UNCHANGED comp
CloseCompute == /\ sec = "compute"
                /\ Rec("close", IF outerIn THEN "QubitManagementError" ELSE "ok")
                /\ over' = outerIn
                /\ bit' = Parity(bit + body)
                /\ sec' = "action" /\ comp' = body /\ body' = 0 /\ outerIn' = FALSE
                /\ UNCHANGED <<alloc, dealloc, outer, meas, nid>>
Uncompute == /\ sec = "action"
             /\ Rec("uncompute", IF meas THEN "error" ELSE "ok")
             /\ over' = meas
             /\ bit' = Parity(bit + comp)
             /\ sec' = "none" /\ alloc' = {} /\ dealloc' = {} /\ UNCHANGED <<body, comp, outer, outerIn, meas, nid>>
OpenCustom == /\ sec = "action" /\ sec' = "custom" /\ body' = 0
              /\ Rec("open-custom", "ok")
              /\ UNCHANGED <<bit, comp, alloc, dealloc, outer, outerIn, meas, over, nid>>
CloseCustom == /\ sec = "custom"
               /\ LET r == IF alloc \ dealloc # {} THEN "QubitManagementError" ELSE "ok" IN Finish(r)
               /\ bit' = Parity(bit + body)
               /\ sec' = "none" /\ body' = 0 /\ alloc' = {} /\ dealloc' = {} /\ UNCHANGED comp
(* the user's own exception inside a with block: it comes out unchanged, a *)
(* buffered body is not executed (a loop executes what it has)             *)
Raise == /\ sec \in {"control", "dagger", "custom"}
         /\ Rec("raise", "UserError") /\ over' = TRUE
         /\ bit' = IF sec = "dagger" THEN bit ELSE Parity(bit + body)
         /\ sec' = "none" /\ body' = 0 /\ alloc' = {} /\ dealloc' = {} /\ UNCHANGED <<comp, outer, outerIn, meas, nid>>
(* malformed requests *)
Bad == /\ \E b \in {"uncompute-alone", "custom-alone"} :
            /\ sec \in {"none", "control", "dagger", "loop2"}
            /\ \A i \in 1..Len(hist) : hist[i].r = "ok"
            /\ Rec(b, "NoComputeSectionError")
       /\ UNCHANGED <<bit, sec, body, comp, alloc, dealloc, outer, outerIn, meas, over, nid>>
BadArgs == /\ sec = "none"
           /\ \E b \in { <<"loop-negative", "ValueError">>, <<"loop-float", "TypeError">>, <<"control-tuple", "TypeError">>,
                         <<"control-short", "ValueError">>, <<"control-long", "ValueError">>, <<"control-char", "ValueError">>,
                         <<"control-big", "ValueError">>, <<"control-negative", "ValueError">>, <<"control-type", "TypeError">> } :
                Rec(b[1], b[2])
           /\ over' = TRUE
           /\ UNCHANGED <<bit, sec, body, comp, alloc, dealloc, outer, outerIn, meas, nid>>

Step == \/ GateX \/ AllocIn \/ DeallocIn \/ DeallocOuter \/ MeasureIn \/ CloseBuffered \/ CloseDirect \/ CloseCompute
        \/ Uncompute \/ OpenCustom \/ CloseCustom \/ Raise \/ Bad \/ BadArgs
        \/ \E k \in WithBlocks \ {"custom"} : Open(k)

Emit == /\ ~done /\ (over \/ step = Steps)
        /\ (over \/ sec = "none" => PrintT(ToJson([ev |-> hist, bit |-> bit, outer |-> outer, left |-> sec])))
        /\ done' = TRUE /\ UNCHANGED <<bit, sec, body, comp, alloc, dealloc, outer, outerIn, meas, over, nid, hist, step>>
Next == \/ ~over /\ step < Steps /\ Step /\ step' = step + 1 /\ UNCHANGED done
        \/ Emit

TypeOK == /\ bit \in {0, 1} /\ dealloc \subseteq alloc /\ (sec = "none" => body = 0)
(* nothing is refused without a reason in the program text *)
RefusedForReason == over => \E i \in 1..Len(hist) : hist[i].r \notin {"ok"}
=============================================================================
