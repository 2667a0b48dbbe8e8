-------------------------------- MODULE Jobs --------------------------------
(***************************************************************************)
(* Running a job on a remote service: the protocol between a client (IBM,  *)
(* AQT, IonQ, AWS, Azure) and a server that may answer anything.           *)
(*                                                                         *)
(* The client submits a job (send) or asks for an earlier one (retrieve),  *)
(* polls it until the server says how it ended, and fetches the result.    *)
(* The server chooses every answer; the user may interrupt a wait.  Every  *)
(* behaviour ends with an outcome; TLC enumerates all of them, and they    *)
(* are replayed against the clients with a scripted server.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Service,       \* the service explored, or "polling" for all that poll
          MaxRetries,    \* largest number of polls allowed by the user
          LongRun        \* > 0: instead, that many polls are allowed and the job keeps running until a few before
VARIABLES job,           \* what the user asked for
          pc,            \* the request under way
          polls,         \* polls answered
          script,        \* <<request, answer>> so far
          outcome        \* "" while running
vars == <<job, pc, polls, script, outcome>>

(* the requests before the first poll; "check" is local *)
Before(s, op) ==
  CASE s = "ibm" -> IF op = "send" THEN <<"auth", "devices", "check", "create", "upload", "confirm">> ELSE <<"auth", "devices">>
    [] s = "aqt" -> IF op = "send" THEN <<"check", "submit">> ELSE <<>>
    [] s = "ionq" -> IF op = "send" THEN <<"devices", "check", "submit">> ELSE <<"devices">>
    [] s = "aws" -> IF op = "send" THEN <<"devices", "check", "submit">> ELSE <<>>
    [] s = "azure" -> IF op = "send" THEN <<"check", "submit">> ELSE <<"getjob">>
(* the requests after the server has said that the job is done *)
Fetch(s) == CASE s = "ibm" -> <<"url", "download", "ack">> [] s = "aws" -> <<"kind", "download">> [] OTHER -> <<>>

Faults(s, req) ==
  CASE s = "aws" -> {"denied", "conn", "missing"}
    [] s = "azure" -> IF req = "poll" THEN {"error"} ELSE {"conn"}
    [] s = "ibm" /\ req \in {"upload", "confirm"} -> {"http500", "conn"}          \* only their status is looked at
    [] s = "ibm" /\ req \in {"download"} -> {"conn", "garbage", "missing", "http500"}
    [] s = "ibm" /\ req = "ack" -> {}                                            \* the result is there already
    [] s = "ionq" -> {"http500", "http401", "http400", "conn", "garbage", "missing"}
    [] OTHER -> {"http500", "http401", "conn", "garbage", "missing"}

(* answers with which the job is still under way *)
Waiting(s) == CASE s = "ibm" -> {"VALIDATING", "VALIDATED", "RUNNING"}
                [] s = "aqt" -> {"running"}
                [] s = "ionq" -> {"ready", "running", "submitted"}
                [] s = "aws" -> {"CREATED", "QUEUED", "RUNNING"}
                [] OTHER -> {}
Ended(s) == CASE s = "ibm" -> {"CANCELLED", "ERROR_RUNNING_JOB"}
              [] s = "aqt" -> {"error", "invalid"}
              [] s = "ionq" -> {"failed", "canceled"}
              [] s = "aws" -> {"FAILED", "CANCELLING"}
              [] OTHER -> {}
Done(s) == CASE s = "ibm" -> {"COMPLETED"} [] s = "aqt" -> {"finished", "samples"} [] s = "ionq" -> {"completed"}
             [] s = "aws" -> {"COMPLETED"} [] OTHER -> {"result"}

(* the list of devices is looked up again while waiting *)
Refreshes(s) == s \in {"ibm", "ionq"}

Answers(req) ==
  LET s == job.s IN
  (CASE req = "devices" -> {"there"} \cup (IF pc.again THEN {"gone"} ELSE {})
     [] req = "poll" -> IF LongRun > 0 /\ polls < LongRun - 2 THEN {CHOOSE w \in Waiting(s) : TRUE}
                        ELSE IF s = "azure" THEN {"result", "late"} ELSE Waiting(s) \cup Ended(s) \cup Done(s)
     [] req = "submit" /\ s = "aqt" -> {"queued", "error"}
     [] req = "submit" /\ s = "ionq" -> {"ready", "failed", "canceled"}
     [] req = "kind" -> {"QPU", "SIMULATOR"}
     [] OTHER -> {"ok"})
  \cup (IF LongRun > 0 /\ polls < LongRun - 2 THEN {} ELSE Faults(s, req))

Requests == {[s |-> s, op |-> op, dev |-> d, retries |-> r] :
               s \in IF Service = "polling" THEN {"ibm", "aqt", "ionq", "aws"} ELSE {Service}, op \in {"send", "retrieve"}, d \in {"good", "unknown", "small"},
               r \in IF LongRun > 0 THEN {LongRun} ELSE 0..MaxRetries}
Sensible(j) == /\ j.op = "retrieve" => j.dev = "good"
               /\ j.s = "azure" => j.dev # "small" /\ j.retries > 0
               /\ j.dev # "good" => j.retries = 1

At(i, again) == [k |-> "seq", i |-> i, again |-> again]
ReqOf(p) == CASE p.k = "seq" -> IF p.i <= Len(Before(job.s, job.op)) THEN Before(job.s, job.op)[p.i] ELSE "poll"
              [] p.k = "poll" -> "poll" [] p.k = "refresh" -> "devices" [] p.k = "sleep" -> "sleep"
              [] p.k = "fetch" -> Fetch(job.s)[p.i] [] OTHER -> "none"
Poll == [k |-> "poll", i |-> 0, again |-> FALSE]
PollOrStop == IF polls >= job.retries /\ job.s # "azure" THEN [k |-> "stop", i |-> 0, again |-> FALSE] ELSE Poll

Init == /\ job \in {j \in Requests : Sensible(j)}
        /\ pc = At(1, FALSE) /\ polls = 0 /\ script = <<>> /\ outcome = ""

End(o) == outcome' = o /\ pc' = [k |-> "end", i |-> 0, again |-> FALSE]
Go(p) == outcome' = "" /\ pc' = p
Note(req, a) == script' = Append(script, <<req, a>>)

(* what the client makes of an answer that is not what it waits for *)
Fault(a, req) ==
  CASE job.s = "ionq" /\ job.op = "send" /\ a = "http400" -> "rejected"
    [] job.s = "ionq" /\ a = "http401" -> "unauthorised"
    [] OTHER -> "failed"

Check ==
  /\ ReqOf(pc) = "check" /\ pc.k = "seq"
  /\ CASE job.dev = "unknown" -> End("offline")
       [] job.dev = "small" -> End("too small")
       [] OTHER -> Go(At(pc.i + 1, FALSE))
  /\ UNCHANGED <<job, polls, script>>

Request ==
  LET req == ReqOf(pc) IN
  /\ pc.k \in {"seq", "refresh", "fetch"} /\ req \notin {"check", "poll"}
  /\ \E a \in Answers(req) :
       /\ Note(req, a)
       /\ IF a \in Faults(job.s, req) THEN End(Fault(a, req))
          ELSE CASE pc.k = "refresh" -> IF a = "gone" THEN End("offline") ELSE Go(PollOrStop)
                 [] pc.k = "fetch" -> IF pc.i = Len(Fetch(job.s)) THEN End("result") ELSE Go([pc EXCEPT !.i = @ + 1])
                 [] OTHER -> CASE req = "submit" /\ a = "error" -> End("failed")
                               [] req = "submit" /\ a \in {"failed", "canceled"} -> End("rejected")
                               [] OTHER -> Go(At(pc.i + 1, FALSE))
  /\ UNCHANGED <<job, polls>>

StartPolling == /\ pc.k = "seq" /\ ReqOf(pc) = "poll" /\ Go(PollOrStop) /\ UNCHANGED <<job, polls, script>>

PollOnce ==
  /\ pc.k = "poll" /\ outcome = ""
  /\ \E a \in Answers("poll") :
       /\ Note("poll", a)
       /\ polls' = polls + 1
       /\ CASE a \in Waiting(job.s) -> Go([k |-> "sleep", i |-> 0, again |-> FALSE])
            [] a = "late" -> End("timeout")
            [] a \in Done(job.s) -> IF Fetch(job.s) = <<>> THEN End("result") ELSE Go([k |-> "fetch", i |-> 1, again |-> FALSE])
            [] a \in Ended(job.s) -> End("failed")
            [] OTHER -> End(Fault(a, "poll"))
  /\ UNCHANGED job

(* a wait ends, or the user interrupts it *)
Sleep ==
  /\ pc.k = "sleep"
  /\ \/ /\ Note("sleep", "ok")
        /\ IF Refreshes(job.s) /\ (polls - 1) % 60 = 0 THEN Go([k |-> "refresh", i |-> 0, again |-> TRUE]) ELSE Go(PollOrStop)
     \/ /\ ~(LongRun > 0 /\ polls < LongRun - 2)
        /\ Note("sleep", "interrupt") /\ End("interrupted")
  /\ UNCHANGED <<job, polls>>

Stop == /\ pc.k = "stop" /\ End("timeout") /\ UNCHANGED <<job, polls, script>>

Next == /\ outcome = ""
        /\ Check \/ Request \/ StartPolling \/ PollOnce \/ Sleep \/ Stop
        /\ outcome' # "" => PrintT(ToJson([job |-> job, script |-> script', outcome |-> outcome']))

(* ------------------------------ the guarantees ---------------------------- *)
Count(req) == Cardinality({i \in 1..Len(script) : script[i][1] = req})
Pos(reqs) == {i \in 1..Len(script) : script[i][1] \in reqs}
Submits == Pos({"submit", "create"})
SubmitsOnce == Cardinality(Submits) <= (IF job.op = "send" THEN 1 ELSE 0)
NeverToTheWrongDevice == job.dev # "good" => Submits = {} /\ Pos({"poll"}) = {}
PollsBounded == Count("poll") <= (IF job.s = "azure" THEN 1 ELSE job.retries)
NoPollBeforeSubmit == job.op = "send" => \A i \in Pos({"poll"}) : \E j \in Submits : j < i
(* a result is only reported when the server has said the job is done, and it has been fetched *)
ResultIsReal == outcome = "result" => \E i \in Pos({"poll"}) : script[i][2] \in Done(job.s)
NothingAfterTheEnd == \A i \in Pos({"poll"}) : script[i][2] \in Ended(job.s) => i = Len(script)
TimeoutIsLast == outcome = "timeout" => Count("poll") = (IF job.s = "azure" THEN 1 ELSE job.retries)
=============================================================================
