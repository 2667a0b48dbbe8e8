------------------------------ MODULE SetupArgs ------------------------------
(***************************************************************************)
(* Requests for a setup: which arguments are refused, and how.  A request  *)
(* goes through the checks of the setup one after the other; the first one *)
(* that fails decides the answer.  TLC enumerates all requests.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

VARIABLES req, checks, answer
vars == <<req, checks, answer>>

(* kinds of arguments for a gate set *)
Kinds == {"any", "classes", "gates", "mixed", "empty", "list", "class", "gate", "string", "none", "function", "text"}
Tuples == {"classes", "gates", "mixed", "empty", "function", "text"}      \* the last two: a tuple with something that is no gate
AnyOrTuple(k) == k \in Tuples \cup {"any"}
Elements(k) == k \notin {"function", "text"}

(* what a service may know about the requested device *)
Devices == [ibm |-> {"five", "simulator", "melbourne", "other", "missing", "none"},
            aqt |-> {"simulator", "other", "missing", "none"},
            awsbraket |-> {"SV1", "Aspen-8", "IonQ Device", "other", "missing", "none"},
            ionq |-> {"simulator", "qpu", "missing", "none"}]

Requests ==
  {[s |-> "restrictedgateset", one |-> a, two |-> b, other |-> c] : a \in Kinds, b \in Kinds, c \in Kinds}
  \cup {[s |-> s, one |-> a, two |-> b, other |-> "empty"] : s \in {"linear", "grid"}, a \in Kinds \ {"function", "text"}, b \in Kinds \ {"function", "text"}}
  \cup UNION {{[s |-> s, one |-> d, two |-> "", other |-> ""] : d \in Devices[s]} : s \in DOMAIN Devices}

(* the checks of a setup: the error raised if the condition does not hold *)
Checks(r) ==
  IF r.s \in DOMAIN Devices
  THEN << <<r.one \notin {"missing", "none"}, "DeviceOfflineError">>, <<r.one # "other", "DeviceNotHandledError">> >>
  ELSE << <<AnyOrTuple(r.one), "TypeError">>, <<AnyOrTuple(r.two), "TypeError">>, <<r.other \in Tuples, "TypeError">>,
          <<Elements(r.one) /\ Elements(r.two) /\ Elements(r.other), "TypeError">> >>

Init == req \in Requests /\ checks = Checks(req) /\ answer = "?"
Next ==
  /\ answer = "?"
  /\ IF checks = <<>> THEN /\ answer' = "accepted" /\ checks' = checks
     ELSE IF checks[1][1] THEN /\ answer' = answer /\ checks' = Tail(checks)
     ELSE /\ answer' = checks[1][2] /\ checks' = checks
  /\ UNCHANGED req
  /\ answer' # "?" => PrintT(ToJson([req |-> req, answer |-> answer']))

OneAnswer == answer \in {"?", "accepted", "TypeError", "DeviceOfflineError", "DeviceNotHandledError"}
(* nothing that is not a gate is ever accepted *)
Sound == answer = "accepted" => \A i \in 1..Len(Checks(req)) : Checks(req)[i][1]
=============================================================================
