------------------------------- MODULE HwJob -------------------------------
(***************************************************************************)
(* Programs for the hardware backends, the job each of them has to submit, *)
(* what a service answers, and what has to be reported for it.             *)
(*                                                                         *)
(*   Service  "ibm", "aqt", "ionq", "aspen", "awsionq", "sv1", "azionq",   *)
(*            "azquant"                                                    *)
(*   MaxQ     qubits alive at a time                                       *)
(*   MaxLoc   largest location                                             *)
(*                                                                         *)
(* The life of a backend is a sequence of jobs.  A job consists of the     *)
(* commands between two flushes; the device starts in |0>, measures at the *)
(* end and only then answers.  So a qubit that was touched by a submitted  *)
(* job cannot be used by a later one, and a gate on a qubit that has been  *)
(* measured is refused.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Service, MaxQ, MaxLoc, Steps

VARIABLES hist,    \* the program so far, with what is expected
          live,    \* qubits in use
          old,     \* qubits of earlier jobs that are not yet released
          loc,     \* loc[id + 1] is the location of qubit id
          meas,    \* qubits measured in this job, in order
          circ,    \* instructions of this job, as the service wants them
          touched, \* qubits with an instruction in this job
          mode     \* [map: is there a mapper?, ret: is the job retrieved instead of submitted?]
vars == <<hist, live, old, loc, meas, circ, touched, mode>>

(* ------------------------------------------------------------- gates *)
Rot == {"Rx", "Ry", "Rz", "R", "Ph", "Rxx", "Ryy", "Rzz"}
TwoT == {"Swap", "SqrtSwap", "Rxx", "Ryy", "Rzz"}
Plain == {"X", "Y", "Z", "H", "S", "T", "Sdag", "Tdag", "SqrtX", "SqrtXdag"}
Kinds == Plain \cup Rot \cup TwoT
Aws0 == {"R", "Rx", "Ry", "Rz", "X", "Y", "Z", "H", "S", "T", "Sdag", "Tdag", "Swap"}
Ion0 == {"Rx", "Ry", "Rz", "X", "Y", "Z", "H", "S", "T", "Sdag", "Tdag", "SqrtX", "Swap"}

(* can the device run gate g with nc controls? *)
Supported(g, nc) ==
  CASE Service = "ibm" -> IF nc = 0 THEN g \in {"H", "Rx", "Ry", "Rz"} ELSE nc = 1 /\ g = "X"
    [] Service = "aqt" -> nc = 0 /\ g \in {"Rx", "Ry", "Rxx"}
    [] Service = "ionq" -> IF nc = 0 THEN g \in Ion0 \cup {"Rxx", "Ryy", "Rzz"} ELSE nc <= 7 /\ g = "X"
    [] Service = "azionq" -> IF nc = 0 THEN g \in Ion0 \cup {"Rxx", "Ryy", "Rzz", "SqrtXdag"} ELSE nc <= 7 /\ g = "X"
    [] Service = "azquant" -> IF nc = 0 THEN g \in (Ion0 \ {"SqrtX", "Swap"}) \cup {"Rxx", "Ryy", "Rzz"} ELSE nc <= 2 /\ g \in {"X", "Z"}
    [] Service = "aspen" -> (nc = 0 /\ g \in Aws0) \/ (nc = 1 /\ g \in {"R", "Z", "X", "Swap"}) \/ (nc = 2 /\ g = "X")
    [] Service = "awsionq" -> (nc = 0 /\ g \in Ion0) \/ (nc = 1 /\ g = "X")
    [] OTHER -> (nc = 0 /\ g \in Aws0 \cup {"SqrtX"}) \/ (nc = 1 /\ g \in {"R", "Z", "Y", "X", "Swap"}) \/ (nc = 2 /\ g = "X")

Aws == Service \in {"aspen", "awsionq", "sv1"}
Azure == Service \in {"azionq", "azquant"}

(* an instruction of the service: name, parameters, controls, targets *)
Low == [X |-> "x", Y |-> "y", Z |-> "z", H |-> "h", S |-> "s", T |-> "t", SqrtX |-> "v", SqrtXdag |-> "vi", Rx |-> "rx", Ry |-> "ry", Rz |-> "rz",
        R |-> "phaseshift", Swap |-> "swap", Sdag |-> "si", Tdag |-> "ti", Rxx |-> "xx", Ryy |-> "yy", Rzz |-> "zz"]
Qasm == [Low EXCEPT !.Sdag = "sdg", !.Tdag = "tdg", !.Rxx = "rxx", !.Ryy = "ryy", !.Rzz = "rzz"]
Cs(n) == CASE n = 0 -> "" [] n = 1 -> "c" [] OTHER -> "cc"
Name(g, nc) ==
  CASE Service = "ibm" -> (CASE g = "X" -> "cx" [] g = "Rz" -> "u1" [] g = "H" -> "u2" [] g = "Barrier" -> "barrier" [] OTHER -> "u3")
    [] Service = "aqt" -> [Rx |-> "X", Ry |-> "Y", Rxx |-> "MS"][g]
    [] Service \in {"ionq", "azionq"} -> Low[g]
    [] Service = "azquant" -> IF g = "Barrier" THEN "barrier" ELSE Cs(nc) \o Qasm[g]
    [] OTHER -> IF g = "X" /\ nc > 0 THEN Cs(nc - 1) \o "cnot" ELSE Cs(nc) \o Low[g]
Params(g, a) ==
  CASE Service = "ibm" /\ g = "Rx" -> <<a, "-pi/2", "pi/2">>
    [] Service = "ibm" /\ g = "Ry" -> <<a, "0", "0">>
    [] Service = "ibm" /\ g = "H" -> <<"0", "pi">>
    [] g \in Rot -> <<a>>
    [] OTHER -> <<>>
L(q) == loc[q + 1]
Locs(s) == [k \in 1..Len(s) |-> L(s[k])]
Instr(g, a, c, t) == [n |-> Name(g, Len(c)), p |-> Params(g, a), c |-> Locs(c), t |-> Locs(t), sym |-> g \in TwoT]

(* ------------------------------------------------------------- the service *)
Range(s) == {s[k] : k \in 1..Len(s)}
Need == LET S == {0} \cup UNION {Range(circ[k].c) \cup Range(circ[k].t) : k \in 1..Len(circ)} \cup Range(Locs(meas))
        IN 1 + CHOOSE m \in S : \A x \in S : x <= m
(* bit of location l in a random outcome; a service reports the bits of all its qubits or those of the measured ones *)
AllBits == Service = "aqt" \/ Aws
Bit(l, r) == IF AllBits \/ l \in Range(Locs(meas)) THEN (r \div (2^l)) % 2 ELSE 0
Outcome(r) == [l \in 0..MaxLoc |-> IF l < Need THEN Bit(l, r) ELSE 0]
(* what the answer says about a list of qubits *)
Of(o, reg) == [k \in 1..Len(reg) |-> o[L(reg[k])]]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Marginal(ans, reg) ==
  LET pats == {Of(ans[k].o, reg) : k \in 1..Len(ans)}
      Num(p) == Sum([k \in 1..Len(ans) |-> IF Of(ans[k].o, reg) = p THEN ans[k].n ELSE 0])
  IN [k \in {<<p, Num(p)>> : p \in pats} |-> TRUE]
MarginalSet(ans, reg) == DOMAIN Marginal(ans, reg)

(* the answer to a job: up to four different outcomes, with how often each was seen *)
RECURSIVE Dedup(_, _)
Dedup(s, seen) == IF s = <<>> THEN <<>>
                  ELSE IF Head(s).o \in seen THEN Dedup(Tail(s), seen) ELSE <<Head(s)>> \o Dedup(Tail(s), seen \cup {Head(s).o})
Shots == 12
Answer(d) ==
  LET s == Dedup(<<[o |-> Outcome(d[2])], [o |-> Outcome(d[4])], [o |-> Outcome(d[6])], [o |-> Outcome(d[2] + d[6])]>>, {})
      m == Len(s)
      n(k) == 1 + ((d[3] + (k * d[5])) % 3)
  IN [k \in 1..m |-> [o |-> s[k].o, n |-> IF k < m THEN n(k) ELSE Shots - Sum([j \in 1..(m - 1) |-> n(j)])]]

(* ------------------------------------------------------------- steps *)
Drop(s, j) == [k \in 1..(Len(s) - 1) |-> s[IF k < j THEN k ELSE k + 1]]
Rotl(s, j) == [k \in 1..Len(s) |-> s[1 + ((k + j) % Len(s))]]
Free == (0..MaxLoc) \ {loc[q + 1] : q \in Range(live) \cup Range(old)}
Emit(r) == hist' = Append(hist, r)

Alloc(x) ==
  LET id == Len(loc)
      l == IF mode.map THEN CHOOSE f \in Free : Cardinality({y \in Free : y < f}) = x % Cardinality(Free) ELSE id
  IN /\ Emit([k |-> "a", id |-> id, l |-> l])
     /\ loc' = Append(loc, l) /\ live' = Append(live, id) /\ UNCHANGED <<old, meas, circ, touched, mode>>

Gate(g, a, c, t) ==
  IF (Range(c) \cup Range(t)) \cap Range(meas) # {}
  THEN /\ Emit([k |-> "refused", g |-> g, a |-> a, c |-> c, t |-> t])
       /\ live' = <<>> /\ UNCHANGED <<old, loc, meas, circ, touched, mode>>
  ELSE /\ Emit([k |-> "g", g |-> g, a |-> a, c |-> c, t |-> t])
       /\ circ' = Append(circ, Instr(g, a, c, t)) /\ touched' = touched \cup Range(c) \cup Range(t) /\ UNCHANGED <<live, old, loc, meas, mode>>

Barrier(s) ==
  /\ Emit([k |-> "b", t |-> s])
  /\ circ' = (IF Service \in {"ibm", "azquant"} THEN Append(circ, Instr("Barrier", "", <<>>, s)) ELSE circ)
  /\ UNCHANGED <<live, old, loc, meas, touched, mode>>

Measure(q) ==
  /\ Emit([k |-> "m", id |-> q])
  /\ meas' = Append(meas, q) /\ touched' = touched \cup {q} /\ UNCHANGED <<live, old, loc, circ, mode>>

Dealloc(j) == /\ Emit([k |-> "d", id |-> live[j]]) /\ live' = Drop(live, j) /\ UNCHANGED <<old, loc, meas, circ, touched, mode>>
DeallocOld(j) == /\ Emit([k |-> "d", id |-> old[j]]) /\ old' = Drop(old, j) /\ UNCHANGED <<live, loc, meas, circ, touched, mode>>

(* a job without gates is not submitted; only IBM counts measurements as gates *)
Since == LET F == {k \in 1..Len(hist) : hist[k].k = "f"} IN IF F = {} THEN 1 ELSE 1 + CHOOSE k \in F : \A j \in F : j <= k
Runs == \/ circ # <<>>
        \/ Service = "ibm" /\ meas # <<>>
        \/ Aws /\ mode.ret /\ \E k \in Since..Len(hist) : hist[k].k \in {"a", "m"}    \* nothing is executed, so nothing is needed
Keep(s, S) == SelectSeq(s, LAMBDA q : q \in S)
Flush(d) ==
  LET ans == Answer(d)
      regs == IF meas = <<>> THEN <<>> ELSE <<meas, Rotl(meas, d[3] % Len(meas)), <<meas[1 + (d[5] % Len(meas))]>>, SubSeq(Rotl(meas, d[6] % Len(meas)), 1, (Len(meas) + 1) \div 2)>>
  IN /\ Emit([k |-> "f", runs |-> Runs, circ |-> circ, meas |-> meas, locs |-> Locs(meas), need |-> Need, ret |-> mode.ret,
              answer |-> [k \in 1..Len(ans) |-> [o |-> ans[k].o, n |-> ans[k].n, res |-> Of(ans[k].o, meas)]],
              query |-> [k \in 1..Len(regs) |-> [reg |-> regs[k], want |-> MarginalSet(ans, regs[k])]]])
     /\ live' = Keep(live, Range(live) \ touched) /\ old' = old \o Keep(live, touched)
     /\ meas' = <<>> /\ circ' = <<>> /\ touched' = {} /\ UNCHANGED <<loc, mode>>

Angles == <<"0.5", "1.25", "-0.75", "3.0", "pi/4", "-pi/2", "pi", "6.5">>
SuppSeq0 == SelectSeq(<<"X", "Y", "Z", "H", "S", "T", "Sdag", "Tdag", "SqrtX", "SqrtXdag", "Rx", "Ry", "Rz", "R">>, LAMBDA g : Supported(g, 0))
SuppSeqT == SelectSeq(<<"Swap", "Rxx", "Ryy", "Rzz">>, LAMBDA g : Supported(g, 0))
SuppSeq1 == SelectSeq(<<"X", "Y", "Z", "R">>, LAMBDA g : Supported(g, 1))
SuppSeq2 == SelectSeq(<<"X", "Z">>, LAMBDA g : Supported(g, 2))

Draw(d) ==
  LET n == Len(live)  w == d[1] % 50
      A(j) == live[1 + ((d[2] + j) % n)]
      fresh == SelectSeq(live, LAMBDA q : q \notin Range(meas))
      m == Len(fresh)
      \* gates mostly avoid measured qubits
      F(j) == IF m > j /\ d[6] % 32 # 0 THEN fresh[1 + ((d[2] + j) % m)] ELSE A(j)
      ok(j) == m > j \/ d[6] % 32 = 0
      a == Angles[1 + (d[3] % Len(Angles))]
      G(g) == Gate(g, a, <<>>, <<F(0)>>)
      room == n + Len(old) < MaxQ
  IN CASE hist # <<>> /\ hist[Len(hist)].k = "f" /\ d[5] % 8 = 0 -> Flush(d)
       [] n = 0 /\ ~room -> DeallocOld(1 + (d[2] % Len(old)))
       [] n = 0 \/ ((w < 8 \/ (n < 2 /\ w < 30)) /\ room /\ (mode.map \/ Len(loc) <= MaxLoc)) -> IF mode.map \/ Len(loc) <= MaxLoc THEN Alloc(d[3]) ELSE Flush(d)
       [] w \in 8..18 -> IF ok(0) THEN G(SuppSeq0[1 + (d[4] % Len(SuppSeq0))]) ELSE Flush(d)
       [] w \in 19..23 /\ n > 1 /\ SuppSeqT # <<>> /\ ok(1) -> Gate(SuppSeqT[1 + (d[4] % Len(SuppSeqT))], a, <<>>, <<F(0), F(1)>>)
       [] w \in 19..29 /\ n > 1 /\ SuppSeq1 # <<>> /\ ok(1) -> Gate(SuppSeq1[1 + (d[4] % Len(SuppSeq1))], a, <<F(0)>>, <<F(1)>>)
       [] w \in 30..31 /\ n > 2 /\ SuppSeq2 # <<>> /\ ok(2) -> Gate(SuppSeq2[1 + (d[4] % Len(SuppSeq2))], a, <<F(0), F(1)>>, <<F(2)>>)
       [] w = 32 /\ n > 2 /\ Supported("Swap", 1) /\ ok(2) -> Gate("Swap", a, <<F(0)>>, <<F(1), F(2)>>)
       [] w = 33 /\ n > 3 /\ Supported("X", 3) /\ ok(3) -> Gate("X", a, <<F(0), F(1), F(2)>>, <<F(3)>>)
       [] w = 34 /\ m > 1 /\ Service # "azionq" -> Barrier(<<fresh[1], fresh[2]>>)
       [] w \in 35..44 /\ m > 0 -> Measure(fresh[1 + (d[3] % m)])
       [] w = 45 /\ A(0) \notin Range(meas) -> Dealloc(1 + (d[2] % n))
       [] w = 46 /\ old # <<>> -> DeallocOld(1 + (d[2] % Len(old)))
       [] w \in 47..49 -> Flush(d)
       [] OTHER -> IF ok(0) THEN G(SuppSeq0[1 + (d[4] % Len(SuppSeq0))]) ELSE Flush(d)

Ended == hist # <<>> /\ hist[Len(hist)].k = "refused"
Over == hist # <<>> /\ hist[Len(hist)].k = "end"
GInit == /\ hist = <<>> /\ live = <<>> /\ old = <<>> /\ loc = <<>> /\ meas = <<>> /\ circ = <<>> /\ touched = {}
         /\ \E m \in (IF Service = "aqt" \/ Aws THEN {TRUE, FALSE} ELSE {TRUE}), r \in {0, 1, 2, 3} : mode = [map |-> m, ret |-> r = 0]
GNext ==
  \/ /\ Len(hist) < Steps /\ ~Ended /\ ~Over
     /\ \E d \in {<<RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999)>>} :
          IF Len(hist) = Steps - 1 /\ (circ # <<>> \/ meas # <<>>) THEN Flush(d) ELSE Draw(d)
  \/ /\ Ended \/ Len(hist) = Steps
     /\ ~Over
     /\ PrintT(ToJson([service |-> Service, mode |-> mode, prog |-> hist]))
     /\ hist' = Append(hist, [k |-> "end"]) /\ UNCHANGED <<live, old, loc, meas, circ, touched, mode>>

(* ------------------------------------------------------------- invariants *)
Placed == \A p, q \in Range(live) \cup Range(old) : p # q => L(p) # L(q)
(* gates and measured qubits of a job are within its qubits; no gate touches a qubit after its measurement *)
JobOk == /\ \A q \in Range(meas) : L(q) < Need
         /\ Cardinality(Range(meas)) = Len(meas)
(* a later job never uses qubits of an earlier one *)
Fresh == touched \cap Range(old) = {}
(* the probabilities of a query add up to all the runs *)
AddsUp == hist # <<>> /\ hist[Len(hist)].k = "f" =>
  LET f == hist[Len(hist)]
      total == Sum([k \in 1..Len(f.answer) |-> f.answer[k].n])
      S(Q) == LET RECURSIVE Add(_)
                  Add(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN x[2] + Add(T \ {x})
              IN Add(Q)
  IN \A k \in 1..Len(f.query) : S(f.query[k].want) = total

(* ------------------------------------------------------------- which commands a device takes, all of them *)
TInit == GInit /\ mode = [map |-> TRUE, ret |-> FALSE]
TNext == /\ hist = <<>>
         /\ \E g \in Kinds, nc \in 0..8, neg \in BOOLEAN :
              /\ (neg => nc > 0)
              /\ PrintT(ToJson([g |-> g, nc |-> nc, neg |-> neg, ok |-> Supported(g, nc) /\ ~neg, service |-> Service]))
              /\ hist' = <<[k |-> "t", g |-> g, nc |-> nc, neg |-> neg]>>
         /\ UNCHANGED <<live, old, loc, meas, circ, touched, mode>>
=============================================================================
