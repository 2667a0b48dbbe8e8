------------------------------ MODULE ProjectQ ------------------------------
(***************************************************************************)
(* The abstract ProjectQ machine: what a user program means.               *)
(*                                                                         *)
(*   st     exact state of the live qubits                                 *)
(*   frames stack of open meta sections (Control, Dagger, Compute, action, *)
(*          Loop, ...).  A section collects flat operations and hands them *)
(*          transformed to its parent when it closes; operations that reach*)
(*          the bottom of the stack are executed on st.                    *)
(*   live   qubits the program holds handles of                            *)
(*   meas   measurement registry: qubit -> last recorded value             *)
(*   hist   the program text so far, with the observations the             *)
(*          specification predicts (history variable, used by the binding) *)
(*                                                                         *)
(* One action per user-visible step.  The parameters are free here; module *)
(* ProjectQMC enumerates them exhaustively over small sets, ProjectQGen    *)
(* draws them at random.                                                   *)
(***************************************************************************)
EXTENDS HighGates

CONSTANTS MaxQ           \* bound on simultaneously live qubits

VARIABLES st, frames, live, nid, meas, hist, flat

pvars == <<st, frames, live, nid, meas, hist, flat>>

(* ------------------------- flat operations ------------------------------ *)
(* tg are the compute/uncompute tags a command carries and k the number of *)
(* controls it had when it got the first one (-1: none yet): a tagged      *)
(* command need not be controlled by what is around it.                    *)
Op(o, g, t, c, s) == [o |-> o, g |-> g, t |-> t, c |-> c, s |-> s, tg |-> <<>>, k |-> -1]
OpG(g, t, c, s) == Op("g", g, t, c, s)
OpA(q) == Op("a", G0("I"), <<q>>, <<>>, <<>>)
OpD(q) == Op("d", G0("I"), <<q>>, <<>>, <<>>)
OpM(q) == Op("m", G0("I"), <<q>>, <<>>, <<>>)
TagOps(ops, tag) == [i \in 1..Len(ops) |-> [ops[i] EXCEPT !.tg = Append(@, tag), !.k = IF @ = -1 THEN Len(ops[i].c) ELSE @]]

InvOp(op) == CASE op.o = "g" -> [op EXCEPT !.g = InvGate(@)]
               [] op.o = "a" -> [op EXCEPT !.o = "d"]
               [] op.o = "d" -> [op EXCEPT !.o = "a"]
InvOps(ops) == [i \in 1..Len(ops) |-> InvOp(ops[Len(ops) + 1 - i])]
CtrlOps(ops, c, s) == [i \in 1..Len(ops) |->
                         IF ops[i].o = "g" THEN [ops[i] EXCEPT !.c = @ \o c, !.s = @ \o s] ELSE ops[i]]
RECURSIVE RepeatOps(_, _)
RepeatOps(ops, n) == IF n = 0 THEN <<>> ELSE ops \o RepeatOps(ops, n - 1)

(* Execution.  r.ok = FALSE: the program is outside the contract (it would *)
(* deallocate a qubit in superposition, violate a precondition, or exceed  *)
(* TLC's integer range); such behaviours are not continued.                *)
ExecOp(r, op) ==
  IF ~r.ok THEN r
  ELSE CASE op.o = "a" -> IF Len(r.s.ids) < MaxQ THEN [r EXCEPT !.s = QAlloc(@, op.t[1])]
                          ELSE [r EXCEPT !.ok = FALSE]
         [] op.o = "d" -> IF QClassical(r.s, op.t[1]) = 2 THEN [r EXCEPT !.ok = FALSE]
                          ELSE [r EXCEPT !.s = QDealloc(@, op.t[1])]
         [] op.o = "g" -> IF ~GateOk(r.s, op.g, op.t, op.c, op.s) THEN [r EXCEPT !.ok = FALSE]
                          ELSE LET S == QApplyGate(r.s, op.g, op.t, op.c, op.s)
                               IN [s |-> S, ok |-> QSmall(S)]
RECURSIVE ExecAll(_, _)
ExecAll(r, ops) == IF ops = <<>> \/ ~r.ok THEN r ELSE ExecAll(ExecOp(r, ops[1]), Tail(ops))

(* ------------------------------ frames ---------------------------------- *)
Frame(k, c, s, n) == [k |-> k, c |-> c, s |-> s, n |-> n, ops |-> <<>>, comp |-> <<>>, loc |-> {}, prot |-> {}]
Top == frames[Len(frames)]
Popped == SubSeq(frames, 1, Len(frames) - 1)
InFrame == Len(frames) > 0

ToSet(s) == {s[i] : i \in 1..Len(s)}
CtlQubits == UNION {ToSet(frames[i].c) : i \in 1..Len(frames)}
Protected == UNION {frames[i].prot : i \in 1..Len(frames)}
LiveSet == ToSet(live)

(* emit flat operations into frame stack fs *)
EmitTo(fs, ops) ==
  IF Len(fs) = 0
  THEN LET r == ExecAll([s |-> st, ok |-> TRUE], ops) IN
       /\ r.ok
       /\ st' = r.s
       /\ flat' = flat \o ops
       /\ frames' = fs
  ELSE /\ frames' = [fs EXCEPT ![Len(fs)].ops = @ \o ops]
       /\ UNCHANGED <<st, flat>>

Log(e) == hist' = hist \o e
Ev(a, q) == [a |-> a, q |-> q]

Init ==
  /\ st = QEmpty
  /\ frames = <<>>
  /\ live = <<>>
  /\ nid = 0
  /\ meas = [q \in {} |-> 0]
  /\ hist = <<>>
  /\ flat = <<>>

(* ------------------------------ actions --------------------------------- *)
Allocate ==
  /\ Len(live) < MaxQ
  /\ EmitTo(frames, <<OpA(nid)>>)
  /\ live' = Append(live, nid) /\ nid' = nid + 1
  /\ Log(<<Ev("alloc", nid)>>)
  /\ UNCHANGED meas

(* outside of all sections, and only of qubits in a classical state *)
Deallocate(q) ==
  /\ ~InFrame /\ q \in LiveSet
  /\ EmitTo(frames, <<OpD(q)>>)
  /\ live' = SelectSeq(live, LAMBDA x : x # q)
  /\ Log(<<Ev("dealloc", q)>>)
  /\ UNCHANGED <<nid, meas>>

Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Apply(g, t, c, s) ==
  /\ Distinct(t \o c)
  /\ ToSet(t) \cap (CtlQubits \cup Protected) = {}
  /\ ToSet(c) \cap CtlQubits = {}
  /\ EmitTo(frames, <<OpG(g, t, c, s)>>)
  /\ Log(<<[a |-> "gate", g |-> g, t |-> t, c |-> c, s |-> s]>>)
  /\ UNCHANGED <<live, nid, meas>>

(* a gate applied to every qubit of t (All/Tensor) *)
ApplyAll(g, t) ==
  /\ ToSet(t) \cap (CtlQubits \cup Protected) = {}
  /\ EmitTo(frames, [i \in 1..Len(t) |-> OpG(g, <<t[i]>>, <<>>, <<>>)])
  /\ Log(<<[a |-> "all", g |-> g, t |-> t]>>)
  /\ UNCHANGED <<live, nid, meas>>

OpenControl(c, s) ==
  /\ Distinct(c) /\ ToSet(c) \cap (CtlQubits) = {}
  /\ frames' = Append(frames, Frame("control", c, s, 0))
  /\ Log(<<[a |-> "control", c |-> c, s |-> s]>>)
  /\ UNCHANGED <<st, live, nid, meas, flat>>
OpenDagger ==
  /\ frames' = Append(frames, Frame("dagger", <<>>, <<>>, 0))
  /\ Log(<<[a |-> "dagger"]>>)
  /\ UNCHANGED <<st, live, nid, meas, flat>>
OpenLoop(n) ==
  /\ frames' = Append(frames, Frame("loop", <<>>, <<>>, n))
  /\ Log(<<[a |-> "loop", n |-> n]>>)
  /\ UNCHANGED <<st, live, nid, meas, flat>>
OpenCompute ==
  /\ frames' = Append(frames, Frame("compute", <<>>, <<>>, 0))
  /\ Log(<<[a |-> "compute"]>>)
  /\ UNCHANGED <<st, live, nid, meas, flat>>

(* A compute section that allocates a work qubit, copies q into it, and    *)
(* leaves it to the uncompute to clean up and release it.                  *)
OpenComputeAnc(q) ==
  /\ q \in LiveSet \ (CtlQubits \cup Protected)
  /\ Len(live) < MaxQ
  /\ frames' = Append(frames, [Frame("compute", <<>>, <<>>, 0) EXCEPT
                  !.ops = <<OpA(nid), OpG(G0("X"), <<nid>>, <<q>>, <<1>>)>>, !.loc = {nid}])
  /\ live' = Append(live, nid) /\ nid' = nid + 1
  /\ Log(<<[a |-> "compute"], Ev("alloc", nid),
           [a |-> "gate", g |-> G0("X"), t |-> <<nid>>, c |-> <<q>>, s |-> <<1>>]>>)
  /\ UNCHANGED <<st, meas, flat>>

Support(ops) == UNION {ToSet(ops[i].t) \cup ToSet(ops[i].c) : i \in 1..Len(ops)}

(* End of a with-block.  The text of a compute section ends, and its action*)
(* section begins; the others hand their operations to the parent.         *)
CloseControl ==
  /\ InFrame /\ Top.k = "control"
  /\ EmitTo(Popped, CtrlOps(Top.ops, Top.c, Top.s))
  /\ Log(<<[a |-> "close"]>>) /\ UNCHANGED <<live, nid, meas>>
CloseDagger ==
  /\ InFrame /\ Top.k = "dagger"
  /\ EmitTo(Popped, InvOps(Top.ops))
  /\ Log(<<[a |-> "close"]>>) /\ UNCHANGED <<live, nid, meas>>
CloseLoop ==
  /\ InFrame /\ Top.k = "loop"
  /\ EmitTo(Popped, RepeatOps(Top.ops, Top.n))
  /\ Log(<<[a |-> "close"]>>) /\ UNCHANGED <<live, nid, meas>>
CloseCompute ==
  /\ InFrame /\ Top.k = "compute"
  /\ frames' = Append(Popped, [Frame("action", <<>>, <<>>, 0) EXCEPT
                  !.comp = Top.ops, !.loc = Top.loc,
                  !.prot = IF Top.loc = {} THEN {} ELSE Support(Top.ops)])
  /\ Log(<<[a |-> "close"]>>) /\ UNCHANGED <<st, live, nid, meas, flat>>
Uncompute ==
  /\ InFrame /\ Top.k = "action"
  /\ EmitTo(Popped, TagOps(Top.comp, "C") \o Top.ops \o TagOps(InvOps(Top.comp), "U"))
  /\ live' = SelectSeq(live, LAMBDA x : x \notin Top.loc)
  /\ Log(<<[a |-> "uncompute"]>>) /\ UNCHANGED <<nid, meas>>
(* A custom uncompute: the user writes the body; here the inverse sequence *)
(* of the compute section, which is what the contract asks for.            *)
CustomUncompute ==
  /\ InFrame /\ Top.k = "action"
  /\ \A i \in 1..Len(Top.comp) : Top.comp[i].o = "g"
  /\ LET inv == InvOps(Top.comp) IN
     /\ EmitTo(Popped, TagOps(Top.comp, "C") \o Top.ops
                \o TagOps([i \in 1..Len(inv) |-> OpG(inv[i].g, inv[i].t, inv[i].c, inv[i].s)], "U"))
     /\ Log(<<[a |-> "customuncompute"]>>
            \o [i \in 1..Len(inv) |-> [a |-> "gate", g |-> inv[i].g, t |-> inv[i].t, c |-> inv[i].c, s |-> inv[i].s]]
            \o <<[a |-> "close"]>>)
  /\ UNCHANGED <<live, nid, meas>>

(* A work qubit allocated and released inside the current section: copy q  *)
(* into it, use it to control g on t, erase it again.                      *)
AncillaUse(q, g, t) ==
  /\ Len(live) < MaxQ
  /\ q # t /\ t \notin (CtlQubits \cup Protected) /\ q \notin CtlQubits
  /\ EmitTo(frames, <<OpA(nid), OpG(G0("X"), <<nid>>, <<q>>, <<1>>), OpG(g, <<t>>, <<nid>>, <<1>>),
                      OpG(G0("X"), <<nid>>, <<q>>, <<1>>), OpD(nid)>>)
  /\ nid' = nid + 1
  /\ Log(<<Ev("alloc", nid),
           [a |-> "gate", g |-> G0("X"), t |-> <<nid>>, c |-> <<q>>, s |-> <<1>>],
           [a |-> "gate", g |-> g, t |-> <<t>>, c |-> <<nid>>, s |-> <<1>>],
           [a |-> "gate", g |-> G0("X"), t |-> <<nid>>, c |-> <<q>>, s |-> <<1>>],
           Ev("dealloc", nid)>>)
  /\ UNCHANGED <<live, meas>>

(* Two work qubits a, b: q is copied into a, w acts on the register reg     *)
(* (made of a, b and possibly t), g on t under control of both, and        *)
(* everything is undone; they are released in either order.                *)
WorkPair(q, w, arr, g, t, ss, rev) ==
  LET a == nid  b == nid + 1
      reg == [i \in 1..Len(arr) |-> CASE arr[i] = 0 -> a [] arr[i] = 1 -> b [] OTHER -> t]
      mix == t \in {reg[i] : i \in 1..Len(reg)}
      G(x, y, c, s) == [a |-> "gate", g |-> x, t |-> y, c |-> c, s |-> s]
      gs == <<G(G0("X"), <<a>>, <<q>>, <<1>>), G(w, reg, <<>>, <<>>)>>
            \o (IF mix THEN <<>> ELSE <<G(g, <<t>>, <<a, b>>, ss)>>)
            \o <<G(InvGate(w), reg, <<>>, <<>>), G(G0("X"), <<a>>, <<q>>, <<1>>)>>
      fin == IF rev THEN <<b, a>> ELSE <<a, b>>
  IN
  /\ Len(live) + 1 < MaxQ
  /\ q # t /\ t \notin (CtlQubits \cup Protected) /\ q \notin CtlQubits
  /\ EmitTo(frames, <<OpA(a), OpA(b)>> \o [i \in 1..Len(gs) |-> OpG(gs[i].g, gs[i].t, gs[i].c, gs[i].s)]
                      \o <<OpD(fin[1]), OpD(fin[2])>>)
  /\ nid' = nid + 2
  /\ Log(<<Ev("alloc", a), Ev("alloc", b)>> \o gs \o <<Ev("dealloc", fin[1]), Ev("dealloc", fin[2])>>)
  /\ UNCHANGED <<live, meas>>

(* Measurement of q with outcome r.  The event carries the probability of  *)
(* the outcome as exact numbers (relative to the norm of the state).       *)
MeasureQ(q, r) ==
  /\ ~InFrame /\ q \in LiveSet
  /\ LET S == QProject(st, q, r) IN
     /\ \E i \in DOMAIN S.v : S.v[i] # RZero
     /\ st' = S
  /\ meas' = [x \in DOMAIN meas \cup {q} |-> IF x = q THEN r ELSE meas[x]]
  /\ Log(<<[a |-> "measure", q |-> q, r |-> r,
            det |-> QClassical(st, q)]>>)
  /\ flat' = Append(flat, OpM(q))
  /\ UNCHANGED <<frames, live, nid>>

Flush ==
  /\ ~InFrame
  /\ Log(<<[a |-> "flush", s |-> st, nf |-> Len(flat)]>>)
  /\ UNCHANGED <<st, frames, live, nid, meas, flat>>

(* ----------------------- queries of the simulator ----------------------- *)
(* Values are exact: ring elements over 2^(2 e2) 5^(2 e5), or the amplitude*)
(* over 2^e2 5^e5; pn is the squared norm in the same unit.                *)
ProbeSmall == \A i \in DOMAIN st.v : RMaxAbs(st.v[i]) < 2000
ProbeProb(qs, bs) ==
  /\ ~InFrame /\ ProbeSmall
  /\ Log(<<[a |-> "prob", q |-> qs, b |-> bs, num |-> QProb(st, qs, bs), den |-> QProb(st, <<>>, <<>>)]>>)
  /\ UNCHANGED <<st, frames, live, nid, meas, flat>>
ProbeAmp(qs, bs) ==
  /\ ~InFrame /\ Len(qs) = Len(st.ids)
  /\ LET p == Positions(st, qs) IN
     Log(<<[a |-> "amp", q |-> qs, b |-> bs, num |-> st.v[SetIdx(0, p, SumSeq([i \in 1..Len(bs) |-> bs[i] * Pow2(i - 1)]), 1)],
            s |-> st]>>)
  /\ UNCHANGED <<st, frames, live, nid, meas, flat>>
(* expectation value of a Pauli string on the qubits qs *)
RECURSIVE SumInner(_, _, _, _)
SumInner(S, W, D, acc) ==
  IF D = {} THEN acc
  ELSE LET i == CHOOSE x \in D : TRUE IN SumInner(S, W, D \ {i}, RAdd(acc, RMul(RConj(S.v[i]), W.v[i])))
ExpectNum(S, qs, codes) == LET W == QApplyMat(S, MatPauli(codes, 0), qs, <<>>, <<>>)
                           IN SumInner(S, W, {i \in DOMAIN S.v : S.v[i] # RZero}, RZero)
(* terms: sequence of <<integer coefficient, codes>> *)
ProbeExpect(qs, terms) ==
  /\ ~InFrame /\ ProbeSmall
  /\ Log(<<[a |-> "expect", q |-> qs, terms |-> terms,
            nums |-> [i \in 1..Len(terms) |-> ExpectNum(st, qs, terms[i][2])], den |-> QProb(st, <<>>, <<>>)]>>)
  /\ UNCHANGED <<st, frames, live, nid, meas, flat>>
(* collapse_wavefunction: a postselection *)
Collapse(qs, bs) ==
  /\ ~InFrame
  /\ LET p == Positions(st, qs)
         S == QNorm([st EXCEPT !.v = [i \in DOMAIN st.v |-> IF CtrlOn(st, i, p, bs) THEN st.v[i] ELSE RZero]])
     IN IF \E i \in DOMAIN S.v : S.v[i] # RZero
        THEN st' = S /\ Log(<<[a |-> "collapse", q |-> qs, b |-> bs, ok |-> TRUE]>>)
        ELSE UNCHANGED st /\ Log(<<[a |-> "collapse", q |-> qs, b |-> bs, ok |-> FALSE]>>)
  /\ UNCHANGED <<frames, live, nid, meas, flat>>
(* apply_qubit_operator with one Pauli term of coefficient zeta^k *)
ApplyOperator(qs, codes, k) ==
  /\ ~InFrame
  /\ st' = QApplyMat(st, MatPauli(codes, k), qs, <<>>, <<>>)
  /\ Log(<<[a |-> "qop", q |-> qs, codes |-> codes, k |-> k]>>)
  /\ UNCHANGED <<frames, live, nid, meas, flat>>
(* set_wavefunction: the register qs (all live qubits, in that order) is   *)
(* put into the state of the vector W over the positions of qs             *)
SetWavefunction(qs, W) ==
  /\ ~InFrame /\ Len(qs) = Len(st.ids)
  /\ LET p == Positions(st, qs) IN
     st' = [st EXCEPT !.v = [i \in DOMAIN st.v |-> W.v[SubIdx(i, p, 1)]], !.e2 = W.e2, !.e5 = W.e5]
  /\ Log(<<[a |-> "setwf", q |-> qs, w |-> W]>>)
  /\ UNCHANGED <<frames, live, nid, meas, flat>>

(* writing bits into a classical simulator *)
RECURSIVE WriteAll(_, _, _)
WriteAll(S, qs, bs) == IF qs = <<>> THEN S
                       ELSE WriteAll(IF QClassical(S, qs[1]) = bs[1] THEN S ELSE QApplyGate(S, G0("X"), <<qs[1]>>, <<>>, <<>>), Tail(qs), Tail(bs))
WriteBits(qs, bs) ==
  /\ ~InFrame /\ \A i \in 1..Len(qs) : QClassical(st, qs[i]) # 2
  /\ st' = WriteAll(st, qs, bs)
  /\ Log(<<[a |-> "write", q |-> qs, b |-> bs]>>)
  /\ UNCHANGED <<frames, live, nid, meas, flat>>

(* A query or manipulation that has no meaning is refused and changes      *)
(* nothing.                                                                *)
BadQueries == {"prob-unknown", "prob-short", "amp-unknown", "amp-missing", "amp-short", "setwf-unknown", "setwf-missing", "setwf-long",
               "setwf-short", "collapse-unknown", "collapse-short", "collapse-long", "expect-wide", "qop-wide", "read-unmeasured"}
BadQuery(kind) ==
  /\ ~InFrame /\ kind \in BadQueries /\ Len(live) > 0
  /\ Log(<<[a |-> "bad", k |-> kind, q |-> live]>>)
  /\ UNCHANGED <<st, frames, live, nid, meas, flat>>

(* ------------------------------ invariants ------------------------------ *)
(* st holds exactly the live qubits of the outermost level, each once      *)
IdsDistinct == Distinct(st.ids)
LiveConsistent == ~InFrame => ToSet(st.ids) = LiveSet
(* without measurement the state is normalised: sum |a|^2 = 4^e2 25^e5     *)
Normalised ==
  (DOMAIN meas = {} /\ ProbeSmall /\ st.e5 <= 4 /\ \A i \in 1..Len(hist) : hist[i].a # "collapse") =>
     QProb(st, <<>>, <<>>) = RScale(Pow2(2 * st.e2) * Pow5(2 * st.e5), ROne)
(* the registry agrees with the state as long as the qubit is untouched    *)
=============================================================================
