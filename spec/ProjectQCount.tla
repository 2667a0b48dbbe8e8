--------------------------- MODULE ProjectQCount ---------------------------
(***************************************************************************)
(* The resources of a program: how often each gate is applied with each    *)
(* number of controls, how many qubits are alive at once, and the length   *)
(* of the longest chain of commands of which each shares a qubit with the  *)
(* next.  A counter that sees the commands one by one (Count) is compared  *)
(* to the definitions over the whole program (Chain, Alive).               *)
(***************************************************************************)
EXTENDS ProjectQGen, FiniteSets

(* the controls around a compute section are not put on its commands      *)
Seen(op) == IF op.k = -1 THEN op ELSE [op EXCEPT !.c = SubSeq(@, 1, op.k), !.s = SubSeq(@, 1, op.k)]
(* a flip of register bits is applied as X gates *)
RECURSIVE Flips(_, _, _)
Flips(op, m, i) == IF i > Len(op.t) THEN <<>>
                   ELSE (IF m % 2 = 1 THEN <<[op EXCEPT !.g = G0("X"), !.t = <<op.t[i]>>]>> ELSE <<>>) \o Flips(op, m \div 2, i + 1)
(* a Pauli operator or time evolution is applied to the qubits on which it *)
(* is not the identity; if there is none it is a phase                     *)
RECURSIVE PickPos(_, _)
PickPos(s, I) == IF s = <<>> THEN <<>> ELSE (IF 1 \in I THEN <<s[1]>> ELSE <<>>) \o PickPos(Tail(s), {i - 1 : i \in I \ {1}})
Reduce(op, lead, ph) ==
  LET codes == SubSeq(op.g.p, lead + 1, Len(op.g.p))
      I == {i \in 1..Len(codes) : codes[i] # 0}
  IN IF I = {} THEN [op EXCEPT !.g = Gate("Ph", ph), !.t = <<op.t[1]>>]
     ELSE [op EXCEPT !.g.p = SubSeq(op.g.p, 1, lead) \o PickPos(codes, I), !.t = PickPos(op.t, I)]
RECURSIVE Unfold(_)
Unfold(ops) == IF ops = <<>> THEN <<>>
               ELSE IF ops[1].o = "g" /\ ops[1].g.n = "TE" THEN <<Reduce(ops[1], 2, <<0 - ops[1].g.p[1], 0 - ops[1].g.p[2]>>)>> \o Unfold(Tail(ops))
               ELSE IF ops[1].o = "g" /\ ops[1].g.n = "QOp" THEN 
                    LET r == Reduce(ops[1], 1, <<ops[1].g.p[1], 0>>)
                    IN (IF r.g.n = "QOp" /\ Len(r.t) = 1
                        THEN <<[r EXCEPT !.g = G0(<<"X", "Y", "Z">>[r.g.p[2]])], [r EXCEPT !.g = Gate("Ph", <<r.g.p[1], 0>>)]>>
                        ELSE <<r>>) \o Unfold(Tail(ops))
               ELSE (IF ops[1].o = "g" /\ ops[1].g.n = "Flip" THEN Flips(ops[1], Mod(ops[1].g.p[1], Pow2(Len(ops[1].t))), 1) ELSE <<ops[1]>>)
                    \o Unfold(Tail(ops))

QubitsOf(op) == ToSet(op.t) \cup ToSet(op.c)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

(* ---- one command after the other ---- *)
CInit == [n |-> 0, width |-> 0, d |-> [q \in {} |-> 0], past |-> 0]
CStep(c, op) ==
  CASE op.o = "a" -> [c EXCEPT !.n = @ + 1, !.width = IF c.n + 1 > @ THEN c.n + 1 ELSE @,
                               !.d = [q \in DOMAIN @ \cup {op.t[1]} |-> IF q = op.t[1] THEN 0 ELSE @[q]]]
    [] op.o = "d" -> [c EXCEPT !.n = @ - 1, !.past = Max({@, c.d[op.t[1]]}), !.d = [q \in DOMAIN @ \ {op.t[1]} |-> @[q]]]
    [] OTHER -> LET m == Max({c.d[q] : q \in QubitsOf(op)})
                IN [c EXCEPT !.d = [q \in DOMAIN @ |-> IF q \in QubitsOf(op) THEN m + 1 ELSE @[q]]]
RECURSIVE Count(_, _)
Count(c, ops) == IF ops = <<>> THEN c ELSE Count(CStep(c, ops[1]), Tail(ops))
Depth(c) == Max({c.past} \cup {c.d[q] : q \in DOMAIN c.d})

(* ---- the definitions ---- *)
Adds(op) == op.o \in {"g", "m"}
RECURSIVE Chains(_, _, _)
Chains(ops, i, L) == IF i > Len(ops) THEN L
                ELSE Chains(ops, i + 1, Append(L, IF ~Adds(ops[i]) THEN 0
                       ELSE 1 + Max({0} \cup {L[j] : j \in {k \in 1..(i - 1) : Adds(ops[k]) /\ QubitsOf(ops[k]) \cap QubitsOf(ops[i]) # {}}})))
LongestChain(ops) == Max({0} \cup ToSet(Chains(ops, 1, <<>>)))
Alive(ops, i) == Cardinality({q \in UNION {ToSet(ops[j].t) : j \in {k \in 1..i : ops[k].o = "a"}} :
                           ~\E j \in 1..i : ops[j].o = "d" /\ ops[j].t[1] = q})
MostAlive(ops) == Max({0} \cup {Alive(ops, i) : i \in 1..Len(ops)})

KeyOf(op) == [o |-> op.o, g |-> op.g, n |-> Len(op.c), w |-> Len(op.t)]
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
Keys(ops) == {KeyOf(ops[i]) : i \in 1..Len(ops)}
Counts(ops) == {[key |-> k, num |-> Cardinality({i \in 1..Len(ops) : KeyOf(ops[i]) = k})] : k \in Keys(ops)}

CEmit ==
  /\ ~InFrame /\ ~done
  /\ LET ops == Unfold([i \in 1..Len(flat) |-> Seen(flat[i])])  c == Count(CInit, ops) IN
     /\ Assert(Depth(c) = LongestChain(ops) /\ c.width = MostAlive(ops) /\ c.n = Len(live), <<"inconsistent resources", ops>>)
     /\ PrintT(ToJson(hist \o << [a |-> "flush", s |-> st, flat |-> flat],
                                 [a |-> "count", counts |-> AsSeq(Counts(ops)), width |-> c.width, depth |-> Depth(c), total |-> Len(ops)] >>))
  /\ done' = TRUE
  /\ UNCHANGED <<st, frames, live, nid, meas, hist, flat, step>>
CNext == \/ step < Steps /\ Work
         \/ step < Steps /\ Skip
         \/ step >= Steps /\ WindUp
         \/ step >= Steps /\ CEmit
=============================================================================
