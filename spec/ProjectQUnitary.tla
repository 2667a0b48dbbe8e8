-------------------------- MODULE ProjectQUnitary --------------------------
(***************************************************************************)
(* The unitary simulator.  The program so far (flat) is cut into segments  *)
(* at its measurements and deallocations; a segment is completed when the  *)
(* next gate or allocation comes.  The unitary of a segment maps each basis*)
(* state of the qubits alive at its end (ordered by allocation) to the     *)
(* state its gates produce from it.  All segments but the last are the     *)
(* history.                                                                *)
(***************************************************************************)
EXTENDS ProjectQGen

(* cut: sequence of <<ids at the end, gate operations>> *)
RECURSIVE Cut(_, _, _, _, _)
Cut(ops, ids, gs, ended, acc) ==
  IF ops = <<>> THEN Append(acc, [ids |-> ids.seg, gs |-> gs])
  ELSE LET op == ops[1]  rest == Tail(ops) IN
       IF op.o \in {"a", "g"}
       THEN LET acc2 == IF ended THEN Append(acc, [ids |-> ids.seg, gs |-> gs]) ELSE acc
                gs2 == IF ended THEN <<>> ELSE gs
                now == IF op.o = "a" THEN Append(ids.now, op.t[1]) ELSE ids.now
            IN Cut(rest, [now |-> now, seg |-> now], IF op.o = "g" THEN Append(gs2, op) ELSE gs2, FALSE, acc2)
       ELSE Cut(rest, IF op.o = "d" THEN [ids EXCEPT !.now = SelectSeq(@, LAMBDA x : x # op.t[1])] ELSE ids, gs, TRUE, acc)
Segments == Cut(flat, [now |-> <<>>, seg |-> <<>>], <<>>, FALSE, <<>>)

Basis(ids, b) == [ids |-> ids, v |-> [i \in 0..(Pow2(Len(ids)) - 1) |-> IF i = b THEN ROne ELSE RZero], e2 |-> 0, e5 |-> 0]
RECURSIVE Run(_, _)
Run(S, gs) == IF gs = <<>> THEN S ELSE Run(TLCEval(QApplyGate(S, gs[1].g, gs[1].t, gs[1].c, gs[1].s)), Tail(gs))
Column(seg, b) == Run(Basis(seg.ids, b), seg.gs)
Columns(seg) == [b \in 1..Pow2(Len(seg.ids)) |-> LET S == Column(seg, b - 1) IN [v |-> S.v, e2 |-> S.e2, e5 |-> S.e5]]

(* Without measurement the zero state becomes the state of the machine.    *)
Consistent(us) ==
  (\A i \in 1..Len(flat) : flat[i].o \in {"a", "g"}) =>
    /\ Len(us) = 1 /\ us[1].ids = st.ids
    /\ us[1].cols[1].v = st.v /\ us[1].cols[1].e2 = st.e2 /\ us[1].cols[1].e5 = st.e5

UEmit ==
  /\ ~InFrame /\ ~done
  /\ LET sg == Segments
         us == TLCEval([i \in 1..Len(sg) |-> [ids |-> sg[i].ids, cols |-> Columns(sg[i])]])
     IN /\ Assert(Consistent(us), <<"inconsistent unitary", flat>>)
        /\ PrintT(ToJson(Append(hist, [a |-> "unitary", s |-> st, segs |-> us])))
  /\ done' = TRUE
  /\ UNCHANGED <<st, frames, live, nid, meas, hist, flat, step>>
UNext == \/ step < Steps /\ Work
         \/ step < Steps /\ Skip
         \/ step >= Steps /\ WindUp
         \/ step >= Steps /\ UEmit
=============================================================================
