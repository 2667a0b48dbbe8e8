------------------------------ MODULE Drawing ------------------------------
(***************************************************************************)
(* Programs seen by a circuit drawer or printer, and the picture that has  *)
(* to come out: for each command the symbols on the lines, the lines it    *)
(* covers, and the kind of wire (quantum or classical) leading to it.      *)
(*                                                                         *)
(*   MaxQ   qubits alive at a time                                         *)
(*   MaxP   number of places (qubit ids seen by the drawer: 0..MaxP-1)     *)
(*                                                                         *)
(* A picture is read from left to right.  It says which program ran if     *)
(* the symbols of commands that cover a common line are drawn one after    *)
(* the other: Col gives such a picture, and the invariants say that        *)
(* reading it gives back the program, up to commands that commute because  *)
(* they have no qubit in common.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxQ, MaxP, Steps

VARIABLES hist,  \* the commands so far
          live,  \* qubits in use
          at,    \* at[id + 1]: the place of qubit id
          cfg    \* how the drawers are used
vars == <<hist, live, at, cfg>>

Range(s) == {s[k] : k \in DOMAIN s}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

One == <<"X", "X", "X", "Z", "Z", "H", "S", "Sdag", "T", "SqrtX", "Rx", "Ph", "G", "Gdag">>
Two == <<"Swap", "Swap", "SqrtSwap", "SqrtSwapDag", "Rxx", "TE", "G2">>
Many == <<"Ent", "Bar">>
A(q) == at[q + 1]

(* ------------------------------------------------------------- programs *)
Nth(s, r) == s[1 + (r % Len(s))]
RECURSIVE Pick(_, _, _)      \* n different elements of sequence s
Pick(s, n, r) ==
  IF n = 0 THEN <<>>
  ELSE LET k == 1 + (r % Len(s))
           rest == [j \in 1..(Len(s) - 1) |-> IF j < k THEN s[j] ELSE s[j + 1]]
       IN <<s[k]>> \o Pick(rest, n - 1, (r \div Len(s)) + 7 * k)
RECURSIVE Shuffled(_, _)
Shuffled(S, r) ==
  IF S = {} THEN <<>>
  ELSE LET x == Min(S)
           rest == Shuffled(S \ {x}, r \div Cardinality(S))
           k == r % Cardinality(S)
       IN SubSeq(rest, 1, k) \o <<x>> \o SubSeq(rest, k + 1, Len(rest))

Busy == {A(q) : q \in Range(live)}
Add(e) == hist' = Append(hist, e)

Alloc(d) ==
  LET id == Len(at)
      place == IF cfg.relabel THEN Nth(Shuffled((0..(MaxP - 1)) \ Busy, 0), d[3]) ELSE id
  IN /\ Len(live) < MaxQ /\ (cfg.relabel \/ id < MaxP)
     /\ Add([op |-> "alloc", q |-> id, p |-> place])
     /\ live' = Append(live, id) /\ at' = Append(at, place) /\ UNCHANGED cfg
(* a qubit the drawer never sees *)
Hide ==
  /\ ~cfg.relabel /\ Len(at) < MaxP
  /\ Add([op |-> "hide", q |-> Len(at)])
  /\ at' = Append(at, Len(at)) /\ UNCHANGED <<live, cfg>>
Dealloc(d) ==
  LET k == 1 + (d[3] % Len(live)) IN
  /\ live # <<>>
  /\ Add([op |-> "dealloc", q |-> live[k], p |-> A(live[k])])
  /\ live' = SubSeq(live, 1, k - 1) \o SubSeq(live, k + 1, Len(live)) /\ UNCHANGED <<at, cfg>>
Junk == <<"2", "x", "", "01", "-1", "yes">>
Meas(d) ==
  LET q == Nth(live, d[3])
      tries == IF cfg.input THEN d[4] % 3 ELSE 0
  IN /\ live # <<>>
     /\ Add([op |-> "meas", q |-> q, p |-> A(q),
             res |-> IF cfg.last = "back" \/ cfg.input THEN d[5] % 2 ELSE cfg.default,
             junk |-> [k \in 1..tries |-> Nth(Junk, d[6] + k)]])
     /\ UNCHANGED <<live, at, cfg>>
Gate(d) ==
  LET w == d[2] % 16
      n == Len(live)
      syms == IF w < 9 \/ n < 2 THEN One ELSE IF w < 14 THEN Two ELSE Many
      g == Nth(syms, d[3])
      nt == IF syms = One THEN 1 ELSE IF syms = Two THEN 2 ELSE 1 + (d[4] % (IF n < 3 THEN n ELSE 3))
      ncmax == IF n - nt < 3 THEN n - nt ELSE 3
      nc == IF d[5] % 3 = 0 THEN 0 ELSE d[5] % (ncmax + 1)
      qs == Pick(live, nt + nc, d[6])
  IN /\ n > 0
     /\ Add([op |-> "gate", g |-> g, k |-> d[4] % 7, t |-> SubSeq(qs, 1, nt), c |-> SubSeq(qs, nt + 1, nt + nc),
             neg |-> {qs[nt + j] : j \in {j \in 1..nc : cfg.neg /\ (d[1] + 3 * j) % 4 = 0}}])
     /\ UNCHANGED <<live, at, cfg>>
Peek == /\ hist # <<>> /\ hist[Len(hist)].op # "peek"
        /\ Add([op |-> "peek"]) /\ UNCHANGED <<live, at, cfg>>

Draw(d) ==
  LET w == d[1] % 40 IN
  CASE live = <<>> -> (IF w % 5 = 0 /\ ~cfg.relabel /\ Len(at) < MaxP - 1 THEN Hide ELSE Alloc(d))
    [] w \in 0..5 /\ Len(live) < MaxQ /\ (cfg.relabel \/ Len(at) < MaxP) -> Alloc(d)
    [] w = 6 /\ ~cfg.relabel /\ Len(at) < MaxP -> Hide
    [] w \in 7..8 /\ (cfg.relabel \/ Len(live) > 1) -> Dealloc(d)
    [] w \in 9..12 -> Meas(d)
    [] w = 13 /\ hist[Len(hist)].op # "peek" -> Peek
    [] OTHER -> Gate(d)

(* ------------------------------------------------------------- the picture *)
(* Pl: places of a command's targets and controls; Ln: line of a place *)
Shown(e) == e.op \in {"alloc", "dealloc", "meas", "gate"}
T(e) == IF e.op = "gate" THEN {A(e.t[k]) : k \in DOMAIN e.t} ELSE {e.p}
C(e) == IF e.op = "gate" THEN {A(e.c[k]) : k \in DOMAIN e.c} ELSE {}
N(e) == IF e.op = "gate" THEN {A(q) : q \in e.neg} ELSE {}
Seen == {hist[k].p : k \in {k \in DOMAIN hist : hist[k].op = "alloc"}}
LLine(p) == IF cfg.map = <<>> THEN p ELSE cfg.map[p + 1]
MLine(p) == IF cfg.order = <<>> THEN Cardinality({x \in Seen : x > p})
            ELSE Cardinality({x \in Seen : cfg.order[x + 1] < cfg.order[p + 1]})
Img(Ln(_), S) == {Ln(p) : p \in S}
Hull(S) == Min(S)..Max(S)

Boxed(e, latex) ==
  e.op = "gate" /\ ~(\/ e.g \in {"X", "Swap"}
                     \/ (e.g = "Z" /\ e.c # <<>> /\ (latex \/ Len(e.c) = 1))
                     \/ (e.g \in {"SqrtSwap", "SqrtSwapDag"} /\ latex))
(* symbol of the target lines *)
Symbol(e, latex) ==
  CASE e.op = "alloc" -> "ket" [] e.op = "dealloc" -> "end" [] e.op = "meas" -> "meter"
    [] Boxed(e, latex) -> "box"
    [] e.g = "X" -> "not" [] e.g = "Z" -> "dot" [] OTHER -> "cross"
(* the symbols, line by line; a control between the targets of a box is inside it *)
Glyph(e, Ln(_), latex) ==
  LET box == IF Boxed(e, latex) THEN Hull(Img(Ln, T(e))) ELSE Img(Ln, T(e))
      ctl == {p \in C(e) : Ln(p) \notin box}
  IN [sym |-> {<<l, Symbol(e, latex)>> : l \in box} \cup {<<Ln(p), IF p \in N(e) THEN "odot" ELSE "dot">> : p \in ctl},
      real |-> Img(Ln, T(e) \cup ctl),
      span |-> Hull(Img(Ln, T(e) \cup C(e))),
      inside |-> Cardinality(C(e) \ ctl),
      gap |-> Boxed(e, latex) /\ box # Img(Ln, T(e)),
      mark |-> IF latex /\ e.op = "gate" /\ e.g \in {"SqrtSwap", "SqrtSwapDag"}
               THEN (IF e.g = "SqrtSwap" THEN "half" ELSE "halfdag") ELSE ""]

(* quantum, classical or unspecified: the wire of each place before command k *)
Wire0 == [p \in 0..(MaxP - 1) |-> "none"]
After(e, w) ==
  LET put(S, v) == [p \in DOMAIN w |-> IF p \in S THEN v ELSE w[p]]
      t == CHOOSE p \in T(e) : TRUE
      cs == {w[p] : p \in C(e)}
      ts == {w[p] : p \in T(e)}
  IN CASE e.op = "alloc" -> put(T(e), "q")
       [] e.op = "dealloc" -> put(T(e), "none")
       [] e.op = "meas" -> put(T(e), "c")
       [] e.g = "X" -> (IF w[t] = "q" \/ "q" \in cs THEN put(T(e), "q")
                        ELSE IF w[t] = "any" \/ "any" \in cs THEN put(T(e), "any") ELSE w)
       [] e.g = "Z" /\ e.c # <<>> -> w
       [] e.g \in {"Swap", "SqrtSwap", "SqrtSwapDag"} -> (IF Cardinality(ts) = 1 THEN w ELSE put(T(e), "any"))
       [] OTHER -> [p \in DOMAIN w |-> IF p \in T(e) /\ w[p] # "q" THEN "any" ELSE w[p]]
RECURSIVE Wires(_)
Wires(k) == IF k = 0 THEN Wire0 ELSE LET w == Wires(k - 1) IN IF Shown(hist[k]) THEN After(hist[k], w) ELSE w

(* columns: a command comes after all earlier ones it overlaps with *)
Items == SelectSeq(hist, Shown)
Cols(Ln(_)) ==
  LET RECURSIVE F(_)
      F(n) == IF n = 0 THEN <<>>
              ELSE LET c == F(n - 1)
                       sp(k) == Hull(Img(Ln, T(Items[k]) \cup C(Items[k])))
                       before == {c[k] : k \in {k \in 1..(n - 1) : sp(k) \cap sp(n) # {}}}
                   IN Append(c, IF before = {} THEN 0 ELSE 1 + Max(before))
  IN F(Len(Items))

(* ------------------------------------------------------------- behaviours *)
Over == hist # <<>> /\ hist[Len(hist)].op = "over"
GInit == hist = <<>> /\ live = <<>> /\ at = <<>> /\ cfg = <<>>
Setup ==
  \E d \in {<<RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999)>>} :
    /\ cfg' = [relabel |-> d[1] % 2 = 0,
               last |-> Nth(<<"tikz", "mpl", "printer", "back", "back">>, d[2]),
               map |-> IF d[3] % 2 = 0 THEN <<>> ELSE SubSeq(Shuffled(0..(MaxP + (d[3] % 3)), d[4]), 1, MaxP),
               order |-> IF d[5] % 2 = 0 THEN <<>> ELSE Shuffled(0..(MaxP - 1), d[5]),
               default |-> (d[1] \div 2) % 2, input |-> (d[1] \div 4) % 3 = 0,
               neg |-> (d[2] \div 8) % 4 = 0,
               ordered |-> (d[3] \div 8) % 2 = 0, parallel |-> (d[3] \div 16) % 3 > 0,
               drawid |-> (d[4] \div 8) % 2 = 0, atzero |-> d[1] % 2 = 1 /\ (d[4] \div 16) % 4 = 0,
               shadow |-> (d[5] \div 8) % 2 = 0, double |-> (d[5] \div 16) % 3 > 0]
    /\ UNCHANGED <<hist, live, at>>
Finish ==
  LET w(k) == Wires(k - 1)
      item(k) ==
        LET e == hist[k] IN
        IF ~Shown(e) THEN [e |-> e]
        ELSE [e |-> e, latex |-> Glyph(e, LLine, TRUE), mpl |-> Glyph(e, MLine, FALSE),
              wires |-> {<<LLine(p), w(k)[p]>> : p \in T(e) \cup C(e)},
              place |-> [t |-> IF e.op = "gate" THEN [j \in DOMAIN e.t |-> A(e.t[j])] ELSE <<e.p>>,
                         c |-> C(e)]]
  IN /\ PrintT(ToJson([cfg |-> cfg, seen |-> Seen, mlines |-> {<<p, MLine(p)>> : p \in Seen},
                       prog |-> [k \in DOMAIN hist |-> item(k)]]))
     /\ hist' = Append(hist, [op |-> "over"]) /\ UNCHANGED <<live, at, cfg>>
GNext ==
  \/ cfg = <<>> /\ Setup
  \/ /\ cfg # <<>> /\ Len(hist) < Steps /\ ~Over
     /\ \E d \in {<<RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999)>>} : Draw(d)
  \/ Len(hist) = Steps /\ ~Over /\ Finish

(* ------------------------------------------------------------- invariants *)
PlacesDistinct == \A x, y \in Range(live) : x # y => A(x) # A(y)
(* reading the columns from left to right: commands with a common qubit are in order, *)
(* and nothing lies on a line that a command of the same column passes *)
ReadsBack(Ln(_)) ==
  LET c == Cols(Ln)
      pl(k) == T(Items[k]) \cup C(Items[k])
      sp(k) == Hull(Img(Ln, pl(k)))
  IN \A j, k \in DOMAIN Items : j < k =>
       /\ (pl(j) \cap pl(k) # {} => c[j] < c[k])
       /\ (c[j] = c[k] => sp(j) \cap Img(Ln, pl(k)) = {})
(* checked where a program ends; Cols is the costly part *)
Readable == (Len(hist) = Steps /\ ~Over) => ReadsBack(LLine) /\ ReadsBack(MLine)
(* a command only has live places *)
Alive == (Len(hist) = Steps /\ ~Over) =>
  \A k \in DOMAIN hist : Shown(hist[k]) /\ hist[k].op # "alloc" =>
    \A p \in T(hist[k]) \cup C(hist[k]) : Wires(k - 1)[p] # "none"
=============================================================================
