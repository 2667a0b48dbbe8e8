---------------------------- MODULE PauliAlgebra ----------------------------
(***************************************************************************)
(* The algebra of Pauli operators with complex coefficients, and a machine *)
(* with three operator variables whose actions are the operations a user   *)
(* can write down.  An operator is [t |-> term -> <<re, im>>, e |-> e]: the*)
(* coefficients are (re + i im) / 2^e; a term is a tuple of codes 0..3     *)
(* (identity, X, Y, Z), one per qubit; all coefficients are non-zero.      *)
(***************************************************************************)
EXTENDS HighGates, TLC, Json

CONSTANTS NQ, Steps, Mode     \* Mode: "pairs" (all products of two terms) or "walk"

VARIABLES reg, hist, step, done
vars == <<reg, hist, step, done>>

Terms == [1..NQ -> 0..3]
Vars == 1..3

(* ------------------------------- algebra -------------------------------- *)
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CNorm2(a) == a[1] * a[1] + a[2] * a[2]
IPow(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>

(* product of two Pauli matrices: the code and the power of i *)
PCode(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a = b THEN 0 ELSE 6 - a - b
PPhase(a, b) == IF a = 0 \/ b = 0 \/ a = b THEN 0 ELSE IF (b - a + 3) % 3 = 1 THEN 1 ELSE 3
TProd(s, t) == [j \in 1..NQ |-> PCode(s[j], t[j])]
TPhase(s, t) == SumSeq([j \in 1..NQ |-> PPhase(s[j], t[j])])

Zero == [t |-> [x \in {} |-> <<0, 0>>], e |-> 0]
Single(c, t, e) == IF c = <<0, 0>> THEN Zero ELSE [t |-> [x \in {t} |-> c], e |-> e]
Coef(o, t) == IF t \in DOMAIN o.t THEN o.t[t] ELSE <<0, 0>>
Clean(f, e) == [t |-> [x \in {y \in DOMAIN f : f[y] # <<0, 0>>} |-> f[x]], e |-> e]
RECURSIVE Reduce(_)
Reduce(o) == IF o.e > 0 /\ \A x \in DOMAIN o.t : o.t[x][1] % 2 = 0 /\ o.t[x][2] % 2 = 0
             THEN Reduce([t |-> [x \in DOMAIN o.t |-> <<o.t[x][1] \div 2, o.t[x][2] \div 2>>], e |-> o.e - 1]) ELSE o
ScaleTo(o, e) == [t |-> [x \in DOMAIN o.t |-> <<o.t[x][1] * Pow2(e - o.e), o.t[x][2] * Pow2(e - o.e)>>], e |-> e]
MaxE(x, y) == IF x.e > y.e THEN x.e ELSE y.e
Plus(x, y, sg) ==
  LET e == MaxE(x, y) a == ScaleTo(x, e) b == ScaleTo(y, e)
  IN Reduce(Clean([t \in DOMAIN a.t \cup DOMAIN b.t |-> CAdd(Coef(a, t), <<sg * Coef(b, t)[1], sg * Coef(b, t)[2]>>)], e))
RECURSIVE SumC(_, _)
SumC(S, f) == IF S = {} THEN <<0, 0>> ELSE LET p == CHOOSE q \in S : TRUE IN CAdd(f[p], SumC(S \ {p}, f))
Times(x, y) ==
  LET P == (DOMAIN x.t) \X (DOMAIN y.t)
      val == [p \in P |-> CMul(IPow(TPhase(p[1], p[2])), CMul(x.t[p[1]], y.t[p[2]]))]
      ts == {TProd(p[1], p[2]) : p \in P}
  IN Reduce(Clean([t \in ts |-> SumC({p \in P : TProd(p[1], p[2]) = t}, val)], x.e + y.e))
(* times (a + i b) / 2^e, for negative e times a power of two *)
Scaled(x, a, b, e) == LET c == IF e >= 0 THEN <<a, b>> ELSE <<a * Pow2(0 - e), b * Pow2(0 - e)>>
                      IN Reduce(Clean([t \in DOMAIN x.t |-> CMul(c, x.t[t])], IF e >= 0 THEN x.e + e ELSE x.e))

IsUnitTerm(x) == Cardinality(DOMAIN x.t) = 1 /\ \A t \in DOMAIN x.t : CNorm2(x.t[t]) = Pow2(2 * x.e)
Inverse(x) == [t |-> [t \in DOMAIN x.t |-> <<x.t[t][1], 0 - x.t[t][2]>>], e |-> x.e]
Hermitian(x) == \A t \in DOMAIN x.t : x.t[t][2] = 0
OnlyIdentity(x) == DOMAIN x.t = {[j \in 1..NQ |-> 0]}
(* number of qubits a register needs for the operator to act on it *)
Reach(x) == LET J == {j \in 1..NQ : \E t \in DOMAIN x.t : t[j] # 0} IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A k \in J : k <= j

(* comparison with tolerances given as 2^-k: "yes", "no", or "edge" when   *)
(* rounding may decide                                                     *)
Cmp2(a, b) == IF a < b THEN "yes" ELSE IF a > b THEN "no" ELSE "edge"
All3(S) == IF "no" \in S THEN "no" ELSE IF "edge" \in S THEN "edge" ELSE "yes"
Any3(S) == IF "yes" \in S THEN "yes" ELSE IF "edge" \in S THEN "edge" ELSE "no"
Close(x, y, rk, ak) ==
  LET e == MaxE(x, y) a == ScaleTo(x, e) b == ScaleTo(y, e)
      one(t) == LET l == Coef(a, t) r == Coef(b, t)
                    d == CNorm2(<<l[1] - r[1], l[2] - r[2]>>)
                    m == IF CNorm2(l) > CNorm2(r) THEN CNorm2(l) ELSE CNorm2(r)
                    absTest == IF d = 0 THEN "yes" ELSE IF d > Pow2(2 * e) THEN "no" ELSE Cmp2(d * Pow2(2 * ak), Pow2(2 * e))
                    q == Pow2(2 * rk)
                    relTest == IF d > m \div q THEN "no" ELSE Cmp2(d * q, m)
                IN IF t \in DOMAIN a.t /\ t \in DOMAIN b.t THEN Any3({absTest, relTest}) ELSE absTest
  IN All3({one(t) : t \in DOMAIN a.t \cup DOMAIN b.t} \cup {"yes"})
(* imaginary parts and whole coefficients of size up to 2^-k are dropped   *)
Compressed(x, k) ==
  LET lim == Pow2(2 * x.e)
      small(n2) == n2 * Pow2(2 * k) <= lim
      c(t) == IF small(x.t[t][2] * x.t[t][2]) THEN <<x.t[t][1], 0>> ELSE x.t[t]
  IN Reduce([t |-> [t \in {s \in DOMAIN x.t : ~small(CNorm2(c(s)))} |-> c(t)], e |-> x.e])

(* the algebra is the one of matrices *)
MatTermEq(s, t) ==
  LET d == Pow2(NQ) IN
  \A i \in 0..(d - 1) : /\ PauliRow(TProd(s, t), i, 1) = PauliRow(s, PauliRow(t, i, 1), 1)
                        /\ (4 * TPhase(s, t) + PauliPh(TProd(s, t), i, 1) - PauliPh(t, i, 1) - PauliPh(s, PauliRow(t, i, 1), 1)) % 16 = 0

(* ------------------------------- machine -------------------------------- *)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Small(x) == /\ x.e <= 5 /\ Cardinality(DOMAIN x.t) <= 12 /\ \A t \in DOMAIN x.t : Abs(x.t[t][1]) <= 400 /\ Abs(x.t[t][2]) <= 400
Listed(x) == LET RECURSIVE L(_)
                 L(S) == IF S = {} THEN <<>> ELSE LET t == CHOOSE u \in S : TRUE IN <<<<t, x.t[t]>>>> \o L(S \ {t})
             IN [t |-> L(DOMAIN x.t), e |-> x.e]
Put(z, o, ev) == /\ Small(o) /\ reg' = [reg EXCEPT ![z] = o]
                 /\ hist' = Append(hist, ev @@ [z |-> z, res |-> Listed(o)])
Tell(ev) == reg' = reg /\ hist' = Append(hist, ev)

Mix(x, i) == ((x * 211 + i * 7919 + 31) % 30011)
Coeffs == << <<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>, <<1, 0, 1>>, <<3, 0, 2>>, <<-5, 0, 0>>, <<2, 1, 0>>, <<1, -3, 1>>, <<0, 1, 2>>, <<4, 0, 0>>,
             <<0, 0, 0>>, <<1, 1, 0>>, <<1, 0, 3>>, <<0, 1, 4>>, <<-1, 0, 5>>, <<3, 1, 5>> >>
Powers == << <<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>, <<1, 0, 1>>, <<1, 0, -2>>, <<-1, 0, 2>>, <<0, 1, -1>> >>

Walk ==
  \E d \in {<<RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999), RandomElement(0..9999)>>} :
    LET w == d[1] % 40
        x == 1 + (d[2] % 3) y == 1 + (d[3] % 3) z == 1 + ((d[2] \div 3) % 3)
        c == Coeffs[1 + (d[4] % (IF w < 4 THEN 4 ELSE Len(Coeffs)))]
        pw == Powers[1 + (d[4] % Len(Powers))]
        t == [j \in 1..NQ |-> Mix(d[3], j) % 4]
    IN /\ step' = step + 1 /\ done' = done
       /\ CASE w < 9 -> Put(z, Single(<<c[1], c[2]>>, t, c[3]), [a |-> "new", t |-> t, c |-> c])
            [] w < 14 -> Put(z, Plus(reg[x], reg[y], 1), [a |-> "add", x |-> x, y |-> y])
            [] w < 16 -> Put(z, Plus(reg[x], reg[y], -1), [a |-> "sub", x |-> x, y |-> y])
            [] w < 20 -> Put(z, Times(reg[x], reg[y]), [a |-> "mul", x |-> x, y |-> y])
            [] w < 23 -> Put(x, Plus(reg[x], reg[y], 1), [a |-> "iadd", x |-> x, y |-> y])
            [] w < 25 -> Put(x, Plus(reg[x], reg[y], -1), [a |-> "isub", x |-> x, y |-> y])
            [] w < 27 -> Put(x, Times(reg[x], reg[y]), [a |-> "imul", x |-> x, y |-> y])
            [] w = 27 -> Put(z, Scaled(reg[x], c[1], c[2], c[3]), [a |-> "smul", x |-> x, c |-> c])
            [] w = 28 -> Put(x, Scaled(reg[x], c[1], c[2], c[3]), [a |-> "ismul", x |-> x, c |-> c])
            \* division by i^k 2^j
            [] w = 29 -> Put(z, Scaled(reg[x], pw[1], 0 - pw[2], 0 - pw[3]), [a |-> "div", x |-> x, c |-> pw])
            [] w = 30 -> Put(x, Scaled(reg[x], pw[1], 0 - pw[2], 0 - pw[3]), [a |-> "idiv", x |-> x, c |-> pw])
            [] w = 31 -> Put(z, Scaled(reg[x], -1, 0, 0), [a |-> "neg", x |-> x])
            [] w = 32 -> Put(x, Compressed(reg[x], d[4] % 6), [a |-> "compress", x |-> x, k |-> d[4] % 6])
            [] w = 34 -> Tell([a |-> "close", x |-> x, y |-> y, rk |-> d[4] % 5, ak |-> d[5] % 7, ans |-> Close(reg[x], reg[y], d[4] % 5, d[5] % 7)])
            [] w \in {33, 35} -> IF IsUnitTerm(reg[x]) THEN Put(z, Inverse(reg[x]), [a |-> "inv", x |-> x]) ELSE Tell([a |-> "noinv", x |-> x])
            [] w = 36 -> IF Cardinality(DOMAIN reg[x].t) = 1 /\ Cardinality(DOMAIN reg[y].t) = 1
                         THEN Put(z, Times(reg[y], reg[x]), [a |-> "merge", x |-> x, y |-> y]) ELSE Tell([a |-> "nomerge", x |-> x, y |-> y])
            [] w = 37 -> Tell([a |-> "bad", k |-> d[4] % 23, x |-> x])
            [] w = 38 -> Tell([a |-> "hermitian", x |-> x, ok |-> Hermitian(reg[x])])
            \* as a gate on n qubits
            [] w = 39 -> LET n == 1 + (d[4] % NQ) IN
                         Tell([a |-> "apply", x |-> x, n |-> n, qop |-> IsUnitTerm(reg[x]) /\ Reach(reg[x]) <= n,
                               te |-> Hermitian(reg[x]) /\ Reach(reg[x]) <= n])

Init ==
  /\ hist = <<>> /\ done = FALSE
  /\ IF Mode = "pairs" THEN /\ \E s \in Terms, t \in Terms : reg = [v \in Vars |-> CASE v = 1 -> Single(<<1, 0>>, s, 0) [] v = 2 -> Single(<<1, 0>>, t, 0)
                                                                                 [] OTHER -> Zero]
                            /\ step = Steps
     ELSE reg = [v \in Vars |-> Zero] /\ step = 0
Emit ==
  /\ ~done /\ step >= Steps
  /\ IF Mode = "pairs" THEN PrintT(ToJson([s |-> Listed(reg[1]), t |-> Listed(reg[2]), p |-> Listed(Times(reg[1], reg[2])),
                                           a |-> Listed(Plus(reg[1], reg[2], 1)), d |-> Listed(Plus(reg[1], reg[2], -1))]))
     ELSE PrintT(ToJson(hist))
  /\ done' = TRUE /\ UNCHANGED <<reg, hist, step>>
Next == \/ (step < Steps /\ Walk)
        \/ (step < Steps /\ step' = step + 1 /\ UNCHANGED <<reg, hist, done>>)
        \/ Emit

(* ------------------------------ invariants ------------------------------ *)
Canonical == \A v \in Vars : \A t \in DOMAIN reg[v].t : reg[v].t[t] # <<0, 0>>
MatrixProduct == Mode = "pairs" => \A s \in DOMAIN reg[1].t, t \in DOMAIN reg[2].t : MatTermEq(s, t)
RingLaws == LET a == reg[1] b == reg[2] c == reg[3] IN
  (\A v \in Vars : Cardinality(DOMAIN reg[v].t) <= 3 /\ \A t \in DOMAIN reg[v].t : CNorm2(reg[v].t[t]) < 400 /\ reg[v].e <= 3) =>
    /\ Times(Times(a, b), c) = Times(a, Times(b, c))
    /\ Times(a, Plus(b, c, 1)) = Plus(Times(a, b), Times(a, c), 1)
    /\ Plus(a, b, 1) = Plus(b, a, 1) /\ Plus(a, a, -1) = Zero
InverseLaw == \A v \in Vars : IsUnitTerm(reg[v]) => Times(reg[v], Inverse(reg[v])) = Single(<<1, 0>>, [j \in 1..NQ |-> 0], 0)
=============================================================================
