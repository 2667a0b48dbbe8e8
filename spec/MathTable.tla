------------------------------ MODULE MathTable ------------------------------
(***************************************************************************)
(* Every arithmetic gate of small width with every constant, and its value *)
(* on every register content that meets the precondition.                  *)
(***************************************************************************)
EXTENDS HighGates, TLC, Json

CONSTANTS W,        \* largest width of a one-register gate
          H,        \* largest width of each operand of the others
          Full

VARIABLES g, done

Within(S, lo, hi) == IF Full THEN lo..hi ELSE S \cap lo..hi
Consts(w) == Within({0 - Pow2(w) - 1, -3, -1, 0, 1, 2, 3, 5, 6, Pow2(w) - 1, Pow2(w), Pow2(w) + 2}, 0 - Pow2(w) - 2, Pow2(w) + 2)
OneReg == UNION { {Gate(nm, <<w, a>>) : nm \in {"AddC", "SubC"}, a \in Consts(w)}
                  \cup {Gate("User", <<w, a>>) : a \in 0..2}
                  \cup UNION {{Gate(nm, <<w, a, n>>) : nm \in {"AddCModN", "SubCModN"}, a \in Within({0, 1, 2, n \div 2, n - 1}, 0, n - 1)} : n \in 1..Pow2(w)}
                  \cup UNION {{Gate("MulCModN", <<w, a, n>>) : a \in {b \in 0..(n - 1) : Coprime(b, n)}} : n \in 1..Pow2(w)}
                  : w \in 1..W }
Others == UNION { {Gate(nm, <<h, h>>) : nm \in {"AddQ", "AddQdag", "SubQ", "SubQdag"}}
                  \cup {Gate(nm, <<h, h, c>>) : nm \in {"AddQc", "AddQcdag"}, c \in {1, 2}}
                  \cup {Gate("Cmp", <<h, h, 1>>)}
                  \cup {Gate(nm, <<h, h, h>>) : nm \in {"Div", "Divdag"}}
                  \cup {Gate(nm, <<h, h, 2 * h + 1>>) : nm \in {"Mul", "Muldag"}}
                  : h \in 1..H }

(* a second carry qubit is a work qubit and has to be 0 *)
Inputs(gt) == {x \in 0..(Pow2(MathArity(gt)) - 1) :
                 MathPre(gt, RegVals(gt, x)) /\ (gt.n \in {"AddQc", "AddQcdag"} /\ gt.p[3] = 2 => RegVals(gt, x)[3] < 2)}
Image(gt, x) == IF gt.n \in {"AddQc", "AddQcdag"} /\ gt.p[3] = 2
                THEN LET r == RegVals(gt, x) f == MathFun(gt, r) IN Pack(gt, <<f[1], f[2], f[3] % 2>>, 1)
                ELSE MathImage(gt, x)

RECURSIVE Pairs(_, _)
Pairs(gt, S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<<<x, Image(gt, x)>>>> \o Pairs(gt, S \ {x})

MInit == g \in OneReg \cup Others /\ done = FALSE
MNext == ~done /\ PrintT(ToJson([g |-> g, m |-> Pairs(g, Inputs(g)), inv |-> InvGate(g)])) /\ done' = TRUE /\ g' = g

(* ------------------------- violated preconditions ----------------------- *)
(* what the circuits have to refuse *)
BadGates ==
  UNION { {Gate(nm, <<w, a, n>>) : nm \in {"AddCModN", "SubCModN"}, a \in {0 - 1, 0 - n, n + 1, n + 5}}
          \cup {Gate("MulCModN", <<w, a, n>>) : a \in {b \in 0..n : ~Coprime(b, n) /\ (b # 0 \/ n > 1)} \cup {0 - 1, n + 1, n + 2}} : w \in 2..W, n \in 2..Pow2(W - 1) }
  \cup {x \in UNION { {Gate(nm, <<i, j>>) : nm \in {"AddQ", "AddQdag", "SubQ", "SubQdag"}}
                      \cup {Gate(nm, <<i, j, k>>) : nm \in {"AddQc", "AddQcdag", "Cmp", "Div", "Divdag", "Mul", "Muldag"}} : i \in 1..3, j \in 1..3, k \in 1..4 } :
           CASE x.n \in {"AddQ", "AddQdag", "SubQ", "SubQdag"} -> x.p[1] # x.p[2]
             [] x.n \in {"AddQc", "AddQcdag"} -> x.p[1] # x.p[2] \/ x.p[3] > 2
             [] x.n = "Cmp" -> x.p[1] # x.p[2] \/ x.p[3] > 1
             [] x.n \in {"Div", "Divdag"} -> ~(x.p[1] = x.p[2] /\ x.p[1] = x.p[3])
             [] x.n \in {"Mul", "Muldag"} -> x.p[1] # x.p[2] \/ x.p[3] # 2 * x.p[1] + 1}
RInit == g \in BadGates /\ done = FALSE
RNext == ~done /\ PrintT(ToJson([g |-> g])) /\ done' = TRUE /\ g' = g

Injective == \A x, y \in Inputs(g) : Image(g, x) = Image(g, y) => x = y
(* the inverse is defined on every result and leads back *)
InverseBack == LET h == InvGate(g) IN \A x \in Inputs(g) : MathPre(h, RegVals(h, Image(g, x))) /\ Image(h, Image(g, x)) = x
==============================================================================
