------------------------------- MODULE Topology -------------------------------
(* Which locations of a device are connected. *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN 0 - x ELSE x
Connected(topo, a, b) ==
  CASE topo.k = "none" -> TRUE
    [] topo.k = "line" -> Abs(a - b) = 1
    [] topo.k = "ring" -> Abs(a - b) = 1 \/ Abs(a - b) = topo.n - 1
    [] topo.k = "grid" -> \/ Abs(a - b) = 1 /\ a \div topo.cols = b \div topo.cols
                          \/ Abs(a - b) = topo.cols
    \* a grid whose locations have other names: ids[i + 1] is the name of location i in row-major order
    [] topo.k = "named" -> LET at(q) == CHOOSE j \in 0..(topo.n - 1) : topo.ids[j + 1] = q
                               x == at(a)  y == at(b)
                           IN \/ Abs(x - y) = 1 /\ x \div topo.cols = y \div topo.cols
                              \/ Abs(x - y) = topo.cols
    [] topo.k = "edges" -> \E j \in 1..Len(topo.e) : {topo.e[j][1], topo.e[j][2]} = {a, b}
    \* directed: a is the control
    [] topo.k = "arrows" -> \E j \in 1..Len(topo.e) : topo.e[j] = <<a, b>>
Located(topo, q) == CASE topo.k = "none" -> TRUE
                      [] topo.k = "named" -> \E j \in 1..topo.n : topo.ids[j] = q
                      [] OTHER -> q \in 0..(topo.n - 1)
=============================================================================
