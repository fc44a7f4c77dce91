-------------------------------- MODULE Newton --------------------------------
(* The online Newton optimiser (wax.optim.newton).  Each leaf of the parameters   *)
(* has its own accumulated matrix: eps times the identity plus the outer products *)
(* of its gradients.  A step answers minus the learning rate times the solution of *)
(* (accumulated matrix) v = gradient, the matrix including that gradient.          *)
EXTENDS Integers, Sequences, Num

VARIABLES cfg,   \* sizes: entries of each leaf; eps; lr; sched: the rate doubles at odd steps
          A,     \* accumulated matrix of each leaf
          n,     \* steps made
          out    \* update returned, leaf after leaf
vars == <<cfg, A, n, out>>
Leaves == 1..Len(cfg.sizes)

Eye(d, e) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN e ELSE Zero]]
Outer(g) == [i \in 1..Len(g) |-> [j \in 1..Len(g) |-> Mul(g[i], g[j])]]
Plus(M, P) == [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> Add(M[i][j], P[i][j])]]
RECURSIVE Dot(_, _)
Dot(u, v) == IF u = <<>> THEN Zero ELSE Add(Mul(Head(u), Head(v)), Dot(Tail(u), Tail(v)))
Times(M, v) == [i \in 1..Len(M) |-> Dot(M[i], v)]

\* determinant by expansion along the first row, and Cramer's rule
Minor(M, j) == [i \in 1..(Len(M) - 1) |-> [k \in 1..(Len(M) - 1) |-> M[i + 1][IF k < j THEN k ELSE k + 1]]]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 1 THEN M[1][1]
          ELSE SumSeq([j \in 1..Len(M) |-> Mul(Mul(I(IF j % 2 = 1 THEN 1 ELSE -1), M[1][j]), Det(Minor(M, j)))])
Column(M, j, v) == [i \in 1..Len(M) |-> [k \in 1..Len(M) |-> IF k = j THEN v[i] ELSE M[i][k]]]
Solve(M, v) == [j \in 1..Len(M) |-> Div(Det(Column(M, j, v)), Det(M))]

RECURSIVE Before(_, _)
Before(s, k) == IF k = 1 THEN 0 ELSE Before(s, k - 1) + s[k - 1]
Part(x, k) == SubSeq(x, Before(cfg.sizes, k) + 1, Before(cfg.sizes, k) + cfg.sizes[k])
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Join(Tail(s))

Rate == IF cfg.sched /\ n % 2 = 1 THEN Mul(I(2), cfg.lr) ELSE cfg.lr
Start == A = [k \in Leaves |-> Eye(cfg.sizes[k], cfg.eps)] /\ n = 0 /\ out = <<>>
Scale(a, v) == [i \in 1..Len(v) |-> Mul(a, v[i])]
Step(x) ==
  /\ A' = [k \in Leaves |-> Plus(A[k], Outer(Part(x, k)))]
  /\ out' = Join([k \in Leaves |-> Scale(IF cfg.raw THEN One ELSE Neg(Rate), Solve(A'[k], Part(x, k)))])
  /\ n' = n + 1
  /\ UNCHANGED cfg
-------------------------------------------------------------------------------
Symmetric == \A k \in Leaves : \A i, j \in 1..cfg.sizes[k] : A[k][i][j] = A[k][j][i]
Regular == \A k \in Leaves : Lt(Zero, Det(A[k]))
===============================================================================
