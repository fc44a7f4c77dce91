--------------------------------- MODULE Arma ---------------------------------
(* ARMA filter ("arma") and SNARIMAX feature construction ("snar": Haiku, "snarfx":*)
(* Flax).  SNARIMAX is run with a linear regressor of weights cfg.w, so that the   *)
(* prediction tells which lagged values it was given and in which order.           *)
(*   arma   input <<eps>>;        y = eps + sum alpha_i y_(t-i) + sum beta_j eps_(t-j) *)
(*   snar   input <<y, exogenous...>>; features: exogenous, the last q errors,      *)
(*          the last p targets (the present one included), oldest first             *)
(*   snarfx input <<x, y>>; features: the last p values of x, the last q values of  *)
(*          y - x (present ones included, oldest first; q = 0: y is not given), x   *)
EXTENDS Integers, Sequences, Num
VARIABLES cfg, ys, es, out, seen
vars == <<cfg, ys, es, out, seen>>
Fill(n, v) == [i \in 1..n |-> v]
Start(c) == /\ ys = Fill(c.p, IF c.kind = "snar" THEN NaN ELSE Zero)   \* oldest first
            /\ es = Fill(c.q, Zero) /\ out = <<>> /\ seen = <<>>
Push(s, v) == IF s = <<>> THEN s ELSE Append(Tail(s), v)
Clean(v) == IF v[2] = 0 THEN Zero ELSE v
RECURSIVE Dot(_, _)
Dot(a, b) == IF a = <<>> THEN Zero ELSE Add(Mul(Head(a), Head(b)), Dot(Tail(a), Tail(b)))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

Arma(x) ==
  LET y == Clean(Add(x[1], Add(Dot(cfg.alpha, Rev(ys)), Dot(cfg.beta, Rev(es)))))
  IN  out' = <<y>> /\ ys' = Push(ys, y) /\ es' = Push(es, x[1])
Snar(x) ==
  LET yp == Push(ys, x[1])
      f == Map(Clean, Tail(x) \o es \o yp)
      pred == Dot(cfg.w, f)
  IN  out' = <<pred>> /\ ys' = yp /\ es' = Push(es, Sub(x[1], pred))
SnarFx(x) ==
  LET xs == Push(ys, x[1])
      er == Push(es, Sub(x[2], x[1]))
  IN  out' = <<Clean(Dot(cfg.w, xs \o er \o <<x[1]>>))>> /\ ys' = xs /\ es' = er
Step(x) == /\ seen' = Append(seen, x) /\ UNCHANGED cfg
           /\ CASE cfg.kind = "arma" -> Arma(x) [] cfg.kind = "snar" -> Snar(x) [] OTHER -> SnarFx(x)
-------------------------------------------------------------------------------
N == Len(seen)
RECURSIVE Y(_), E(_)
\* the output of step k, from the history alone
Eps(k) == IF k < 1 THEN Zero ELSE seen[k][1]
SumTo(f, n) == SumSeq([i \in 1..n |-> f[i]])
Y(k) ==
  IF k < 1 THEN (IF cfg.kind = "snar" THEN NaN ELSE Zero)
  ELSE CASE cfg.kind = "arma" ->
              Clean(Add(Eps(k), Add(SumTo([i \in 1..cfg.p |-> Mul(cfg.alpha[i], Y(k - i))], cfg.p),
                                    SumTo([j \in 1..cfg.q |-> Mul(cfg.beta[j], Eps(k - j))], cfg.q))))
         [] cfg.kind = "snar" ->
              LET nx == Len(seen[k]) - 1 IN
              Add(SumTo([i \in 1..nx |-> Mul(cfg.w[i], Clean(seen[k][i + 1]))], nx),
              Add(SumTo([j \in 1..cfg.q |-> Mul(cfg.w[nx + j], Clean(E(k - 1 - cfg.q + j)))], cfg.q),
                  SumTo([i \in 1..cfg.p |-> Mul(cfg.w[nx + cfg.q + i], IF k - cfg.p + i < 1 THEN Zero ELSE Clean(seen[k - cfg.p + i][1]))], cfg.p)))
         [] OTHER ->
              Clean(Add(SumTo([i \in 1..cfg.p |-> Mul(cfg.w[i], Eps(k - cfg.p + i))], cfg.p),
                    Add(SumTo([j \in 1..cfg.q |-> Mul(cfg.w[cfg.p + j], E(k - cfg.q + j))], cfg.q),
                        Mul(cfg.w[cfg.p + cfg.q + 1], Eps(k)))))
E(k) == IF k < 1 THEN Zero ELSE IF cfg.kind = "snar" THEN Sub(seen[k][1], Y(k)) ELSE Sub(seen[k][2], seen[k][1])
FromHistory == N > 0 => out = <<Y(N)>>
===============================================================================
