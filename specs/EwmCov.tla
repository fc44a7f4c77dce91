-------------------------------- MODULE EwmCov --------------------------------
(* EWMVar (kind "var": one input) and EWMCov (kind "cov": the vector (u, v) with *)
(* the vector (p); two cells).  EWMVar keeps Finch's recursion; EWMCov keeps     *)
(* three exponentially weighted means per cell.                                  *)
EXTENDS EwmOps
VARIABLES cfg, fin, mx, my, mxy, out, seen
vars == <<cfg, fin, mx, my, mxy, out, seen>>
Start(c) == /\ fin = [mean |-> NaN, var |-> NaN, nobs |-> 0]
            /\ mx = [i \in 1..2 |-> EwStart(c)] /\ mxy = [i \in 1..2 |-> EwStart(c)] /\ my = EwStart(c)
            /\ out = <<>> /\ seen = <<>>
\* gain of the n-th value
Gain(c, n) == CASE c.adjust = "false" -> c.alpha
                [] c.adjust = "linear" -> Div(One, MinQ(I(n), Div(One, c.alpha)))
                [] OTHER -> Div(c.alpha, Sub(One, Pow(Beta(c), n)))
VarStep(x) ==
  /\ cfg.kind = "var"
  /\ LET m0 == IF IsNaN(fin.mean) THEN x ELSE fin.mean
         v0 == IF IsNaN(fin.var) THEN Zero ELSE fin.var
         g  == Gain(cfg, fin.nobs + 1)
         d  == Sub(x, m0)
         i  == Mul(g, d)
     IN  fin' = IF IsNaN(x) THEN [mean |-> m0, var |-> v0, nobs |-> fin.nobs]
                ELSE [mean |-> Add(m0, i), var |-> Mul(Sub(One, g), Add(v0, Mul(d, i))), nobs |-> fin.nobs + 1]
  /\ out' = <<fin'.var>> /\ seen' = Append(seen, <<x>>)
  /\ UNCHANGED <<cfg, mx, my, mxy>>
Cell(i, sxy, sx, sy) == IF cfg.centered THEN EwOut(cfg, sxy[i])
                        ELSE Sub(EwOut(cfg, sxy[i]), Mul(EwOut(cfg, sx[i]), EwOut(cfg, sy)))
CovStep(u, v, p) ==
  /\ cfg.kind = "cov"
  /\ mxy' = <<EwStep(cfg, mxy[1], Mul(u, p)), EwStep(cfg, mxy[2], Mul(v, p))>>
  /\ mx' = <<EwStep(cfg, mx[1], u), EwStep(cfg, mx[2], v)>>
  /\ my' = EwStep(cfg, my, p)
  /\ out' = <<Cell(1, mxy', mx', my'), Cell(2, mxy', mx', my')>>
  /\ seen' = Append(seen, <<u, v, p>>)
  /\ UNCHANGED <<cfg, fin>>
-------------------------------------------------------------------------------
Ch(i) == [k \in 1..Len(seen) |-> seen[k][i]]
Prod(i, j) == [k \in 1..Len(seen) |-> Mul(seen[k][i], seen[k][j])]
VarCfg == [alpha |-> cfg.alpha, adjust |-> cfg.adjust, ignore |-> TRUE, init |-> NaN, minp |-> 0]
\* variance = weighted mean of squares minus square of the weighted mean, zero before any value
VarFromHistory == (cfg.kind = "var" /\ seen # <<>>) =>
   out[1] = IF NObs(Ch(1)) = 0 THEN Zero
            ELSE LET m == EwHistory(VarCfg, Ch(1)) IN Sub(EwHistory(VarCfg, Prod(1, 1)), Mul(m, m))
VarPositive == (cfg.kind = "var" /\ seen # <<>>) => Le(Zero, out[1])
\* covariance of two inputs missing together = weighted mean of the products of the deviations
Jointly(i) == \A k \in 1..Len(seen) : IsNaN(seen[k][i]) <=> IsNaN(seen[k][3])
CovFromHistory == (cfg.kind = "cov" /\ seen # <<>> /\ ~cfg.centered /\ IsNaN(cfg.init)) => \A i \in 1..2 :
   (Jointly(i) /\ EwDefined(cfg, Ch(i)) /\ NObs(Ch(i)) >= 1) =>
     LET c0 == [cfg EXCEPT !.minp = 0]
         a == EwHistory(c0, Ch(i))
         b == EwHistory(c0, Ch(3))
         dev == [k \in 1..Len(seen) |-> Mul(Sub(seen[k][i], a), Sub(seen[k][3], b))]
     IN out[i] = IF NObs(Ch(i)) >= cfg.minp THEN EwHistory(c0, dev) ELSE NaN
\* cells are independent of each other and equal for equal columns
CellsIndependent == (cfg.kind = "cov" /\ seen # <<>> /\ Ch(1) = Ch(2)) => out[1] = out[2]
===============================================================================
