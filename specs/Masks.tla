-------------------------------- MODULE Masks ---------------------------------
(* Masked statistics of an n x m array of items (m = 1 with vector = TRUE for a  *)
(* one-dimensional array), over the axis cfg.axis: 0, 1 or -1 for all the items. *)
(* An input is the mask (cfg.mlen flags) followed by the items, row by row.      *)
(* Standard deviations are observed squared, normalised values squared with      *)
(* their sign: the specification is then exact.                                  *)
EXTENDS Integers, Sequences, Num
VARIABLES cfg, out, seen
vars == <<cfg, out, seen>>
Start == out = <<>> /\ seen = <<>>
NM == cfg.n * cfg.m
Cells == 1..NM
Row(k) == ((k - 1) \div cfg.m) + 1
Col(k) == ((k - 1) % cfg.m) + 1
\* the mask flag that governs item k
Flag(k) == CASE cfg.mlen = NM -> k
             [] cfg.axis = 0  -> Row(k)
             [] OTHER         -> Col(k)
Sel(x, k) == x[Flag(k)] # Zero
Val(x, k) == x[cfg.mlen + k]
\* the groups over which a statistic is computed, in the order of the output
Groups == CASE cfg.axis = -1 -> <<Cells>>
            [] cfg.axis = 0  -> [c \in 1..cfg.m |-> {k \in Cells : Col(k) = c}]
            [] OTHER         -> [r \in 1..cfg.n |-> {k \in Cells : Row(k) = r}]
GroupOf(k) == CASE cfg.axis = -1 -> 1 [] cfg.axis = 0 -> Col(k) [] OTHER -> Row(k)
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN Zero ELSE LET k == CHOOSE j \in S : TRUE IN Add(f[k], Total(f, S \ {k}))
NoNaN(v) == IF IsNaN(v) THEN Zero ELSE v
Card(S) == I(Cardinality(S))
MeanOf(x, G) ==
  LET S == {k \in G : Sel(x, k)}
  IN  IF S = {} THEN NaN ELSE Div(Total([k \in S |-> NoNaN(Val(x, k))], S), Card(S))
VarOf(x, G) ==
  LET S == {k \in G : Sel(x, k)}
      m == IF cfg.centered THEN Zero ELSE MeanOf(x, G)
      Sq(k) == LET d == Sub(NoNaN(Val(x, k)), m) IN Mul(d, d)
  IN  IF S = {} THEN cfg.none ELSE Div(Total([k \in S |-> Sq(k)], S), Card(S))
\* the quotient by the deviation, replaced by zero where it is not finite
Norm(x, k) ==
  LET v == VarOf(x, Groups[GroupOf(k)]) IN
  IF IsNaN(Val(x, k)) \/ IsNaN(v) \/ v = Zero THEN Zero
  ELSE LET q == Div(Mul(Val(x, k), Val(x, k)), v) IN IF Val(x, k)[1] < 0 THEN Neg(q) ELSE q
Result(x) ==
  CASE cfg.kind = "apply" -> [k \in Cells |-> IF Sel(x, k) THEN Val(x, k) ELSE cfg.fill]
    [] cfg.kind = "mean"  -> [g \in 1..Len(Groups) |-> MeanOf(x, Groups[g])]
    [] cfg.kind = "std"   -> [g \in 1..Len(Groups) |-> VarOf(x, Groups[g])]
    [] OTHER              -> [k \in Cells |-> Norm(x, k)]
Step(x) == out' = Result(x) /\ seen' = Append(seen, x) /\ UNCHANGED cfg
-------------------------------------------------------------------------------
N == Len(seen)
Cur == seen[N]
Others(x, v) == [i \in 1..Len(x) |-> IF i > cfg.mlen /\ ~Sel(x, i - cfg.mlen) THEN v ELSE x[i]]
\* a masked-out item has no influence (on its own normalised value only)
MaskedOut == N > 0 => \A v \in {NaN, I(7)} :
  LET o == Result(Others(Cur, v)) IN
  IF cfg.kind = "norm" THEN \A k \in Cells : Sel(Cur, k) => o[k] = out[k] ELSE o = out
\* a statistic is that of the selected items alone, whatever their place
Unmasked == N > 0 /\ cfg.kind \in {"mean", "std"} =>
  \A g \in 1..Len(Groups) : LET S == {k \in Groups[g] : Sel(Cur, k)} IN
    Cardinality(S) = 1 => LET k == CHOOSE j \in S : TRUE  w == NoNaN(Val(Cur, k)) IN
       out[g] = IF cfg.kind = "mean" THEN w ELSE IF cfg.centered THEN Mul(w, w) ELSE Zero
Positive == N > 0 /\ cfg.kind = "std" => \A g \in 1..Len(out) : ~Lt(out[g], Zero)
UnitNorm == N > 0 /\ cfg.kind = "norm" /\ cfg.centered =>
  \* the centred normalised values of the selected items have mean square one (or are all zero)
  \A g \in 1..Len(Groups) : LET S == {k \in Groups[g] : Sel(Cur, k)}
                                t == Total([k \in S |-> IF Lt(out[k], Zero) THEN Neg(out[k]) ELSE out[k]], S)
                            IN  t = Zero \/ t = Card(S)
===============================================================================
