---------------------------- MODULE CompressedBuffer ----------------------------
(* Compressed and hierarchical buffers (wax.flax.modules.compressed_buffer).       *)
(* A level remembers the inputs it was fed; what it answers is the summary of them *)
(* its compression documents.  The medium and long levels of a hierarchy are fed   *)
(* every 5th and every 50th input and answer their summary at every step.          *)
EXTENDS Integers, Sequences, Num

VARIABLES cfg,   \* hier, and levels: each [m, len, fill, every, alpha, qs, factor, rows, buckets]
          fed,   \* inputs fed to each level
          est,   \* quantile estimates of each level
          n,     \* inputs seen
          out    \* answers of the levels, one after the other
vars == <<cfg, fed, est, n, out>>
Lev == 1..Len(cfg.levels)

Fill(v, k) == [i \in 1..k |-> v]
Tail0(s, k) == IF Len(s) <= k THEN s ELSE SubSeq(s, Len(s) - k + 1, Len(s))
\* the last k items, oldest first, after the fill values
Window(s, k, v) == Fill(v, k - Len(Tail0(s, k))) \o Tail0(s, k)

\* ---- downsample: the 1st, (factor+1)th .. inputs
Sampled(s, f) == [i \in 1..((Len(s) + f - 1) \div f) |-> s[(i - 1) * f + 1]]
AtLeast1(k) == IF k < 1 THEN 1 ELSE k

\* ---- quantiles of the items that are not missing, by linear interpolation
Known(s) == SelectSeq(s, LAMBDA v : ~IsNaN(v))
RECURSIVE Insert(_, _)
Insert(v, s) == IF s = <<>> THEN <<v>> ELSE IF Lt(Head(s), v) THEN <<Head(s)>> \o Insert(v, Tail(s)) ELSE <<v>> \o s
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Insert(Head(s), Sort(Tail(s)))
Quantile(s, q) ==   \* s sorted
  LET i == Mul(q, I(Len(s) - 1))
      lo == i[1] \div i[2]
      w == Sub(i, I(lo))
  IN  IF w = Zero THEN s[lo + 1] ELSE Add(s[lo + 1], Mul(w, Sub(s[lo + 2], s[lo + 1])))
NewEst(l, s, old) ==
  LET k == Sort(Known(Window(s, l.len, l.fill)))
  IN  IF (Len(s) - 1) % 10 # 0 \/ k = <<>> THEN old ELSE [i \in 1..Len(l.qs) |-> Quantile(k, l.qs[i])]

\* ---- exponential mean of all the inputs
RECURSIVE Wgt(_, _)
Wgt(s, a) == IF s = <<>> THEN <<Zero, Zero>>
             ELSE LET r == Wgt(SubSeq(s, 1, Len(s) - 1), a)
                      b == Sub(One, a)
                  IN  <<Add(s[Len(s)], Mul(b, r[1])), Add(One, Mul(b, r[2]))>>
Ewma(s, a) == LET r == Wgt(s, a) IN Div(r[1], r[2])

\* ---- sketch: one count per hash and bucket, summarised by the smallest count of each bucket
HashA == <<31, 37, 41, 43>>
HashB == <<17, 23, 29, 31>>
Bucket(v, h, b) == LET k == (v[1] * 1000) \div v[2]
                       z == IF k < 0 /\ (v[1] * 1000) % v[2] # 0 THEN k + 1 ELSE k   \* towards zero
                   IN  (HashA[h] * z + HashB[h]) % b
Count(s, h, b, j) == Cardinality({i \in 1..Len(s) : Bucket(s[i], h, b) = j})
RECURSIVE MinOf(_)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Sketch(s, r, b) == [j \in 1..b |-> I(MinOf({Count(s, h, b, j - 1) : h \in 1..r}))]

Answer(l, s, e) ==
  CASE l.m = "none" -> Window(s, l.len, l.fill)
    [] l.m = "downsample" -> Window(Sampled(s, l.factor), AtLeast1(l.len \div l.factor), l.fill)
    [] l.m = "quantile" -> e
    [] l.m = "ewma" -> <<Ewma(s, l.alpha)>>
    [] l.m = "sketching" -> Sketch(s, l.rows, l.buckets)

RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Join(Tail(s))

Start == fed = [k \in Lev |-> <<>>] /\ est = [k \in Lev |-> Fill(cfg.levels[k].fill, Len(cfg.levels[k].qs))] /\ n = 0 /\ out = <<>>
Step(x) ==
  /\ fed' = [k \in Lev |-> IF n % cfg.levels[k].every = 0 THEN Append(fed[k], x[1]) ELSE fed[k]]
  /\ est' = [k \in Lev |-> IF n % cfg.levels[k].every = 0 /\ cfg.levels[k].m = "quantile" THEN NewEst(cfg.levels[k], fed'[k], est[k]) ELSE est[k]]
  /\ n' = n + 1
  /\ out' = Join([k \in Lev |-> Answer(cfg.levels[k], fed'[k], est'[k])])
  /\ UNCHANGED cfg
-------------------------------------------------------------------------------
\* memory is bounded by the configuration, whatever the number of inputs
Size(l) == CASE l.m = "none" -> l.len [] l.m = "downsample" -> AtLeast1(l.len \div l.factor) [] l.m = "quantile" -> Len(l.qs)
             [] l.m = "ewma" -> 1 [] l.m = "sketching" -> l.buckets
RECURSIVE Total(_)
Total(ls) == IF ls = <<>> THEN 0 ELSE Size(Head(ls)) + Total(Tail(ls))
BoundedOut == n > 0 => Len(out) = Total(cfg.levels)
FedOften == \A k \in Lev : Len(fed[k]) = (n + cfg.levels[k].every - 1) \div cfg.levels[k].every
Ordered == \A k \in Lev : (cfg.levels[k].m = "quantile" /\ \A i \in 1..Len(est[k]) : ~IsNaN(est[k][i])) =>
             \A i, j \in 1..Len(est[k]) : Le(cfg.levels[k].qs[i], cfg.levels[k].qs[j]) => Le(est[k][i], est[k][j])
===============================================================================
