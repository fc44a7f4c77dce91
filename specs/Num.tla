-------------------------------- MODULE Num --------------------------------
(* Exact rationals with NaN and infinities, shared by the numeric streaming  *)
(* specifications.  A number is a pair <<num, den>>: den > 0 and reduced;    *)
(* <<0,0>> is NaN, <<1,0>> is +inf and <<-1,0>> is -inf (IEEE-754 rules).    *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
INSTANCE FiniteSets

NaN  == <<0, 0>>
PInf == <<1, 0>>
NInf == <<-1, 0>>
Zero == <<0, 1>>
One  == <<1, 1>>

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

IsNaN(q) == q = NaN
IsInf(q) == q[2] = 0 /\ q[1] # 0
IsFin(q) == q[2] > 0

Q(n, d) ==
  IF d = 0 THEN <<Sgn(n), 0>>
  ELSE LET g == Gcd(Abs(n), Abs(d))
           s == IF d < 0 THEN -1 ELSE 1
       IN  <<s * (n \div g), s * (d \div g)>>
I(n) == <<n, 1>>

Neg(a) == <<-a[1], a[2]>>
Add(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF IsInf(a) THEN (IF IsInf(b) /\ a # b THEN NaN ELSE a)
  ELSE IF IsInf(b) THEN b
  ELSE LET g == Gcd(a[2], b[2])
       IN  Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF IsInf(a) \/ IsInf(b)
       THEN <<Sgn(a[1]) * Sgn(b[1]), 0>>          \* inf * 0 = NaN = <<0,0>>
  ELSE LET g == Gcd(Abs(a[1]), b[2])
           h == Gcd(Abs(b[1]), a[2])
           gg == IF g = 0 THEN 1 ELSE g
           hh == IF h = 0 THEN 1 ELSE h
       IN  Q((a[1] \div gg) * (b[1] \div hh), (a[2] \div hh) * (b[2] \div gg))
Div(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF IsInf(a) THEN (IF IsInf(b) THEN NaN ELSE <<IF b[1] < 0 THEN -a[1] ELSE a[1], 0>>)
  ELSE IF IsInf(b) THEN Zero
  ELSE IF b[1] = 0 THEN <<Sgn(a[1]), 0>>           \* x/0 = +-inf, 0/0 = NaN
  ELSE Mul(a, Q(b[2], b[1]))

\* order (FALSE as soon as one operand is NaN, like IEEE comparisons)
Lt(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN FALSE
  ELSE IF IsInf(a) THEN a[1] < 0 /\ a # b
  ELSE IF IsInf(b) THEN b[1] > 0
  ELSE a[1] * b[2] < b[1] * a[2]
Le(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ (a = b \/ Lt(a, b))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), SumSeq(Tail(s)))
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN One ELSE Mul(a, Pow(a, n - 1))

MaxQ(a, b) == IF Lt(a, b) THEN b ELSE a
MinQ(a, b) == IF Lt(b, a) THEN b ELSE a
=============================================================================
