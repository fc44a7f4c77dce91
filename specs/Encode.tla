-------------------------------- MODULE Encode --------------------------------
(* Integers of 2 * H digits in base B (two's complement) encoded in two words of H   *)
(* digits each, their order, and the floor to a multiple of Day (wax.encode).        *)
(* Numbers are sequences of digits, the most significant first, so that the 64 bits  *)
(* of the code (B = 256, H = 4) stay within TLC's integers; the model checker        *)
(* enumerates all numbers of small formats, where Value gives the integer meant.     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS B, H, Day   \* Day: digits
N == 2 * H
Digits == 0..(B - 1)
VARIABLES a, b, op, res
vars == <<a, b, op, res>>
Words(x) == <<SubSeq(x, 1, H), SubSeq(x, H + 1, N)>>
Join(w) == w[1] \o w[2]
Neg(x) == x[1] >= B \div 2
\* lexicographic order of digit sequences of equal lengths
RECURSIVE LexLess(_, _, _)
LexLess(x, y, k) == IF k > Len(x) THEN FALSE ELSE IF x[k] # y[k] THEN x[k] < y[k] ELSE LexLess(x, y, k + 1)
\* order of two's complement numbers
Less(x, y) == IF Neg(x) # Neg(y) THEN Neg(x) ELSE LexLess(x, y, 1)
\* x + s y (s = 1 or -1), and multiplication by an integer, modulo B^N
RECURSIVE Carry(_, _, _, _, _)
Carry(x, y, s, k, c) == IF k = 0 THEN <<>>
                        ELSE LET z == x[k] + s * y[k] + c IN Append(Carry(x, y, s, k - 1, z \div B), z % B)
Add(x, y) == Carry(x, y, 1, N, 0)
Sub(x, y) == Carry(x, y, -1, N, 0)
RECURSIVE Scale(_, _, _, _)
Scale(x, q, k, c) == IF k = 0 THEN <<>> ELSE LET z == x[k] * q + c IN Append(Scale(x, q, k - 1, z \div B), z % B)
Times(x, q) == Scale(x, q, N, 0)
\* r is x floored to a multiple of Day: the q-th one
IsFloor(x, r, q) == /\ r = Times(Day, q) /\ ~Less(x, r)
                    /\ LET d == Sub(x, r) IN ~Neg(d) /\ Less(d, Day)
Start == a = <<>> /\ b = <<>> /\ op = "" /\ res = <<>>
Put(x) == a' = x /\ b' = a /\ op' = "put" /\ res' = <<>>
Enc == a # <<>> /\ op' = "encode" /\ res' = Words(a) /\ UNCHANGED <<a, b>>
Dec == op = "encode" /\ op' = "decode" /\ res' = Join(res) /\ UNCHANGED <<a, b>>
Cmp == a # <<>> /\ b # <<>> /\ op' = "less" /\ res' = Less(b, a) /\ UNCHANGED <<a, b>>
Flr(q, r) == a # <<>> /\ IsFloor(a, r, q) /\ op' = "floor" /\ res' = r /\ UNCHANGED <<a, b>>
-------------------------------------------------------------------------------
RECURSIVE Nat2(_, _)
Nat2(x, k) == IF k = 0 THEN 0 ELSE Nat2(x, k - 1) * B + x[k]
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE B * Pow(k - 1)
Value(x) == Nat2(x, N) - (IF Neg(x) THEN Pow(N) ELSE 0)
RoundTrip == op = "decode" => res = a
InOrder == op = "less" => (res <=> Value(b) < Value(a))
Floored == op = "floor" => /\ Value(res) % Value(Day) = 0 /\ Value(res) <= Value(a) /\ Value(a) < Value(res) + Value(Day)
Lossless == [][op' = "encode" /\ op = "encode" /\ res = res' => a = a']_vars
===============================================================================
