------------------------------- MODULE MCEncode -------------------------------
EXTENDS Encode, Json
CONSTANTS Inputs, Q       \* the numbers put, the multiples of Day considered
VARIABLE hist
All == [1..N -> Digits]
MCInit == Start /\ hist = <<>>
Tell == hist' = Append(hist, [op |-> op', a |-> a', b |-> b', r |-> res'])
MCPut == Len(hist) < 2 /\ \E x \in Inputs : Put(x) /\ Tell
MCEnc == hist # <<>> /\ op = "put" /\ b = <<>> /\ Enc /\ Tell
MCDec == Dec /\ Tell
MCCmp == op = "put" /\ Cmp /\ Tell
MCFlr == op = "put" /\ b = <<>> /\ (\E q \in Q : Flr(q, Times(Day, q))) /\ Tell
MCNext == MCPut \/ MCEnc \/ MCDec \/ MCCmp \/ MCFlr
Spec == MCInit /\ [][MCNext]_<<vars, hist>>
\* every number has a floor, unless it is out of range
HasFloor == (op = "put" /\ b = <<>>) => \/ Value(a) < -Pow(N) \div 2 + Value(Day)
                                        \/ \E q \in Q : IsFloor(a, Times(Day, q), q)
Emit == op \in {"decode", "less", "floor"} => PrintT("@@B " \o ToJson([op |-> op, a |-> a, b |-> b, r |-> res, w |-> IF a = <<>> THEN a ELSE Words(a)]))
Emit1 == Emit /\ Len(SelectSeq(hist, LAMBDA z : z.op = "put")) < 2
===============================================================================
