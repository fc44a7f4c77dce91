------------------------------- MODULE MCCodec -------------------------------
EXTENDS Codec, Json
CONSTANTS Kinds, L, Vals, Ops, Sels    \* Kinds: sequence of [ty, dims, m]
VARIABLE hist
Size(z) == IF z.dims = <<>> THEN 1 ELSE L * z.m
Full == [k \in 1..L |-> k]
Var(z, d) == [ty |-> z.ty, dims |-> z.dims, m |-> z.m, data |-> d]
RECURSIVE All(_)
All(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, Var(Kinds[n], d)) : s \in All(n - 1), d \in [1..Size(Kinds[n]) -> Vals]}
MCInit == /\ cfg \in {[vars |-> s] : s \in All(Len(Kinds))}
          /\ Start /\ hist = <<>>
Sel == Sels \cup {Full}
Log == hist' = Append(hist, [op |-> op'.op, sel |-> op'.sel, r |-> out'])
MCEncode == Len(hist) < Ops /\ (\E s \in Sel : Encode(s)) /\ Log
MCDecode == Len(hist) < Ops /\ (\E s \in Sel : Decode(s)) /\ Log
MCNext == MCEncode \/ MCDecode
Spec == MCInit /\ [][MCNext]_<<vars, hist>>
Emit == Len(hist) = Ops => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
