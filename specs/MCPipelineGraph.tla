---------------------------- MODULE MCPipelineGraph ---------------------------
EXTENDS PipelineGraph, TLC, Json
CONSTANTS Names, Kinds, KidNames, KidKinds, MaxTop, MaxKids, Mins, Pres, Posts
Rising(f) == \A a, b \in DOMAIN f : a < b => f[a].n < f[b].n
Kids == {f \in UNION {[1..k -> [n : 1..Len(KidNames), kind : KidKinds]] : k \in 0..MaxKids} : Rising(f)}
Tops == {f \in UNION {[1..k -> [n : 1..Len(Names), kind : Kinds, kids : Kids]] : k \in 1..MaxTop} : Rising(f)}
RECURSIVE Flat(_)
Flat(f) == IF f = <<>> THEN <<>>
           ELSE LET t == Head(f) IN
                <<[path |-> <<Names[t.n]>>, kind |-> t.kind]>>
                \o [k \in 1..Len(t.kids) |-> [path |-> <<Names[t.n], KidNames[t.kids[k].n]>>, kind |-> t.kids[k].kind]]
                \o Flat(Tail(f))
Modes == {[auto |-> FALSE, min |-> 2]} \cup {[auto |-> TRUE, min |-> m] : m \in Mins}
MCInit == /\ \E f \in Tops, m \in Modes, a \in Pres, b \in Posts :
               cfg = [mods |-> Flat(f), auto |-> m.auto, min |-> m.min, pre |-> a, post |-> b]
          /\ Start
MCVisit == Visit
MCNest == \E p \in Ids \cup {None} : NestUnder(p)
MCNext == MCVisit \/ Whole \/ MCNest \/ Gather \/ AddOne \/ Finish
Spec == MCInit /\ [][MCNext]_vars
Emit == Done => PrintT("@@B " \o ToJson([c |-> cfg, v |-> View, d |-> canvas]))
===============================================================================
