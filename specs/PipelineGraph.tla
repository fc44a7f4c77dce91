---------------------------- MODULE PipelineGraph ----------------------------
(* The graph of a pipeline (ComputationGraphRenderer) and its nested view       *)
(* (HierarchicalGraphAnalyzer).                                                 *)
(*                                                                              *)
(* A pipeline is the sequence of its modules, depth first: each has the path    *)
(* of its names and a kind ("none": it holds no parameters of its own).  A name *)
(* is a sequence of characters groups, so that "L_1" is no prefix of "L_10".    *)
(* The identifier of a node is its path, joined with dots.                      *)
(*   walk    one action per module: the modules with parameters become nodes,   *)
(*           linked to the module that holds them when it is a node             *)
(*   nest    one action per node: the node goes under a module its name extends *)
(*   gather  the roots of a kind go under a cluster when they are numerous      *)
(*   draw    nodes and edges added by the user                                  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cfg, phase, i, nodes, edges, par, clus, canvas
vars == <<cfg, phase, i, nodes, edges, par, clus, canvas>>

None == <<>>
Main == [id |-> <<"main">>, kind |-> "function"]
Type(kind) == IF kind = "dense" THEN "unknown" ELSE kind

RECURSIVE Id(_)
Id(path) == IF Len(path) = 1 THEN path[1] ELSE Id(SubSeq(path, 1, Len(path) - 1)) \o <<".">> \o path[Len(path)]

Range(s) == {s[k] : k \in 1..Len(s)}
Ids == {n.id : n \in Range(nodes)}
Extends(a, b) == Len(a) > Len(b) /\ SubSeq(a, 1, Len(b)) = b    \* a = b followed by something

-------------------------------------------------------------------------------
(* the canvas: a node put again replaces the former, in its place                *)
Put(c, n) == IF \E k \in 1..Len(c.nodes) : c.nodes[k].id = n.id
             THEN [c EXCEPT !.nodes = [k \in 1..Len(c.nodes) |-> IF c.nodes[k].id = n.id THEN n ELSE c.nodes[k]]]
             ELSE [c EXCEPT !.nodes = Append(@, n)]
Link(c, e) == [c EXCEPT !.edges = Append(@, e)]
Draw(c, o) == IF o.op = "node" THEN Put(c, [id |-> o.a, kind |-> o.b[1]]) ELSE Link(c, <<o.a, o.b>>)
RECURSIVE DrawAll(_, _)
DrawAll(c, ops) == IF ops = <<>> THEN c ELSE DrawAll(Draw(c, Head(ops)), Tail(ops))

Start == /\ phase = "walk" /\ i = 0 /\ nodes = <<>> /\ edges = <<>> /\ par = <<>> /\ clus = {}
         /\ canvas = DrawAll([nodes |-> <<>>, edges |-> <<>>], cfg.pre)

Visit ==
  /\ phase = "walk" /\ i < Len(cfg.mods) /\ i' = i + 1
  /\ LET m == cfg.mods[i + 1]
         n == [id |-> Id(m.path), kind |-> m.kind]
         up == IF Len(m.path) = 1 THEN None ELSE Id(SubSeq(m.path, 1, Len(m.path) - 1))
         e == IF up \in Ids THEN <<<<up, n.id>>>> ELSE <<>>
     IN  IF m.kind = "none" THEN UNCHANGED <<nodes, edges, canvas>>
         ELSE /\ nodes' = Append(nodes, n)
              /\ edges' = edges \o e
              /\ canvas' = LET c == Put(canvas, n) IN [c EXCEPT !.edges = @ \o e]
  /\ UNCHANGED <<cfg, phase, par, clus>>

Whole == \* the function itself
  /\ phase = "walk" /\ i = Len(cfg.mods)
  /\ nodes' = Append(nodes, Main) /\ canvas' = Put(canvas, Main)
  /\ phase' = "nest" /\ i' = 0
  /\ UNCHANGED <<cfg, edges, par, clus>>

\* where a node may go: under the module that holds it, else under a container it extends
Dots(id) == {k \in 1..Len(id) : id[k] = "."}
LastDot(id) == CHOOSE k \in Dots(id) : \A j \in Dots(id) : j <= k
Candidates(id) ==
  IF Dots(id) # {} /\ SubSeq(id, 1, LastDot(id) - 1) \in Ids
  THEN {SubSeq(id, 1, LastDot(id) - 1)}
  ELSE {n.id : n \in {z \in Range(nodes) : z.kind = "module" /\ Extends(id, z.id) /\ id[Len(z.id) + 1] \in {"_", "."}}}

NestUnder(p) ==
  /\ phase = "nest" /\ i < Len(nodes) /\ i' = i + 1
  /\ LET C == Candidates(nodes[i + 1].id) IN IF C = {} THEN p = None ELSE p \in C
  /\ par' = Append(par, p)
  /\ UNCHANGED <<cfg, phase, nodes, edges, clus, canvas>>

Roots(t) == {k \in 1..Len(nodes) : par[k] = None /\ Type(nodes[k].kind) = t}
Gather ==
  /\ phase = "nest" /\ i = Len(nodes)
  /\ clus' = IF cfg.auto THEN {t \in {Type(n.kind) : n \in Range(nodes)} : Cardinality(Roots(t)) >= cfg.min /\ Roots(t) # {}} ELSE {}
  /\ phase' = "draw" /\ i' = 0
  /\ UNCHANGED <<cfg, nodes, edges, par, canvas>>

AddOne ==
  /\ phase = "draw" /\ i < Len(cfg.post) /\ i' = i + 1
  /\ canvas' = Draw(canvas, cfg.post[i + 1])
  /\ UNCHANGED <<cfg, phase, nodes, edges, par, clus>>
Finish == phase = "draw" /\ i = Len(cfg.post) /\ phase' = "done" /\ UNCHANGED <<cfg, i, nodes, edges, par, clus, canvas>>

-------------------------------------------------------------------------------
Index(id) == CHOOSE k \in 1..Len(nodes) : nodes[k].id = id
RECURSIVE Level(_)
Level(k) == IF par[k] = None THEN (IF Type(nodes[k].kind) \in clus THEN 1 ELSE 0) ELSE 1 + Level(Index(par[k]))
View == [nodes |-> {[id |-> nodes[k].id, type |-> Type(nodes[k].kind), par |-> par[k], lev |-> Level(k)] : k \in 1..Len(nodes)},
         clus |-> {[type |-> t, members |-> {nodes[k].id : k \in Roots(t)}] : t \in clus},
         edges |-> edges]

Done == phase = "done"
\* each module is there once
EachOnce == Cardinality(Ids) = Len(nodes)
\* the parents make a forest: a node is strictly below what it extends
Forest == \A k \in 1..Len(par) : par[k] # None => Extends(nodes[k].id, par[k]) /\ par[k] \in Ids
\* the edges of the analysis are the nested modules
Inside == \A e \in Range(edges) : Extends(e[2], e[1]) /\ {e[1], e[2]} \subseteq Ids
Followed == Done => \A e \in Range(edges) : par[Index(e[2])] = e[1]
\* a cluster takes all the roots of its kind
Whole1 == Done => \A a, b \in 1..Len(nodes) :
            (par[a] = None /\ par[b] = None /\ nodes[a].kind = nodes[b].kind) => Level(a) = Level(b)
\* nothing that was drawn is lost
Kept == /\ \A o \in Range(cfg.pre) : o.op = "node" => \E n \in Range(canvas.nodes) : n.id = o.a
        /\ Len(canvas.edges) >= Len(edges)
        /\ Cardinality({n.id : n \in Range(canvas.nodes)}) = Len(canvas.nodes)
===============================================================================
