-------------------------- MODULE TracePipelineGraph --------------------------
(* events: one "parent" per node, in the order of the nodes, then "view", "canvas" *)
EXTENDS PipelineGraph, TLC, Json, IOUtils
VARIABLES tid, l, fail
T == ndJsonDeserialize(IOEnv.TRACE_FILE)
TraceInit == tid \in 1..Len(T) /\ l = 0 /\ fail = "" /\ cfg = T[tid].cfg /\ Start
Ev == T[tid].ev[l + 1]
More == l < Len(T[tid].ev) /\ fail = ""
Silent == More /\ (Visit \/ Whole \/ Gather \/ AddOne \/ Finish) /\ UNCHANGED <<tid, l, fail>>
Allowed(p) == LET C == Candidates(nodes[i + 1].id) IN IF C = {} THEN p = None ELSE p \in C
Nest == /\ More /\ phase = "nest" /\ i < Len(nodes) /\ l' = l + 1 /\ UNCHANGED tid
        /\ IF Ev.e = "parent" /\ Allowed(Ev.p)
           THEN NestUnder(Ev.p) /\ UNCHANGED fail
           ELSE fail' = "Nested" /\ UNCHANGED vars
Shown == [nodes |-> {[id |-> n.id, type |-> n.type, par |-> n.par, lev |-> n.lev] : n \in Range(Ev.nodes)},
          clus |-> {[type |-> c.type, members |-> Range(c.members)] : c \in Range(Ev.clus)},
          edges |-> Ev.edges]
Show == /\ More /\ Done /\ l' = l + 1 /\ UNCHANGED <<vars, tid>>
        /\ fail' = CASE Ev.e = "view" -> IF Shown = View /\ Len(Ev.nodes) = Len(nodes) THEN "" ELSE "Nested"
                     [] Ev.e = "canvas" -> IF [nodes |-> Ev.nodes, edges |-> Ev.edges] = canvas THEN "" ELSE "Rendered"
                     [] OTHER -> "Nested"
TraceNext == Silent \/ Nest \/ Show
Over == fail # "" \/ l = Len(T[tid].ev)
Verdict == Over => PrintT("@@V " \o ToJson([id |-> T[tid].id, n |-> l, fail |-> fail, exp |-> <<>>]))
===============================================================================
