-------------------------- MODULE MCCompressedBuffer --------------------------
EXTENDS CompressedBuffer, TLC, Json
CONSTANTS T, Configs, Gap
VARIABLES hist, pat
Base == <<I(3), I(-1), Zero, I(2), I(5), I(-4), I(1)>>
Missing == \A k \in Lev : cfg.levels[k].m \in {"none", "downsample", "quantile"}
N == Len(hist)
Inputs == IF N % Gap = 1
          THEN {Q(5, 2), I(-2)} \cup (IF Missing THEN {NaN} ELSE {})
          ELSE {Base[((N * pat) % 7) + 1]}
MCInit == cfg \in Configs /\ Start /\ hist = <<>> /\ pat \in 1..3
MCStep == /\ N < T /\ \E v \in Inputs : Step(<<v>>) /\ hist' = Append(hist, [x |-> <<v>>, y |-> out'])
          /\ UNCHANGED pat
Spec == MCInit /\ [][MCStep]_<<vars, hist, pat>>
\* a summary is a function of the inputs its level saw, each of them once
SumQ(s) == SumSeq(s)
SketchTotal == \A k \in Lev : cfg.levels[k].m = "sketching" =>
                 \A h \in 1..cfg.levels[k].rows : Len(fed[k]) = SumSeq([j \in 1..cfg.levels[k].buckets |-> I(Count(fed[k], h, cfg.levels[k].buckets, j - 1))])[1]
NoMiss == \A k \in Lev : cfg.levels[k].m = "downsample" => \A i \in 1..Len(fed[k]) :
            ((i - 1) % cfg.levels[k].factor = 0 /\ i > Len(fed[k]) - cfg.levels[k].factor) => Answer(cfg.levels[k], fed[k], <<>>)[Size(cfg.levels[k])] = fed[k][i]
Emit == N = T => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
