----------------------------- MODULE MCEntropy -----------------------------
(* All small logs; the filter machine for every kind, threshold and set of   *)
(* protected classes.                                                        *)
EXTENDS EntropyFilter, TLC
CONSTANTS NC, NT, NL, NE
VARIABLES log, phase, cfg, cur, removed
LB == INSTANCE LogBuilder
vars == <<log, phase, cfg, cur, removed>>
Kinds == {"pos_direct", "pos_indirect", "dfg_direct", "dfg_indirect", "lap_direct", "lap_indirect"}
Cfgs == {[kind |-> k, thr |-> th, limit |-> lm, prot |-> p, top |-> <<1, 2>>] :
            k \in Kinds, th \in {0, 6000}, lm \in {1, 9}, p \in {{}, {0}}}

Init == LB!BuildInit /\ phase = "build" /\ cfg = [kind |-> "none"] /\ cur = <<>> /\ removed = <<>>
Build == phase = "build" /\ LB!BuildNext /\ UNCHANGED <<phase, cfg, cur, removed>>
Start == phase = "build" /\ phase' = "run" /\ cfg' \in Cfgs /\ cur' = log /\ UNCHANGED <<log, removed>>
RemoveClass == /\ phase = "run" /\ Len(removed) < cfg.limit
          /\ \E c \in Choice(cfg, cur).next : cur' = RemoveClasses(cur, {c}) /\ removed' = Append(removed, c)
          /\ UNCHANGED <<log, phase, cfg>>
Stop == /\ phase = "run" /\ (Len(removed) >= cfg.limit \/ Choice(cfg, cur).stop)
        /\ phase' = "done" /\ UNCHANGED <<log, cfg, cur, removed>>
Next == Build \/ Start \/ RemoveClass \/ Stop

\* no run gets stuck before it is done (every removal takes a class away, so every run ends)
NoStuck == phase = "run" => (ENABLED RemoveClass \/ ENABLED Stop)
Limits == phase \in {"run", "done"} =>
    /\ DistinctSeq(removed) /\ SeqSet(removed) \cap cfg.prot = {} /\ Len(removed) <= cfg.limit
    /\ removed # <<>> => cur = RemoveClasses(log, SeqSet(removed))
\* the entropies themselves
InRange == phase = "build" =>
    \A c \in ClassesOf(log) :
        /\ PosH(log, {}, c) \in 0..10000
        /\ NeighH(log, {}, c, FALSE) >= 0 /\ NeighH(log, {}, c, FALSE) <= 2 * L[ClassCount(log, {}, c)] + 4
        /\ NeighH(log, {}, c, TRUE) <= 2 * L[Cardinality(ClassesOf(log)) + 1] + 8
IgnoreIsRemove == phase = "build" =>
    \A g \in ClassesOf(log) : \A c \in ClassesOf(log) \ {g} :
        /\ PosH(log, {g}, c) = PosH(RemoveClasses(log, {g}), {}, c)
        /\ Close(NeighH(log, {g}, c, TRUE), NeighH(RemoveClasses(log, {g}), {}, c, TRUE), 0)
FastIsRef == phase = "build" =>
    \A g \in SUBSET ClassesOf(log) : \A t \in DOMAIN log : \A i \in DOMAIN log[t] :
        log[t][i] \notin g => FastPosition(log[t], g, i) = RefPosition(log[t], g, i)
Emit == phase = "build" => PrintT("CASE " \o ToJson([log |-> log]))
=============================================================================
