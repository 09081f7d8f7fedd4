----------------------------- MODULE Hierarchy ------------------------------
(* Activities: the distinct class sets of patterns, nested by containment.   *)
EXTENDS Patterns

\* patterns: per trace a sequence of <<position, length>>; in log order
Entries(patterns) == FoldLeft(LAMBDA a, b : a \o b, <<>>,
    [t \in DOMAIN patterns |-> [i \in DOMAIN patterns[t] |-> <<t - 1, patterns[t][i][1], patterns[t][i][2]>>]])
SetOf(log, e) == SeqSet(Slice(log[e[1] + 1], e[2], e[3]))
\* one repeat set per distinct class set: its first occurrence
RepeatSets(log, patterns) ==
    LET es == Entries(patterns) IN
    SelectSeq([i \in DOMAIN es |-> <<i, es[i]>>],
              LAMBDA x : \A j \in 1..(x[1] - 1) : SetOf(log, es[j]) # SetOf(log, x[2]))

\* nodes: sequence of [set, parent]; parent 0 marks a root
Strict(a, b) == a \subseteq b /\ a # b
Above(fam, s) == {x \in fam : Strict(s, x)}
Smallest(F) == {x \in F : \A y \in F : Cardinality(x) <= Cardinality(y)}
\* the hierarchy over a family of distinct sets: parent[s] is a set or {} for a root
HierarchyOk(fam, parent) ==
    \A s \in fam : IF Above(fam, s) = {} THEN parent[s] = {} ELSE parent[s] \in Smallest(Above(fam, s))

\* all traces in one, neighbours separated by names of their own
Merged(log) == IF log = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, b : a \o b, <<>>, [t \in DOMAIN log |-> log[t] \o <<-10 - t>>])
WordsOf(kind, bound, tr) ==
    CASE kind = "maximal" -> MaxRepeats(tr)
      [] kind = "super" -> SuperMax(tr)
      [] kind = "near" -> NearSuperMax(tr)
      [] kind = "tandem_max" -> {Slice(tr, a[1], a[2]) : a \in MaximalArrays(tr, bound)}
      [] OTHER -> {Slice(tr, a[1], a[2]) : a \in PrimitiveArrays(tr, bound)}
\* the class sets found from patterns of a kind, trace by trace or in the merged log
Family(kind, bound, merged, log) ==
    IF merged THEN {SeqSet(w) : w \in WordsOf(kind, bound, Merged(log))}
    ELSE UNION {{SeqSet(w) : w \in WordsOf(kind, bound, log[t])} : t \in DOMAIN log}
=============================================================================
