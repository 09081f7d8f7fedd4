--------------------------- MODULE MCRequestTrees ---------------------------
(* Pipelines that are composed, requested, extended and requested again.      *)
EXTENDS Requests, Json
CONSTANTS NT, NR
VARIABLES tree, n, reqs
Some == {"UseNamesEventLog2", "FindMaximalRepeats2", "DiscoverActivities2", "DiscoverActivitiesFromPatterns2", "PrintEventLog2", "ViewPetriNet2",
         "DrawFullActivitiesDiagram2", "TracesDiversityDiagram2Canvas", "ClusterizeActivitiesFromTracesKMeans", "junk"}
Init == tree = <<>> /\ n = 0 /\ reqs = <<>>
Item(c, b, nest) == [c |-> c, a |-> IF c = "DiscoverActivitiesFromPatterns2" THEN << <<"patterns_kind", "MaximalRepeats", "PatternsKindDto">> >> ELSE <<>>, id |-> n + 1, n |-> nest, b |-> b]
Add == n < NT /\ n' = n + 1 /\ \E c \in Some : tree' = Append(tree, Item(c, <<>>, FALSE)) /\ UNCHANGED reqs
\* the same part once more
Reuse == n < NT /\ tree # <<>> /\ n' = n + 1 /\ tree' = Append(tree, tree[1]) /\ UNCHANGED reqs
Wrap == n < NT /\ n' = n + 1 /\ reqs = <<>> /\ \E c \in DOMAIN Nesting, i \in 0..Len(tree) :
            tree' = Append(SubSeq(tree, 1, i), Item(c, SubSeq(tree, i + 1, Len(tree)), TRUE)) /\ UNCHANGED reqs
Ask == Len(reqs) < NR /\ reqs' = Append(reqs, tree) /\ UNCHANGED <<tree, n>>
Next == Add \/ Reuse \/ Wrap \/ Ask
RECURSIVE Clean(_)
Clean(s) == \A i \in DOMAIN s : s[i].c # "junk" /\ Clean(s[i].b)
RECURSIVE Parts(_), Entries(_), SumOver(_, _)
SumOver(q, f) == IF q = <<>> THEN 0 ELSE f[Len(q)] + SumOver(Front(q), f)
Parts(q) == SumOver(q, [i \in DOMAIN q |-> 1 + (IF HasInner(q[i]) THEN Parts(Inner(q[i])) ELSE 0)])
Entries(r) == SumOver(r, [i \in DOMAIN r |-> 1 + (IF r[i].nested THEN Entries(r[i].sub) ELSE 0)])
Same == Clean(tree) => Understood(Request(tree)) = Meaning(tree) /\ Entries(Request(tree)) = Parts(tree)
Extends == [][(reqs # <<>> /\ Clean(tree')) => IsPrefix(Request(tree), Request(tree'))]_<<tree, n, reqs>>
Emit == ~(Len(reqs) = NR /\ n = NT) \/ PrintT("CASE " \o ToJson(reqs))
=============================================================================
