----------------------------- MODULE MCLogInfo -----------------------------
(* All logs within bounds, all ignore sets of one class, both frame modes.   *)
EXTENDS LogInfo, TLC, Json
CONSTANTS NC, NT, NL, NE
VARIABLES log, mode, ign, fake, scan
LB == INSTANCE LogBuilder
vars == <<log, mode, ign, fake, scan>>

Init == LB!BuildInit /\ mode = "build" /\ ign = {} /\ fake = FALSE /\ scan = ScanStart
Build == mode = "build" /\ LB!BuildNext /\ UNCHANGED <<mode, ign, fake, scan>>
Start == /\ mode = "build" /\ mode' = "scan"
         /\ \E g \in {{}} \cup {{c} : c \in ClassesOf(log)} : ign' = g
         /\ fake' \in BOOLEAN /\ UNCHANGED <<log, scan>>
Scan == /\ mode = "scan" /\ ~ScanDone(scan, log)
        /\ scan' = ScanEvent(scan, log, ign, fake)
        /\ UNCHANGED <<log, mode, ign, fake>>
Next == Build \/ Start \/ Scan

\* the one-pass computation is exact on every log
ScanExact == (mode = "scan" /\ ScanDone(scan, log)) =>
    /\ AsCounts(scan.cnt) = CountsSpec(log, ign)
    /\ AsPairs(scan.prs) = PairsSpec(log, ign, fake)
\* flow conservation: with artificial endpoints every occurrence is entered once and left once
Flow == mode = "scan" =>
    \A c \in ClassesOf(log) \ ign :
        LET out == SumSeq([b \in 1..(NC + 1) |-> PairCount(log, ign, TRUE, c, IF b = NC + 1 THEN END ELSE b - 1)])
            inn == SumSeq([b \in 1..(NC + 1) |-> PairCount(log, ign, TRUE, IF b = NC + 1 THEN START ELSE b - 1, c)])
        IN out = ClassCount(log, ign, c) /\ inn = ClassCount(log, ign, c)
\* ignoring classes is the same as analysing the log from which they were removed
IgnoreIsRemove == mode = "scan" =>
    /\ CountsSpec(log, ign) = CountsSpec(RemoveClasses(log, ign), {})
    /\ PairsSpec(log, ign, fake) = PairsSpec(RemoveClasses(log, ign), {}, fake)
Emit == mode = "build" => PrintT("CASE " \o ToJson([log |-> log]))
=============================================================================
