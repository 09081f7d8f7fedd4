----------------------------- MODULE MCPatterns -----------------------------
(* The scanner for loops and the closure of repeats on every small trace.    *)
EXTENDS Patterns, TLC, Json
CONSTANTS NC, NL, Bounds
VARIABLES tr, phase, bound, len, pos, visited, found, word
vars == <<tr, phase, bound, len, pos, visited, found, word>>
Fresh == Cardinality(SeqSet(tr))
Init == tr = <<>> /\ phase = "build" /\ bound = 0 /\ len = 0 /\ pos = 0 /\ visited = {} /\ found = {} /\ word = <<>>
Build == /\ phase = "build" /\ Len(tr) < NL
         /\ \E c \in 0..(NC - 1) : c <= Fresh /\ tr' = Append(tr, c)
         /\ UNCHANGED <<phase, bound, len, pos, visited, found, word>>
\* loop scanner: lengths ascending, positions ascending, every block is looked at once
StartScan == /\ phase = "build" /\ phase' = "scan" /\ bound' \in Bounds /\ len' = 2 /\ pos' = 0
             /\ UNCHANGED <<tr, visited, found, word>>
Scan == /\ phase = "scan" /\ len < bound
        /\ IF pos + len > Len(tr) THEN len' = len + 1 /\ pos' = 0 /\ UNCHANGED <<visited, found>>
           ELSE LET w == Slice(tr, pos, len) IN
                /\ pos' = pos + 1 /\ len' = len
                /\ visited' = visited \cup {w}
                /\ found' = IF w \notin visited /\ Loops(tr, pos, len) THEN found \cup {<<pos, len, MaxCopies(tr, pos, len)>>} ELSE found
        /\ UNCHANGED <<tr, phase, bound, word>>
ScanDone == phase = "scan" /\ len >= bound
\* closure of a repeat: extend while all occurrences agree
StartRepeat == phase = "build" /\ phase' = "extend" /\ word' \in Repeated(tr) /\ UNCHANGED <<tr, bound, len, pos, visited, found>>
Lefts == {LeftOf(tr, p) : p \in Occ(tr, word)}
Rights == {RightOf(tr, word, p) : p \in Occ(tr, word)}
Extend == /\ phase = "extend"
          /\ \/ Cardinality(Lefts) = 1 /\ word' = <<CHOOSE c \in Lefts : TRUE>> \o word
             \/ Cardinality(Rights) = 1 /\ word' = Append(word, CHOOSE c \in Rights : TRUE)
          /\ UNCHANGED <<tr, phase, bound, len, pos, visited, found>>
Next == Build \/ StartScan \/ Scan \/ StartRepeat \/ Extend

FoundReal == \A a \in found : Copies(tr, a[1], a[2], a[3]) /\ ~Copies(tr, a[1], a[2], a[3] + 1) /\ a[3] >= 2 /\ a[2] >= 2
ScanExact == ScanDone => found = MaximalArrays(tr, bound)
StillRepeats == phase = "extend" => Cardinality(Occ(tr, word)) >= 2
ClosureMaximal == (phase = "extend" /\ Cardinality(Lefts) > 1 /\ Cardinality(Rights) > 1) => word \in MaxRepeats(tr)
Ordering == phase = "build" =>
    /\ SuperMax(tr) \subseteq NearSuperMax(tr) /\ NearSuperMax(tr) \subseteq MaxRepeats(tr)
    /\ (Repeated(tr) # {} => SuperMax(tr) # {})
    /\ \A w \in Repeated(tr) : \E v \in SuperMax(tr) : Contains2(v, w)
Emit == phase = "build" => PrintT("CASE " \o ToJson([tr |-> tr]))
=============================================================================
