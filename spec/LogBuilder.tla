----------------------------- MODULE LogBuilder -----------------------------
(* The environment: every event log within bounds is built event by event.   *)
(* A log is canonical when classes first occur in increasing order, which    *)
(* enumerates logs up to renaming of classes.                                *)
EXTENDS Logs, TLC, Json
CONSTANTS NC,        \* number of classes
          NT,        \* number of traces
          NL,        \* length of a trace
          NE         \* events in the log
VARIABLE log

NextFresh == Cardinality(ClassesOf(log))
Usable == {c \in 0..(NC - 1) : c <= NextFresh}

AddTrace == /\ Len(log) < NT
            /\ log' = Append(log, <<>>)
AddEvent == /\ log # <<>>
            /\ Len(log[Len(log)]) < NL
            /\ EventsCount(log) < NE
            /\ \E c \in Usable : log' = [log EXCEPT ![Len(log)] = Append(@, c)]

BuildInit == log = <<>>
BuildNext == AddTrace \/ AddEvent
Emit == PrintT("CASE " \o ToJson([log |-> log]))
=============================================================================
