------------------------------- MODULE MCXes -------------------------------
(* Builds every small log key by key, writes it, reads the document element  *)
(* by element, and once more with the elements in another order.             *)
EXTENDS Xes, TLC, Json
CONSTANTS NK, NT, NE, NA
VARIABLES log, phase, doc, r, left
vars == <<log, phase, doc, r, left>>
Keys == 1..NK
Vals == {<<"i", "1">>, <<"b", "1">>, <<"s", "1">>, <<"x", "0">>}
Empty == [attrs |-> {}, exts |-> {}, cls |-> {}, props |-> {}, globs |-> {}, traces |-> <<>>]
Init == log = Empty /\ phase = "build" /\ doc = [attrs |-> {}, items |-> <<>>] /\ r = Fresh /\ left = NA
T == Len(log.traces)
E(t) == Len(log.traces[t].events)
Ed == phase = "build" /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<phase, doc, r>>
AddTrace == Ed /\ T < NT /\ log' = [log EXCEPT !.traces = Append(@, [attrs |-> {}, events |-> <<>>])]
AddEvent == Ed /\ T > 0 /\ E(T) < NE /\ log' = [log EXCEPT !.traces[T].events = Append(@, {})]
\* keys are given in increasing order, so that every log is built once
Next_(d) == {k \in Keys : \A x \in d : x[1] < k}
SetTrace == Ed /\ T > 0 /\ E(T) = 0 /\ \E k \in Next_(log.traces[T].attrs), v \in Vals : log' = [log EXCEPT !.traces[T].attrs = Put(@, k, v)]
SetEvent == Ed /\ T > 0 /\ E(T) > 0 /\ \E k \in Next_(log.traces[T].events[E(T)]), v \in Vals :
                log' = [log EXCEPT !.traces[T].events[E(T)] = Put(@, k, v)]
SetProp == Ed /\ T = 0 /\ log.globs = {} /\ \E k \in Next_(log.props), v \in Vals : log' = [log EXCEPT !.props = Put(@, k, v)]
SetGlob == Ed /\ T = 0 /\ \E s \in {"trace", "event"}, v \in Vals : \E k \in Next_(Scope(log.globs, s)) :
                log' = [log EXCEPT !.globs = Put(@, s, Put(Scope(@, s), k, v))]
DoWrite == phase = "build" /\ phase' = "read" /\ doc' = Write(log) /\ UNCHANGED <<log, r, left>>
DoRead == phase = "read" /\ ~r.fin /\ r' = ReadStep(doc, r) /\ UNCHANGED <<log, phase, doc, left>>
Done == phase = "read" /\ r.fin /\ phase' = "done" /\ UNCHANGED <<log, doc, r, left>>
Next == AddTrace \/ AddEvent \/ SetTrace \/ SetEvent \/ SetProp \/ SetGlob \/ DoWrite \/ DoRead \/ Done

Fin == phase = "done"
RoundTrip == Fin => LogOf(r) = Normal(log)
Again == Fin => Normal(Normal(log)) = Normal(log) /\ Read(Write(Normal(log))) = Normal(log)
\* the traces may come before the defaults
OrderFree == Fin => Read([doc EXCEPT !.items = SelectSeq(@, LAMBDA e : e.k = "trace") \o SelectSeq(@, LAMBDA e : e.k # "trace")]) = Normal(log)
WellFormed == phase = "read" => IsDict(r.props) /\ IsDict(r.globs) /\ \A i \in DOMAIN r.traces :
                 IsDict(r.traces[i].attrs) /\ \A j \in DOMAIN r.traces[i].events : IsDict(r.traces[i].events[j])
\* nothing representable is lost and no explicit value is replaced
Wins == Fin => \A i \in DOMAIN log.traces :
    /\ Rep(log.traces[i].attrs) \subseteq r.traces[i].attrs
    /\ \A j \in DOMAIN log.traces[i].events : Rep(log.traces[i].events[j]) \subseteq r.traces[i].events[j]
Emit == Fin => PrintT("CASE " \o ToJson([props |-> log.props, globs |-> log.globs, traces |-> log.traces]))
=============================================================================
