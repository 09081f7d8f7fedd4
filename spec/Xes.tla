-------------------------------- MODULE Xes --------------------------------
(* Event logs as XES documents: what a document says (reading machine), a    *)
(* writer, and what survives writing and reading.                            *)
(*                                                                           *)
(* value      <<type, text>>; type s i f b d, or x for anything XES has no   *)
(*            element for                                                    *)
(* dictionary set of <<key, value>>, keys unique                             *)
(* log        [attrs, exts, cls, props, globs, traces], globs a set of       *)
(*            <<scope, dictionary>>, a trace [attrs, events]                 *)
(* document   [attrs, items], items a sequence of elements                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Types == {"s", "i", "f", "b", "d"}
Representable(v) == v[1] \in Types
Rep(d) == {x \in d : Representable(x[2])}
Put(d, k, v) == {x \in d : x[1] # k} \cup {<<k, v>>}
Get(d, k) == (CHOOSE x \in d : x[1] = k)[2]
Has(d, k) == \E x \in d : x[1] = k
IsDict(d) == \A x, y \in d : x[1] = y[1] => x = y
\* explicit values win over defaults
Over(defaults, d) == {x \in defaults : ~Has(d, x[1])} \cup d
Scope(globs, s) == IF Has(globs, s) THEN Get(globs, s) ELSE {}

--------------------------------------------------------- (* reading *)
Fresh == [attrs |-> {}, exts |-> {}, cls |-> {}, props |-> {}, globs |-> {}, traces |-> <<>>, wait |-> <<>>, n |-> 0, fin |-> FALSE]
Pairs(kids, d0) == FoldLeft(LAMBDA d, x : Put(d, x[1], x[2]), d0, kids)
\* one element of the document; traces wait until all defaults are known
Element(r, e) ==
    CASE e.k = "ext" -> [r EXCEPT !.exts = Put(@, e.name, e.v)]
      [] e.k = "cls" -> [r EXCEPT !.cls = Put(@, e.name, e.v)]
      [] e.k = "val" -> [r EXCEPT !.props = Put(@, e.name, e.v)]
      [] e.k = "glob" -> [r EXCEPT !.globs = Put(@, e.name, Pairs(e.kids, Scope(@, e.name)))]
      [] e.k = "trace" -> [r EXCEPT !.wait = Append(@, e)]
TraceOf(globs, e) == [attrs |-> Over(Scope(globs, "trace"), Pairs(e.attrs, {})),
                      events |-> [i \in DOMAIN e.events |-> Over(Scope(globs, "event"), Pairs(e.events[i], {}))]]
ReadStep(doc, r) ==
    IF r.n < Len(doc.items) THEN [Element(r, doc.items[r.n + 1]) EXCEPT !.n = @ + 1]
    ELSE IF r.wait # <<>> THEN [r EXCEPT !.traces = Append(@, TraceOf(r.globs, Head(r.wait))), !.wait = Tail(@)]
    ELSE [r EXCEPT !.attrs = doc.attrs, !.fin = TRUE]
RECURSIVE ReadFrom(_, _)
ReadFrom(doc, r) == IF r.fin THEN r ELSE ReadFrom(doc, ReadStep(doc, r))
LogOf(r) == [attrs |-> r.attrs, exts |-> r.exts, cls |-> r.cls, props |-> r.props, globs |-> r.globs, traces |-> r.traces]
Read(doc) == LogOf(ReadFrom(doc, Fresh))

--------------------------------------------------------- (* writing *)
\* a writer that leaves out values equal to the default that reading will fill in
Written(defaults, d) == SetToSeq({x \in Rep(d) : ~(Has(Rep(defaults), x[1]) /\ Get(Rep(defaults), x[1]) = x[2])})
Elems(d, kind) == LET q == SetToSeq(d) IN [i \in DOMAIN q |-> [k |-> kind, name |-> q[i][1], v |-> q[i][2]]]
Write(l) ==
    [attrs |-> l.attrs,
     items |-> Elems(l.exts, "ext") \o Elems(l.cls, "cls") \o Elems(Rep(l.props), "val")
        \o (LET q == SetToSeq(l.globs) IN [i \in DOMAIN q |-> [k |-> "glob", name |-> q[i][1], kids |-> SetToSeq(Rep(q[i][2]))]])
        \o [i \in DOMAIN l.traces |-> [k |-> "trace", attrs |-> Written(Scope(l.globs, "trace"), l.traces[i].attrs),
                events |-> [j \in DOMAIN l.traces[i].events |-> Written(Scope(l.globs, "event"), l.traces[i].events[j])]]]]

------------------------------------------------- (* what has to survive *)
Normal(l) ==
    [attrs |-> l.attrs, exts |-> l.exts, cls |-> l.cls, props |-> Rep(l.props),
     globs |-> {<<g[1], Rep(g[2])>> : g \in l.globs},
     traces |-> [i \in DOMAIN l.traces |->
        [attrs |-> Over(Rep(Scope(l.globs, "trace")), Rep(l.traces[i].attrs)),
         events |-> [j \in DOMAIN l.traces[i].events |-> Over(Rep(Scope(l.globs, "event")), Rep(l.traces[i].events[j]))]]]]
=============================================================================
