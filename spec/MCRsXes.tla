------------------------------- MODULE MCRsXes -------------------------------
EXTENDS RsXes, TLC, Json
CONSTANTS Part, NE, NV
VARIABLE doc

Values == {<<"s", 0>>, <<"d", 0>>, <<"x", 0>>}
Leaf(key, v) == [k |-> "val", key |-> key, v |-> v, kids |-> <<>>]
Leaves == {Leaf(key, v) : key \in 1..3, v \in Values}
Few == {Leaf(1, <<"s", 0>>), Leaf(1, <<"s", 1>>), Leaf(2, <<"d", 0>>), Leaf(3, <<"i", 0>>), Leaf(3, <<"x", 0>>), Leaf(1, <<"d", 0>>)}
Nest(l) == [l EXCEPT !.kids = <<Leaf(1, <<"s", 2>>), Leaf(3, <<"i", 2>>)>>]
Vs == Few \cup {Nest(l) : l \in Few}
Events == UNION {[1..n -> Vs] : n \in 0..NE}
Globs == {[k |-> "glob", scope |-> s, vals |-> v] : s \in {"event", "trace"}, v \in UNION {[1..n -> Few] : n \in 0..NV}}
Others == {[k |-> "ext", full |-> f, id |-> 1] : f \in BOOLEAN} \cup {[k |-> "cls", full |-> f, id |-> 1, keys |-> <<1, 2>>] : f \in BOOLEAN} \cup {Leaf(1, <<"s", 0>>), Nest(Leaf(3, <<"i", 0>>)), Leaf(3, <<"x", 0>>)}
Traces == {[k |-> "trace", attrs |-> a, events |-> e] : a \in {<<>>, <<Leaf(1, <<"s", 0>>)>>, <<Nest(Leaf(1, <<"s", 0>>))>>},
            e \in {<<>>} \cup {<<x>> : x \in Events} \cup {<<x, <<Leaf(1, <<"s", 1>>), Leaf(2, <<"d", 1>>)>>>> : x \in Events}}
Small == {x \in Traces : Len(x.events) < 2}
Docs == CASE Part = "events" -> {<<g, x>> : g \in {y \in Globs : y.scope = "event"}, x \in Small} \cup {<<x>> : x \in Traces}
          [] Part = "order" -> {<<a, b, x>> : a \in Globs \cup Others, b \in Others \cup {<<>>}, x \in {y \in Small : \A i \in DOMAIN y.events : Len(y.events[i]) < 2}} \ {<<a, <<>>, x>> : a \in Globs \cup Others, x \in Small}
Init == doc \in Docs
Next == FALSE /\ UNCHANGED doc
Emit == PrintT("CASE " \o ToJson(doc))
\* reading tag by tag gives what the document says, however its tags are written
TagByTag == \A thin \in BOOLEAN : ReadTags(Tags(thin, doc)) = Meaning(doc)
\* a document that ends early gives what had come so far
Early == LET gs == Tags(FALSE, doc)
             m == Meaning(doc)
         IN \A n \in 0..Len(gs) : LET p == ReadTags(SubSeq(gs, 1, n))
               IN /\ Len(p.traces) <= Len(m.traces)
                  /\ \A i \in DOMAIN p.traces : IsPrefix(p.traces[i], m.traces[i]) /\ (i < Len(p.traces) => p.traces[i] = m.traces[i])
                  /\ p.globs \subseteq m.globs /\ IsPrefix(p.props, m.props)
\* what nests in attributes and what traces say of themselves changes nothing
Bare(vs) == [i \in DOMAIN vs |-> [vs[i] EXCEPT !.kids = <<>>]]
NestingIsOthers == Meaning(doc) = Meaning([i \in DOMAIN doc |-> CASE doc[i].k = "trace" -> [doc[i] EXCEPT !.attrs = <<>>, !.events = [j \in DOMAIN @ |-> Bare(@[j])]]
                                            [] doc[i].k = "glob" -> [doc[i] EXCEPT !.vals = Bare(@)] [] doc[i].k = "val" -> [doc[i] EXCEPT !.kids = <<>>] [] OTHER -> doc[i]])
\* written and read again, a log says what it said; the second time nothing changes any more
RoundTrip == LET l == Meaning(doc) IN Same(Meaning(Write(l)), Kept(l)) /\ Same(Kept(Kept(l)), Kept(l))
\* a log that was read loses nothing but traces without events
ReadLogsKeep == LET l == Meaning(doc) IN (\A g \in l.globs : g[2] # {}) => Kept(l).traces = SelectSeq(l.traces, LAMBDA x : x # <<>>)
=============================================================================
