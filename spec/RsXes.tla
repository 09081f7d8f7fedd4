-------------------------------- MODULE RsXes --------------------------------
(* The backend's event logs as XES documents: what a document says, the      *)
(* reader that sees one tag at a time, the writer, and Petri nets as PNML.   *)
(*                                                                           *)
(* value     <<type, n>>: s i f b d g, or x for one that cannot be read      *)
(* attribute [key, v, kids]; key 1 is the event's name, 2 its time; what is  *)
(*           nested in an attribute belongs to the attribute                 *)
(* document  sequence of [k, ...]: ext [full, id], cls [full, id, keys],     *)
(*           val [key, v, kids], glob [scope, vals], trace [attrs, events]   *)
(* log       [exts, cls, props, globs, traces], an event [name, time, data]  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

NameKey == 1
TimeKey == 2
Put(d, key, v) == {x \in d : x[1] # key} \cup {<<key, v>>}
Get(d, key) == (CHOOSE x \in d : x[1] = key)[2]
Has(d, key) == \E x \in d : x[1] = key
Readable(v) == v[1] # "x"
\* a name has to be a string, a time a date
Fits(key, v) == Readable(v) /\ (key = NameKey => v[1] = "s") /\ (key = TimeKey => v[1] = "d")
EventOf(d) == [name |-> Get(d, NameKey), time |-> Get(d, TimeKey), data |-> {x \in d : x[1] \notin {NameKey, TimeKey}}]
Complete(d) == Has(d, NameKey) /\ Has(d, TimeKey)
EventDefaults(globs) == IF Has(globs, "event") THEN {x \in Get(globs, "event") : Fits(x[1], x[2])} ELSE {}
Empty == [exts |-> <<>>, cls |-> <<>>, props |-> <<>>, globs |-> {}, traces |-> <<>>]

--------------------------------------------------- (* what a document says *)
Vals(vs, d0, ok(_, _)) == FoldLeft(LAMBDA d, x : IF ok(x.key, x.v) THEN Put(d, x.key, x.v) ELSE d, d0, vs)
AnyReadable(key, v) == Readable(v)
TraceSays(defaults, e) ==
    LET all == [i \in DOMAIN e.events |-> Vals(e.events[i], defaults, Fits)]
    IN [i \in DOMAIN SelectSeq(all, Complete) |-> EventOf(SelectSeq(all, Complete)[i])]
Says(l, e) ==
    CASE e.k = "ext" -> IF e.full THEN [l EXCEPT !.exts = Append(@, e.id)] ELSE l
      [] e.k = "cls" -> IF e.full THEN [l EXCEPT !.cls = Append(@, <<e.id, e.keys>>)] ELSE l
      [] e.k = "val" -> IF Readable(e.v) THEN [l EXCEPT !.props = Append(@, <<e.key, e.v>>)] ELSE l
      [] e.k = "glob" -> IF e.vals = <<>> THEN l ELSE [l EXCEPT !.globs = Put(@, e.scope, Vals(e.vals, {}, AnyReadable))]
      [] e.k = "trace" -> [l EXCEPT !.traces = Append(@, TraceSays(EventDefaults(l.globs), e))]
Meaning(doc) == FoldLeft(Says, Empty, doc)

----------------------------------------------------- (* one tag at a time *)
\* tag [o, tag, x]: o "open", "close" or "empty"; x what its attributes say
Fresh == [log |-> Empty, at |-> "log", deep |-> 0, cur |-> {}, some |-> FALSE, scope |-> ""]
Opens(g) == g.o = "open"
Into(r, g) == IF Opens(g) THEN 1 ELSE 0
AddEvent(r, d) == IF ~Complete(d) THEN r
                  ELSE [r EXCEPT !.log.traces = [@ EXCEPT ![Len(@)] = Append(@, EventOf(d))]]
Tag(r, g) ==
    IF r.deep > 0 THEN [r EXCEPT !.deep = CASE g.o = "open" -> @ + 1 [] g.o = "close" -> @ - 1 [] OTHER -> @]
    ELSE CASE r.at = "log" /\ g.o # "close" /\ g.tag \in {"ext", "cls", "val"} -> [r EXCEPT !.log = Says(@, g.x), !.deep = Into(r, g)]
           [] r.at = "log" /\ g.tag = "glob" /\ Opens(g) -> [r EXCEPT !.at = "glob", !.cur = {}, !.some = FALSE, !.scope = g.x.scope]
           [] r.at = "log" /\ g.tag = "trace" /\ g.o = "empty" -> [r EXCEPT !.log.traces = Append(@, <<>>)]
           [] r.at = "log" /\ g.tag = "trace" /\ Opens(g) -> [r EXCEPT !.at = "trace", !.log.traces = Append(@, <<>>)]
           [] r.at = "glob" /\ g.tag = "val" -> [r EXCEPT !.some = TRUE, !.deep = Into(r, g),
                    !.cur = IF Readable(g.x.v) THEN Put(@, g.x.key, g.x.v) ELSE @]
           [] r.at = "glob" /\ g.tag = "glob" -> [r EXCEPT !.at = "log",
                    !.log.globs = IF r.some THEN Put(@, r.scope, r.cur) ELSE @]
           [] r.at = "trace" /\ g.tag = "val" -> [r EXCEPT !.deep = Into(r, g)]
           [] r.at = "trace" /\ g.tag = "event" /\ g.o = "empty" -> AddEvent(r, EventDefaults(r.log.globs))
           [] r.at = "trace" /\ g.tag = "event" -> [r EXCEPT !.at = "event", !.cur = EventDefaults(r.log.globs)]
           [] r.at = "trace" /\ g.tag = "trace" -> [r EXCEPT !.at = "log"]
           [] r.at = "event" /\ g.tag = "val" -> [r EXCEPT !.deep = Into(r, g),
                    !.cur = IF Fits(g.x.key, g.x.v) THEN Put(@, g.x.key, g.x.v) ELSE @]
           [] r.at = "event" /\ g.tag = "event" -> [AddEvent(r, r.cur) EXCEPT !.at = "trace"]
           [] OTHER -> r
ReadTags(gs) == FoldLeft(Tag, Fresh, gs).log

\* the tags of a document; thin: what holds nothing is one empty tag
T(o, tag, x) == [o |-> o, tag |-> tag, x |-> x]
Wrap(thin, tag, x, inside) == IF inside = <<>> /\ thin THEN <<T("empty", tag, x)>> ELSE <<T("open", tag, x)>> \o inside \o <<T("close", tag, x)>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE ValTags(_, _)
ValTags(thin, x) == Wrap(thin, "val", x, Flat([i \in DOMAIN x.kids |-> ValTags(thin, x.kids[i])]))
AllVals(thin, vs) == Flat([i \in DOMAIN vs |-> ValTags(thin, vs[i])])
TagsOf(thin, e) ==
    CASE e.k \in {"ext", "cls"} -> Wrap(thin, e.k, e, <<>>)
      [] e.k = "val" -> ValTags(thin, e)
      [] e.k = "glob" -> Wrap(thin, "glob", e, AllVals(thin, e.vals))
      [] e.k = "trace" -> Wrap(thin, "trace", e, AllVals(thin, e.attrs) \o Flat([i \in DOMAIN e.events |-> Wrap(thin, "event", [k |-> "event"], AllVals(thin, e.events[i]))]))
Tags(thin, doc) == Flat([i \in DOMAIN doc |-> TagsOf(thin, doc[i])])

------------------------------------------------------------- (* writing *)
Dict(d) == LET q == SetToSortSeq(d, LAMBDA a, b : a[1] < b[1]) IN [i \in DOMAIN q |-> [k |-> "val", key |-> q[i][1], v |-> q[i][2], kids |-> <<>>]]
Write(l) ==
    [i \in DOMAIN l.exts |-> [k |-> "ext", full |-> TRUE, id |-> l.exts[i]]]
    \o [i \in DOMAIN l.cls |-> [k |-> "cls", full |-> TRUE, id |-> l.cls[i][1], keys |-> l.cls[i][2]]]
    \o (LET q == SortSeq(l.props, LAMBDA a, b : a[1] < b[1]) IN [i \in DOMAIN q |-> [k |-> "val", key |-> q[i][1], v |-> q[i][2], kids |-> <<>>]])
    \o (LET q == SetToSeq(l.globs) IN [i \in DOMAIN q |-> [k |-> "glob", scope |-> q[i][1], vals |-> Dict(q[i][2])]])
    \o (LET q == SelectSeq(l.traces, LAMBDA x : x # <<>>)
        IN [i \in DOMAIN q |-> [k |-> "trace", attrs |-> <<>>,
              events |-> [j \in DOMAIN q[i] |-> Dict({<<NameKey, q[i][j].name>>, <<TimeKey, q[i][j].time>>} \cup q[i][j].data)]]])
\* what a written log still says: defaults reach what lacks them, traces without events and empty defaults are not written
Kept(l) ==
    LET gs == {g \in l.globs : g[2] # {}}
        ds == {x \in EventDefaults(gs) : x[1] \notin {NameKey, TimeKey}}
        q == SelectSeq(l.traces, LAMBDA x : x # <<>>)
    IN [l EXCEPT !.globs = gs,
        !.traces = [i \in DOMAIN q |-> [j \in DOMAIN q[i] |-> [q[i][j] EXCEPT !.data = {x \in ds : ~Has(q[i][j].data, x[1])} \cup @]]]]
BagOf(s) == {<<x, Cardinality({i \in DOMAIN s : s[i] = x})>> : x \in ToSet(s)}
\* properties may come in another order
Same(a, b) == a.exts = b.exts /\ a.cls = b.cls /\ BagOf(a.props) = BagOf(b.props) /\ a.globs = b.globs /\ a.traces = b.traces

---------------------------------------------------------------- (* nets *)
\* net [places: names, trans: [name, data, pre, post]]; data "" for none
ArcsOf(net) == UNION {{<<"in", p, t>> : p \in ToSet(net.trans[t].pre)} \cup {<<"out", p, t>> : p \in ToSet(net.trans[t].post)} : t \in DOMAIN net.trans}
=============================================================================
