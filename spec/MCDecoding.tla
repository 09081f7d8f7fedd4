----------------------------- MODULE MCDecoding -------------------------------
EXTENDS Decoding, Json, TLC
CONSTANTS NP, NT, NA, NN, NE, NB, NS
VARIABLES k, net, ann, g, log, scale
vars == <<k, net, ann, g, log, scale>>
rest(v) == /\ (v = "net" \/ UNCHANGED <<net, ann>>) /\ (v = "graph" \/ UNCHANGED g) /\ (v = "log" \/ UNCHANGED <<log, scale>>) /\ UNCHANGED k
Init == /\ k \in {"net", "graph", "log"} /\ net = EmptyNet /\ ann = <<>> /\ g = EmptyGraph /\ log = <<>>
        /\ scale \in IF k = "log" THEN {<<2, 2>>, <<4, 6>>, <<3, 2>>} ELSE {<<2, 2>>}
AddPlace == /\ k = "net" /\ Len(net.places) < NP /\ net.trans = <<>> /\ net.im = NoMark
            /\ net' = [net EXCEPT !.places = Append(@, [id |-> Fresh(net), name |-> Len(@)])]
            /\ UNCHANGED ann
AddTransition == /\ k = "net" /\ Len(net.trans) < NT /\ net.im = NoMark /\ ann = <<>>
                 /\ \E d \in 0..1 : net' = [net EXCEPT !.trans = Append(@, [id |-> Fresh(net), data |-> d, inc |-> <<>>, out |-> <<>>])]
                 /\ UNCHANGED ann
\* arcs belong to the transition that was added last
AddArc == /\ k = "net" /\ net.trans # <<>> /\ Len(NetArcs(net)) < NA /\ net.im = NoMark /\ net.fm = NoMark /\ ann = <<>>
          /\ LET i == Len(net.trans)
                 a(p) == [id |-> Fresh(net), place |-> p, tok |-> 1 + (Len(NetArcs(net)) % 3)] IN
             \E p \in PlaceIds(net) : \/ net.trans[i].out = <<>> /\ net' = [net EXCEPT !.trans[i].inc = Append(@, a(p))]
                                      \/ net' = [net EXCEPT !.trans[i].out = Append(@, a(p))]
          /\ UNCHANGED ann
Marking == {[has |-> TRUE, ms |-> s] : s \in {<<>>} \cup {<<[place |-> p, tok |-> 1 + (p % 2)]>> : p \in PlaceIds(net)}
                                            \cup {<<[place |-> p, tok |-> 1], [place |-> q, tok |-> 2]>> : p, q \in PlaceIds(net)}}
Mark == /\ k = "net" /\ ann = <<>> /\ net.fm = NoMark
        /\ \/ net.im = NoMark /\ \E m \in Marking : net' = [net EXCEPT !.im = m]
           \/ \E m \in Marking : net' = [net EXCEPT !.fm = m]
        /\ UNCHANGED ann
Annotate == /\ k = "net" /\ ann = <<>>
            /\ \E S \in SUBSET (ToSet(IdsOf(NetArcs(net))) \cup ToSet(IdsOf(net.trans))) :
                  S # {} /\ ann' = [i \in 1..Cardinality(S) |-> [ent |-> SetToSortSeq(S, >)[i], val |-> i]]
            /\ UNCHANGED net
AddNode == /\ k = "graph" /\ Len(g.nodes) < NN /\ g.edges = <<>>
           /\ \E d \in 0..1 : g' = [g EXCEPT !.nodes = Append(@, [id |-> Len(@) + 1, data |-> d])]
AddEdge == /\ k = "graph" /\ Len(g.edges) < NE /\ g.nodes # <<>>
           /\ \E a, b \in DOMAIN g.nodes, d \in 0..1 : g' = [g EXCEPT !.edges = Append(@, [from |-> a, to |-> b, data |-> d])]
AddTrace == k = "log" /\ Len(log) < NS /\ log' = Append(log, <<>>) /\ UNCHANGED scale
AddBlock == /\ k = "log" /\ log # <<>> /\ Len(Flat(log)) < NB
            /\ \E n \in 1..2, l \in 1..2 : log' = [log EXCEPT ![Len(log)] = Append(@, [c |-> n, start |-> Width(@), len |-> l, name |-> n])]
            /\ UNCHANGED scale
Next == \/ (AddPlace \/ AddTransition \/ AddArc \/ Mark \/ Annotate) /\ rest("net")
        \/ (AddNode \/ AddEdge) /\ rest("graph")
        \/ (AddTrace \/ AddBlock) /\ rest("log")
-------------------------------------------------------------------------------
Good == GoodNet(net)
\* one vertex per element, one edge per arc
Complete == /\ Len(NetVertices(net, TRUE)) = Len(net.places) + Len(net.trans)
            /\ Len(NetEdges(net, ann)) = Len(NetArcs(net))
            /\ Len(GraphVertices(g)) = Len(g.nodes) /\ Len(GraphEdges(g)) = Len(g.edges)
\* the picture shows the net: its arcs and marked places can be read off it
Faithful == LET vs == ToSet(NetVertices(net, TRUE)) es == NetEdges(net, ann) IN
    /\ {v.id : v \in {x \in vs : x.kind = "place"}} = PlaceIds(net)
    /\ {v.id : v \in {x \in vs : x.mark \in {"initial", "both"}}} = MarkedBy(net.im)
    /\ {v.id : v \in {x \in vs : x.mark \in {"final", "both"}}} = MarkedBy(net.fm)
    /\ SameBag([i \in DOMAIN es |-> <<es[i].from, es[i].to>>],
               Flat([i \in DOMAIN net.trans |-> [j \in DOMAIN net.trans[i].inc |-> <<net.trans[i].inc[j].place, net.trans[i].id>>]
                                                \o [j \in DOMAIN net.trans[i].out |-> <<net.trans[i].id, net.trans[i].out[j].place>>]]))
    /\ \A i \in DOMAIN ann : Cardinality({j \in DOMAIN es : es[j].label = ann[i].val}) = (IF ann[i].ent \in ToSet(IdsOf(NetArcs(net))) THEN 1 ELSE 0)
\* blocks are adjacent, rows do not overlap and have the length of the trace
Tiled == \A i \in DOMAIN log : LET r(j) == Tile(log, i, j, scale[1], scale[2]) IN
    /\ log[i] # <<>> => r(1).x = 0 /\ r(Len(log[i])).x + r(Len(log[i])).w = Width(log[i]) * scale[1]
    /\ \A j \in DOMAIN log[i] : r(j).y = (i - 1) * scale[2] /\ (j > 1 => r(j).x = r(j - 1).x + r(j - 1).w)
Legended == Coherent(log) => Cardinality(LegendOf(log)) = Cardinality({b.name : b \in ToSet(Flat(log))})
Grows == [][/\ Len(net'.places) >= Len(net.places) /\ \A e \in ToSet(NetEdges(net, <<>>)) : Count(NetEdges(net', <<>>), e) >= Count(NetEdges(net, <<>>), e)
            /\ \A x \in ToSet(Tiles(log, scale[1], scale[2])) : x \in ToSet(Tiles(log', scale[1], scale[2]))]_vars
Emit == PrintT("CASE " \o ToJson([k |-> k, net |-> net, ann |-> ann, g |-> g, log |-> log, scale |-> scale]))
=============================================================================
