------------------------------- MODULE Edits -------------------------------
(* Filters and in-place edits of a log.  An event is <<id, c, l, n>>: its    *)
(* identity, class, lifecycle attribute (0: absent) and note attribute.      *)
(* Artificial endpoints are <<0, START, 0, 0>> and <<0, END, 0, 0>>.         *)
EXTENDS Logs

START == -1
END == -2
Sel(log, P(_)) == SelectSeq([t \in DOMAIN log |-> SelectSeq(log[t], P)], LAMBDA tr : tr # <<>>)
Each(log, F(_)) == [t \in DOMAIN log |-> [i \in DOMAIN log[t] |-> F(log[t][i])]]
\* rename maps are sequences: map[c + 1] is the new class of c; endpoints keep their names
Mapped(map, c) == IF c < 0 THEN c ELSE map[c + 1]

\* predicates over events, by name
Pred(p, e) == CASE p.k = "cls" -> e[2] = p.v
                [] p.k = "idmod" -> e[1] % p.m = p.v
                [] p.k = "life" -> e[3] # 0
                [] p.k = "note" -> e[4] # 0
                [] p.k = "all" -> TRUE
                [] p.k = "none" -> FALSE

Apply(op, log) ==
    CASE op.op = "remove" -> Sel(log, LAMBDA e : e[2] # op.c)
      [] op.op = "removemany" -> Sel(log, LAMBDA e : e[2] \notin SeqSet(op.cs))
      [] op.op = "removepred" -> Sel(log, LAMBDA e : ~Pred(op.p, e))
      [] op.op = "count" -> SelectSeq(log, LAMBDA tr : Len(tr) > op.n)
      [] op.op = "rename" -> Each(log, LAMBDA e : <<e[1], Mapped(op.map, e[2]), e[3], e[4]>>)
      [] op.op = "extract" -> Each(log, LAMBDA e : IF Pred(op.p, e) THEN <<e[1], Mapped(op.map, e[2]), e[3], e[4]>> ELSE e)
      [] op.op = "edit" -> Each(log, LAMBDA e : IF Pred(op.p, e) THEN <<e[1], e[2], e[3], op.v>> ELSE e)
      [] op.op = "lifecycle" -> Each(log, LAMBDA e : <<e[1], e[2], 0, e[4]>>)
      [] op.op = "endpoints" -> [t \in DOMAIN log |-> <<<<0, START, 0, 0>>>> \o log[t] \o <<<<0, END, 0, 0>>>>]
Removal == {"remove", "removemany", "removepred", "count"}

Flat(log) == IF log = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, b : a \o b, <<>>, log)
RECURSIVE SubSeqOf(_, _)
SubSeqOf(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                  ELSE IF Head(a) = Head(b) THEN SubSeqOf(Tail(a), Tail(b)) ELSE SubSeqOf(a, Tail(b))
Matches(op, e) == CASE op.op = "remove" -> e[2] = op.c
                    [] op.op = "removemany" -> e[2] \in SeqSet(op.cs)
                    [] op.op = "removepred" -> Pred(op.p, e)
                    [] OTHER -> FALSE
=============================================================================
