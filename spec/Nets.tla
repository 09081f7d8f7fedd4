--------------------------------- MODULE Nets ---------------------------------
(* Labelled Petri nets with silent transitions (label "") and what it means   *)
(* to replay a word: some firing sequence leads from the initial to the final *)
(* marking whose visible labels are the word.                                 *)
(* A net: n places, transitions with input and output arcs [p, w], initial    *)
(* and final marking (numbers of tokens by place).                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Weight(arcs, p) == FoldLeft(LAMBDA s, a : IF a.p = p THEN s + a.w ELSE s, 0, arcs)
Enabled(m, tr) == \A i \in DOMAIN tr.pre : m[tr.pre[i].p] >= Weight(tr.pre, tr.pre[i].p)
Fire(m, tr) == [p \in DOMAIN m |-> m[p] - Weight(tr.pre, p) + Weight(tr.post, p)]
\* markings with more tokens in a place are not followed
Cap == 4
Step(net, M, c) == {x \in UNION {{Fire(m, net.trans[i]) : m \in {y \in M : Enabled(y, net.trans[i])}} : i \in {j \in DOMAIN net.trans : net.trans[j].label = c}} :
                    \A p \in DOMAIN x : x[p] <= Cap}
RECURSIVE Silent(_, _, _)
Silent(net, M, new) == IF new = {} THEN M
                       ELSE LET s == Step(net, new, "") \ M IN Silent(net, M \cup s, s)
Closure(net, M) == Silent(net, M, M)
After(net, w) == FoldLeft(LAMBDA M, c : Closure(net, Step(net, M, c)), Closure(net, {net.im}), w)
Replays(net, w) == net.fm \in After(net, w)
Labels(net) == {net.trans[i].label : i \in DOMAIN net.trans} \ {""}
Classes(log) == UNION {ToSet(log[i]) : i \in DOMAIN log}
IsNet(net) == /\ Len(net.im) = net.n /\ Len(net.fm) = net.n
              /\ \A i \in DOMAIN net.trans : \A a \in ToSet(net.trans[i].pre) \cup ToSet(net.trans[i].post) : a.p \in 1..net.n /\ a.w > 0
-------------------------------------------------------------------------------
(* Block-structured nets: process trees [op, a, b] over leaves [op: "leaf", c] *)
Arc(p) == <<[p |-> p, w |-> 1]>>
Two(p, q) == <<[p |-> p, w |-> 1], [p |-> q, w |-> 1]>>
Tr(c, pre, post) == [label |-> c, pre |-> pre, post |-> post]
\* the block between places s and e; n places are in use
RECURSIVE Block(_, _, _, _)
Block(tree, s, e, n) ==
    CASE tree.op = "leaf" -> [n |-> n, trans |-> <<Tr(tree.c, Arc(s), Arc(e))>>]
      [] tree.op = "seq" -> LET x == Block(tree.a, s, n + 1, n + 1)
                                y == Block(tree.b, n + 1, e, x.n) IN [n |-> y.n, trans |-> x.trans \o y.trans]
      [] tree.op = "xor" -> LET x == Block(tree.a, s, e, n)
                                y == Block(tree.b, s, e, x.n) IN [n |-> y.n, trans |-> x.trans \o y.trans]
      [] tree.op = "and" -> LET x == Block(tree.a, n + 1, n + 2, n + 4)
                                y == Block(tree.b, n + 3, n + 4, x.n) IN
                            [n |-> y.n, trans |-> <<Tr("", Arc(s), Two(n + 1, n + 3)), Tr("", Two(n + 2, n + 4), Arc(e))>> \o x.trans \o y.trans]
      [] tree.op = "loop" -> LET x == Block(tree.a, n + 1, n + 2, n + 2)
                                 y == Block(tree.b, n + 2, n + 1, x.n) IN
                             [n |-> y.n, trans |-> <<Tr("", Arc(s), Arc(n + 1)), Tr("", Arc(n + 2), Arc(e))>> \o x.trans \o y.trans]
\* a choice or a loop inside must not be left through the places of the block around it, so blocks get places of their own
RECURSIVE Guarded(_)
Guarded(tree) == IF tree.op = "leaf" THEN tree
                 ELSE LET tau == [op |-> "leaf", c |-> ""]
                          a == Guarded(tree.a)
                          b == Guarded(tree.b)
                          G(x) == IF x.op \in {"xor", "loop"} THEN [op |-> "seq", a |-> tau, b |-> [op |-> "seq", a |-> x, b |-> tau]] ELSE x IN
                      [op |-> tree.op, a |-> G(a), b |-> G(b)]
NetOf(tree) == LET x == Block(Guarded(tree), 1, 2, 2) IN
               [n |-> x.n, trans |-> x.trans, im |-> [p \in 1..x.n |-> IF p = 1 THEN 1 ELSE 0], fm |-> [p \in 1..x.n |-> IF p = 2 THEN 1 ELSE 0]]
\* words of a tree up to a length
RECURSIVE Shuffles(_, _)
Shuffles(v, w) == IF v = <<>> THEN {w} ELSE IF w = <<>> THEN {v}
                  ELSE {<<v[1]>> \o x : x \in Shuffles(Tail(v), w)} \cup {<<w[1]>> \o x : x \in Shuffles(v, Tail(w))}
Short(S, l) == {w \in S : Len(w) <= l}
Cat(A, B, l) == Short({x[1] \o x[2] : x \in A \X B}, l)
RECURSIVE Star(_, _, _)
Star(A, B, l) == LET C == A \cup Cat(A, B, l) IN IF C = A THEN A ELSE Star(C, B, l)
RECURSIVE Lang(_, _)
Lang(tree, l) ==
    CASE tree.op = "leaf" -> IF tree.c = "" THEN {<<>>} ELSE Short({<<tree.c>>}, l)
      [] tree.op = "seq" -> Cat(Lang(tree.a, l), Lang(tree.b, l), l)
      [] tree.op = "xor" -> Lang(tree.a, l) \cup Lang(tree.b, l)
      [] tree.op = "and" -> Short(UNION {Shuffles(x[1], x[2]) : x \in Lang(tree.a, l) \X Lang(tree.b, l)}, l)
      [] tree.op = "loop" -> LET A == Lang(tree.a, l) IN Star(A, Cat(Lang(tree.b, l), A, l), l)
===============================================================================
