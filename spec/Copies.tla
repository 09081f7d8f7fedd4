------------------------------- MODULE Copies -------------------------------
(* Events, traces and logs as cells of a heap; shallow and deep copies,      *)
(* conversion to pm4py and back, and edits through any handle.  Content is   *)
(* what a handle shows.                                                      *)
(*   cell [k, d, s]: kind, named fields (set of <<key, value>>), elements    *)
(*   value [a, r]: an atom a, or a reference r > 0 to a cell                 *)
(* kinds: ev event, tr trace, lg log, pm pm4py log, dc dictionary, ls list   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Atom(n) == [a |-> n, r |-> 0]
Ref(i) == [a |-> 0, r |-> i]
Put(d, k, v) == {x \in d : x[1] # k} \cup {<<k, v>>}
Get(d, k) == (CHOOSE x \in d : x[1] = k)[2]
Has(d, k) == \E x \in d : x[1] = k
Cell(kind, d, s) == [k |-> kind, d |-> d, s |-> s]

RECURSIVE Content(_, _)
Content(h, v) == IF v.r = 0 THEN [a |-> v.a, k |-> "", d |-> {}, s |-> <<>>]
    ELSE LET c == h[v.r] IN [a |-> 0, k |-> c.k, d |-> {<<x[1], Content(h, x[2])>> : x \in c.d},
                             s |-> [i \in DOMAIN c.s |-> Content(h, c.s[i])]]
RECURSIVE Reach(_, _)
Reach(h, v) == IF v.r = 0 THEN {} ELSE {v.r} \cup UNION ({Reach(h, x[2]) : x \in h[v.r].d} \cup {Reach(h, h[v.r].s[i]) : i \in DOMAIN h[v.r].s})

\* <<heap, value>> with everything reachable from v cloned
RECURSIVE Deep(_, _)
Deep(h, v) ==
    IF v.r = 0 THEN <<h, v>>
    ELSE LET c == h[v.r]
             afterD == FoldLeft(LAMBDA acc, x : LET q == Deep(acc[1], x[2]) IN <<q[1], acc[2] \cup {<<x[1], q[2]>>}>>, <<h, {}>>, SetToSeq(c.d))
             afterS == FoldLeft(LAMBDA acc, x : LET q == Deep(acc[1], x) IN <<q[1], Append(acc[2], q[2])>>, <<afterD[1], <<>>>>, c.s)
         IN <<Append(afterS[1], Cell(c.k, afterD[2], afterS[2])), Ref(Len(afterS[1]) + 1)>>
\* a shallow copy has its own elements list and its own dictionaries, whose entries are those of the original
Own(h, v) == IF v.r # 0 /\ h[v.r].k = "dc" THEN <<Append(h, h[v.r]), Ref(Len(h) + 1)>> ELSE <<h, v>>
Shallow(h, v) ==
    LET c == h[v.r] IN
    IF c.k = "ev" THEN <<Append(h, c), Ref(Len(h) + 1)>>
    ELSE LET q == FoldLeft(LAMBDA acc, x : LET o == Own(acc[1], x[2]) IN <<o[1], acc[2] \cup {<<x[1], o[2]>>}>>, <<h, {}>>, SetToSeq(c.d))
         IN <<Append(q[1], Cell(c.k, q[2], c.s)), Ref(Len(q[1]) + 1)>>
\* conversions give a deep copy of the other kind
As(h, v, kind) == LET q == Deep(h, v) IN <<[q[1] EXCEPT ![q[2].r].k = kind], q[2]>>

\* a fresh event or trace; n makes it recognisable
FreshEvent(h, n) == <<Append(h, Cell("ev", {<<"concept:name", Atom(n)>>}, <<>>)), Ref(Len(h) + 1)>>
FreshTrace(h, n) == LET q == FreshEvent(h, n)
                        g == Append(q[1], Cell("dc", {<<"n", Atom(n)>>}, <<>>)) IN
                    <<Append(g, Cell("tr", {<<"attributes", Ref(Len(g))>>}, <<q[2]>>)), Ref(Len(g) + 1)>>
InField(h, v, f, G(_, _)) == G(h, Get(h[v.r].d, f))
SetKey(h, v, k, x) == [h EXCEPT ![v.r].d = Put(@, k, x)]

\* what equality looks at: the events of a trace; the traces of a log and all its fields but the global defaults
RECURSIVE Essence(_)
Essence(x) == [x EXCEPT !.d = {e \in @ : CASE x.k = "lg" -> e[1] # "global_values" [] x.k = "tr" -> FALSE [] OTHER -> TRUE},
                        !.s = [i \in DOMAIN @ |-> Essence(@[i])]]
\* the edits; every one is possible on every object of its kind (without effect where there is nothing to edit)
EditOps(kind) ==
    CASE kind = "ev" -> {"set", "del", "list"}
      [] kind = "tr" -> {"append", "insert", "pop", "replace", "attr", "alist"}
      [] kind = "lg" -> {"append", "pop", "replace", "attr", "prop", "ext", "cls", "glob", "extnew", "clsnew", "globnew"}
      [] kind = "pm" -> {"first"}
      [] OTHER -> {}
ListAppend(h, d, k, n) == IF Has(d, k) /\ Get(d, k).r # 0 THEN [h EXCEPT ![Get(d, k).r].s = Append(@, Atom(n))] ELSE h
Edit(h, v, op, n) ==
    LET c == h[v.r]
        fld(f) == Get(c.d, f)
        sub(f) == h[fld(f).r].d IN
    CASE op = "set" -> SetKey(h, v, "k", Atom(n))
      [] op = "del" -> [h EXCEPT ![v.r].d = {x \in @ : x[1] # "x"}]
      [] op = "list" -> ListAppend(h, c.d, "l", n)
      [] op = "append" -> LET q == IF c.k = "tr" THEN FreshEvent(h, n) ELSE FreshTrace(h, n) IN [q[1] EXCEPT ![v.r].s = Append(@, q[2])]
      [] op = "insert" -> LET q == FreshEvent(h, n) IN [q[1] EXCEPT ![v.r].s = <<q[2]>> \o @]
      [] op = "pop" -> IF c.s = <<>> THEN h ELSE [h EXCEPT ![v.r].s = Tail(@)]
      [] op = "replace" -> IF c.s = <<>> THEN h ELSE
            LET q == IF c.k = "tr" THEN FreshEvent(h, n) ELSE FreshTrace(h, n) IN [q[1] EXCEPT ![v.r].s[1] = q[2]]
      [] op = "attr" -> SetKey(h, fld("attributes"), "n", Atom(n))
      [] op = "alist" -> ListAppend(h, sub("attributes"), "l", n)
      [] op = "prop" -> SetKey(h, fld("properties"), "n", Atom(n))
      [] op = "ext" -> SetKey(h, Get(sub("extensions"), "E"), "prefix", Atom(n))
      [] op = "extnew" -> LET g == Append(h, Cell("dc", {<<"prefix", Atom(n)>>}, <<>>)) IN SetKey(g, fld("extensions"), "N", Ref(Len(g)))
      [] op = "clsnew" -> LET g == Append(h, Cell("ls", {}, <<Atom(n)>>)) IN SetKey(g, fld("classifiers"), "N", Ref(Len(g)))
      [] op = "globnew" -> LET g == Append(h, Cell("dc", {<<"n", Atom(n)>>}, <<>>)) IN SetKey(g, fld("global_values"), "trace", Ref(Len(g)))
      [] op = "cls" -> ListAppend(h, sub("classifiers"), "C", n)
      [] op = "glob" -> SetKey(h, Get(sub("global_values"), "event"), "n", Atom(n))
      [] op = "first" -> IF c.s = <<>> \/ h[c.s[1].r].s = <<>> THEN h ELSE SetKey(h, h[c.s[1].r].s[1], "k", Atom(n))
\* one step on <<heap, handles>>; i is the handle, n the number of the step
MakeOps(kind) == (IF kind = "pm" THEN {"frompm"} ELSE IF kind = "lg" THEN {"copy", "deepcopy", "topm", "sub"}
                  ELSE IF kind = "tr" THEN {"copy", "deepcopy", "sub"} ELSE {"copy", "deepcopy"})
Do(h, hs, op, i, n) ==
    LET v == hs[i]
        add(q) == <<q[1], Append(hs, q[2])>> IN
    CASE op = "copy" -> add(Shallow(h, v))
      [] op = "deepcopy" -> add(Deep(h, v))
      [] op = "topm" -> add(As(h, v, "pm"))
      [] op = "frompm" -> add(As(h, v, "lg"))
      [] op = "sub" -> IF h[v.r].s = <<>> THEN <<h, hs>> ELSE <<h, Append(hs, h[v.r].s[1])>>
      [] OTHER -> <<Edit(h, v, op, n), hs>>

\* the initial log: two traces with two and one events, something in every dictionary
Heap0 == <<
    Cell("ls", {}, <<Atom(1)>>), Cell("ev", {<<"concept:name", Atom(10)>>, <<"l", Ref(1)>>, <<"x", Atom(11)>>}, <<>>),
    Cell("ev", {<<"concept:name", Atom(12)>>}, <<>>),
    Cell("ls", {}, <<Atom(2)>>), Cell("dc", {<<"n", Atom(13)>>, <<"l", Ref(4)>>}, <<>>),
    Cell("tr", {<<"attributes", Ref(5)>>}, <<Ref(2), Ref(3)>>),
    Cell("ev", {<<"concept:name", Atom(14)>>, <<"x", Atom(15)>>}, <<>>), Cell("dc", {}, <<>>),
    Cell("tr", {<<"attributes", Ref(8)>>}, <<Ref(7)>>),
    Cell("dc", {<<"m", Atom(16)>>}, <<>>), Cell("dc", {<<"m", Atom(17)>>}, <<>>),
    Cell("dc", {<<"prefix", Atom(18)>>}, <<>>), Cell("dc", {<<"E", Ref(12)>>}, <<>>),
    Cell("ls", {}, <<Atom(19)>>), Cell("dc", {<<"C", Ref(14)>>}, <<>>),
    Cell("dc", {<<"m", Atom(20)>>}, <<>>), Cell("dc", {<<"event", Ref(16)>>}, <<>>),
    Cell("lg", {<<"attributes", Ref(10)>>, <<"properties", Ref(11)>>, <<"extensions", Ref(13)>>, <<"classifiers", Ref(15)>>,
                <<"global_values", Ref(17)>>}, <<Ref(6), Ref(9)>>)>>
Root0 == <<Ref(18)>>
=============================================================================
