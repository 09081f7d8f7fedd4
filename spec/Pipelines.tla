----------------------------- MODULE Pipelines -----------------------------
(* Composition of pipelines.                                                 *)
(*   item ::= [k |-> "p", fx, id]            a part                          *)
(*          | [k |-> "if", c, b]             conditional block               *)
(*          | [k |-> "copy", b]              block on a copied input         *)
(*          | [k |-> "temp", b]              block on a temporary input      *)
(*          | [k |-> "par", bs]              parallel branches               *)
(* b is a sequence of items (a pipeline), bs a sequence of pipelines.        *)
(* A context is <<a, b, m>>; 0 means that the entry is absent.               *)
(* Parts write their id into an entry, either into the context object they   *)
(* received ("seta", "setb") or into a fresh one ("newa", "newb"), return    *)
(* nothing at all ("nul") or fail.                                           *)
(* The conditions ask for entry a / entry b; the temporary input has only    *)
(* entry a; the merger keeps the incoming a and b and stores the b of the    *)
(* block's result as m.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

PartKinds == {"seta", "setb", "newa", "newb", "nul", "fail"}
Null == <<-1, -1, -1>>                          \* no context at all: a part may return nothing
Base(x) == IF x = Null THEN <<0, 0, 0>> ELSE x
Cond(c, x) == IF x = Null THEN FALSE ELSE IF c = "hasa" THEN x[1] # 0 ELSE x[2] # 0
Transform(x) == <<Base(x)[1], 0, 0>>
Merge(old, res) == <<Base(old)[1], Base(old)[2], Base(res)[2]>>
Write(fx, id, x) == CASE fx \in {"seta", "newa"} -> [Base(x) EXCEPT ![1] = id]
                      [] fx \in {"setb", "newb"} -> [Base(x) EXCEPT ![2] = id]
                      [] OTHER -> Null

\* ---- what a composition means: values in, values out, calls in between -----
\* result: [ctx, calls, err]; calls is the sequence of <<part id, context seen>>
Ok(x) == [ctx |-> x, calls |-> <<>>, err |-> FALSE]
RECURSIVE EvalItem(_, _), EvalSeq(_, _), EvalPar(_, _)
EvalItem(it, x) ==
    CASE it.k = "p" -> IF it.fx = "fail" THEN [ctx |-> x, calls |-> << <<it.id, x>> >>, err |-> TRUE]
                       ELSE [ctx |-> Write(it.fx, it.id, x), calls |-> << <<it.id, x>> >>, err |-> FALSE]
      [] it.k = "if" -> IF Cond(it.c, x) THEN EvalSeq(it.b, x) ELSE Ok(x)
      [] it.k = "copy" -> LET r == EvalSeq(it.b, x) IN [r EXCEPT !.ctx = x]
      [] it.k = "temp" -> LET r == EvalSeq(it.b, Transform(x)) IN [r EXCEPT !.ctx = Merge(x, r.ctx)]
      [] it.k = "par" -> EvalPar(it.bs, x)
EvalSeq(s, x) ==
    IF s = <<>> THEN Ok(x)
    ELSE LET r == EvalItem(Head(s), x) IN
         IF r.err THEN r
         ELSE LET q == EvalSeq(Tail(s), r.ctx) IN [q EXCEPT !.calls = r.calls \o @]
EvalPar(bs, x) ==
    LET r == EvalSeq(Head(bs), x) IN
    IF r.err \/ Len(bs) = 1 THEN r
    ELSE LET q == EvalPar(Tail(bs), x) IN [q EXCEPT !.calls = r.calls \o @]

\* ---- how it is executed: contexts are objects that parts may modify --------
\* machine: [stack, cur, heap, calls, err]; the last frame of the stack is on top
Boot(prog, x) == [stack |-> <<[f |-> "run", s |-> prog]>>, cur |-> 1, heap |-> <<x>>, calls |-> <<>>, err |-> FALSE]
Halted(m) == m.stack = <<>> \/ m.err
Alloc(m, x) == [m EXCEPT !.heap = Append(@, x), !.cur = Len(m.heap) + 1]
Push(m, fr) == [m EXCEPT !.stack = Append(@, fr)]
Deref(m) == m.heap[m.cur]

StepItem(m, it) ==
    CASE it.k = "p" ->
            LET seen == [m EXCEPT !.calls = Append(@, <<it.id, Deref(m)>>)] IN
            IF it.fx = "fail" THEN [seen EXCEPT !.err = TRUE]
            ELSE IF it.fx \in {"seta", "setb"} /\ Deref(m) # Null THEN [seen EXCEPT !.heap[m.cur] = Write(it.fx, it.id, @)]
            ELSE Alloc(seen, Write(it.fx, it.id, Deref(m)))
      [] it.k = "if" -> IF Cond(it.c, Deref(m)) THEN Push(m, [f |-> "run", s |-> it.b]) ELSE m
      [] it.k = "copy" -> Push(Push(Alloc(m, Deref(m)), [f |-> "give", ptr |-> m.cur]), [f |-> "run", s |-> it.b])
      [] it.k = "temp" -> Push(Push(Alloc(m, Transform(Deref(m))), [f |-> "merge", ptr |-> m.cur]), [f |-> "run", s |-> it.b])
      [] it.k = "par" -> Push(m, [f |-> "par", ptr |-> m.cur, bs |-> it.bs])
Step(m) ==
    LET fr == m.stack[Len(m.stack)]  rest == [m EXCEPT !.stack = Front(@)] IN
    CASE fr.f = "run" -> IF fr.s = <<>> THEN rest
                         ELSE StepItem(Push(rest, [fr EXCEPT !.s = Tail(@)]), Head(fr.s))
      [] fr.f = "give" -> [rest EXCEPT !.cur = fr.ptr]
      [] fr.f = "merge" -> Alloc(rest, Merge(m.heap[fr.ptr], Deref(m)))
      [] fr.f = "par" -> IF fr.bs = <<>> THEN rest
                         ELSE Push(Push(Alloc(rest, m.heap[fr.ptr]), [fr EXCEPT !.bs = Tail(@)]),
                                   [f |-> "run", s |-> Head(fr.bs)])

\* ---- editing the list of parts ---------------------------------------------
EditAppend(s, it) == Append(s, it)
EditInsert(s, i, it) == SubSeq(s, 1, i) \o <<it>> \o SubSeq(s, i + 1, Len(s))      \* 0-based i \in 0..Len(s)
EditRemove(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))                    \* 0-based i \in 0..Len(s)-1

\* part ids by position in the tree
RECURSIVE NumItem(_, _), NumSeq(_, _)
NumSeq(s, base) == [i \in DOMAIN s |-> NumItem(s[i], base * 6 + i)]
NumItem(it, n) ==
    CASE it.k = "p" -> [k |-> "p", fx |-> it.fx, id |-> n]
      [] it.k \in {"copy", "temp"} -> [k |-> it.k, b |-> NumSeq(it.b, n)]
      [] it.k = "if" -> [k |-> "if", c |-> it.c, b |-> NumSeq(it.b, n)]
      [] it.k = "par" -> [k |-> "par", bs |-> [j \in DOMAIN it.bs |-> NumSeq(it.bs[j], n * 6 + j)]]
=============================================================================
