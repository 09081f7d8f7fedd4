---------------------------- MODULE MCPipelines ----------------------------
(* All programs a; block; b with blocks over short part lists, machine       *)
(* against meaning; and the evolution of an edited part list.                *)
EXTENDS Pipelines, TLC, Json
CONSTANTS Wide      \* TRUE: two-part inner pipelines everywhere
VARIABLES prog, m, edits
vars == <<prog, m, edits>>

P == {[k |-> "p", fx |-> f, id |-> 0] : f \in PartKinds}
S1 == {<<>>} \cup {<<p>> : p \in P}
S2 == S1 \cup {<<p, q>> : p \in P, q \in P}
In == IF Wide THEN S2 ELSE S1 \cup {<<p, q>> : p \in {x \in P : x.fx \in {"seta", "newb"}}, q \in P}
Blocks(body) == {[k |-> "if", c |-> c, b |-> b] : c \in {"hasa", "hasb"}, b \in body}
          \cup {[k |-> "copy", b |-> b] : b \in body} \cup {[k |-> "temp", b |-> b] : b \in body}
          \cup {[k |-> "par", bs |-> <<b>>] : b \in body} \cup {[k |-> "par", bs |-> <<b, d>>] : b \in body, d \in body}
Nest == {[k |-> "copy", b |-> <<x>>] : x \in Blocks(S1)} \cup {[k |-> "temp", b |-> <<x>>] : x \in Blocks(S1)}
     \cup {[k |-> "par", bs |-> <<s, <<x>>>>] : s \in S1, x \in Blocks(S1)}
     \cup {[k |-> "par", bs |-> <<<<x>>, s>>] : s \in S1, x \in Blocks(S1)}
     \cup {[k |-> "if", c |-> c, b |-> <<x>>] : c \in {"hasa", "hasb"}, x \in Blocks(S1)}
Pre == {[k |-> "p", fx |-> f, id |-> 0] : f \in {"seta", "newb"}}
Programs == {NumSeq(<<a, x, b>>, 0) : a \in Pre, x \in Blocks(In) \cup Nest, b \in {[k |-> "p", fx |-> "setb", id |-> 0]}}
       \cup {NumSeq(s, 0) : s \in S2}

Init == /\ prog \in Programs /\ m = Boot(prog, <<0, 0, 0>>) /\ edits = 0
Next == /\ ~Halted(m) /\ m' = Step(m) /\ UNCHANGED <<prog, edits>>

Refines == Halted(m) =>
    LET r == EvalSeq(prog, <<0, 0, 0>>) IN
    /\ m.err = r.err /\ m.calls = r.calls
    /\ ~m.err => Deref(m) = r.ctx
\* the calls made so far are always a prefix of the meaning: order, no repetition, nothing after a failure
Prefix == IsPrefix(m.calls, EvalSeq(prog, <<0, 0, 0>>).calls)
FailLast == \A i \in DOMAIN m.calls : i < Len(m.calls) => ~m.err \/ m.calls[i][1] # m.calls[Len(m.calls)][1]
Emit == (m = Boot(prog, <<0, 0, 0>>)) => PrintT("CASE " \o ToJson([prog |-> prog]))
=============================================================================
