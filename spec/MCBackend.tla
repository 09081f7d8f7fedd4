----------------------------- MODULE MCBackend -----------------------------
(* Client and backend exchanging messages through the stream.                *)
EXTENDS Backend, TLC, Json
CONSTANTS NW, NL, NRUN
VARIABLES sent,       \* messages the backend has put on the stream in this run
          cl,         \* the client
          store,      \* results the backend keeps: identifiers not released
          run, gone   \* number of the run; identifiers ever released, in order
vars == <<sent, cl, store, run, gone>>
W == [i \in 1..NW |-> IF i = NW /\ NW > 2 THEN <<"info", 0>> ELSE <<"cb", i>>]
Msgs == {[k |-> "part", u |-> u, boom |-> FALSE] : u \in 0..NW}
        \cup {[k |-> "part", u |-> 1, boom |-> TRUE], [k |-> "log", u |-> 0, boom |-> FALSE]}
Ends == {[k |-> x, u |-> 0, boom |-> FALSE] : x \in Finals}
HasFinal == \E i \in DOMAIN sent : sent[i].k \in Finals
Id(i) == 100 * run + i
Init == sent = <<>> /\ cl = Start /\ store = {} /\ run = 1 /\ gone = <<>>
Send == /\ Len(sent) < NL /\ ~HasFinal
        /\ \E m \in Msgs \cup Ends : /\ sent' = Append(sent, m)
                                     /\ store' = IF m.k \in {"ok", "okx"} THEN store \cup {Id(Len(sent) + 1)} ELSE store
        /\ UNCHANGED <<cl, run, gone>>
SendFinal == /\ Len(sent) >= NL /\ ~HasFinal
             /\ \E m \in Ends : /\ sent' = Append(sent, m)
                                /\ store' = IF m.k \in {"ok", "okx"} THEN store \cup {Id(Len(sent) + 1)} ELSE store
             /\ UNCHANGED <<cl, run, gone>>
\* a backend that goes on after its final message is none of the client's business
Late == HasFinal /\ Len(sent) <= NL /\ sent' = Append(sent, [k |-> "log", u |-> 0, boom |-> FALSE]) /\ UNCHANGED <<cl, store, run, gone>>
Take == /\ cl.out = "run" /\ cl.pos < Len(sent)
        /\ cl' = Consume(W, cl, sent[cl.pos + 1])
        /\ LET m == sent[cl.pos + 1] IN
           /\ store' = IF m.k = "ok" THEN store \ {Id(cl.pos + 1)} ELSE store
           /\ gone' = IF m.k \in {"ok", "okx"} THEN Append(gone, Id(cl.pos + 1)) ELSE gone
        /\ UNCHANGED <<sent, run>>
Again == cl.out # "run" /\ run < NRUN /\ run' = run + 1 /\ sent' = <<>> /\ cl' = Start /\ UNCHANGED <<store, gone>>
Next == Send \/ SendFinal \/ Late \/ Take \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(Send \/ SendFinal)

Taken == SubSeq(sent, 1, cl.pos)
\* each result that counts is delivered once and in order, and nothing else happens
Delivered == /\ {cl.eff[i][3] : i \in DOMAIN cl.eff} = Meant(W, Taken)
             /\ \A i, j \in DOMAIN cl.eff : i < j => cl.eff[i][3] < cl.eff[j][3]
Addressed == \A i \in DOMAIN cl.eff : cl.eff[i][1] = "cb" => cl.eff[i][2] = W[sent[cl.eff[i][3]].u][2]
ReleasedOnce == \A i, j \in DOMAIN gone : gone[i] = gone[j] => i = j
Released == cl.out = "ok" => Id(cl.pos) \notin store /\ Id(cl.pos) = gone[Len(gone)]
NotReleased == cl.out \in {"fail", "end", "raise", "run"} => \A i \in DOMAIN gone : gone[i] < 100 * run
SameAsMeaning == cl.out # "run" => cl = RunFrom(W, Start, sent)
Finishes == []((cl.out = "run" /\ HasFinal) => <>(cl.out # "run"))
\* scripts for the replay
Emit == ~(cl.pos = 0 /\ run = 1 /\ HasFinal) \/ PrintT("CASE " \o ToJson(sent))
Quiet == cl.pos = 0 /\ run = 1
=============================================================================
