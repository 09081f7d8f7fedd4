---------------------------- MODULE MCRsPipelines ----------------------------
(* The same run as a machine with a stack of pipelines: a part is started,    *)
(* does its work, its nested pipeline is pushed, and it ends when that one    *)
(* has ended. It says, and leaves, what the written-out program does.         *)
EXTENDS RsPipelines, TLC, Json
CONSTANTS NP, ND, NF

N(op, cfg) == [op |-> op, cfg |-> cfg, c |-> 0, set |-> <<0>>, re |-> "A", n |-> 2, bad |-> FALSE]
Plain == {N("FilterEventsByName", <<"event_name">>), N("FilterEventsByName", <<>>), N("GetNamesEventLog", <<>>), N("UseNamesEventLog", <<>>),
          N("TracesDiversityDiagram", <<>>), N("GetUnderlyingEventsCount", <<>>), N("AddArtificialEndEvents", <<>>),
          N("FilterTracesByEventsCount", <<"events_count">>), N("GetHashesEventLog", <<>>), N("GetEventLogInfo", <<>>),
          [N("FilterEventsByRegex", <<"regex">>) EXCEPT !.bad = TRUE, !.re = "["]}
Few == {N("FilterEventsByName", <<"event_name">>), N("GetNamesEventLog", <<>>), N("UseNamesEventLog", <<>>), N("TracesDiversityDiagram", <<>>),
        N("GetUnderlyingEventsCount", <<>>)}
Nest(sub, c) == N("ExecuteFrontendPipeline", c) @@ [sub |-> sub]
RECURSIVE Nodes(_)
RECURSIVE Progs(_, _)
Progs(n, d) == IF n = 0 THEN {<<>>} ELSE {<<>>} \cup {<<x>> \o p : x \in Nodes(d), p \in Progs(n - 1, d)}
Nodes(d) == IF d = ND THEN Plain \cup {Nest(p, <<"pipeline">>) : p \in Progs(2, d - 1)} \cup {Nest(<<>>, <<>>)}
            ELSE IF d = 0 THEN Few ELSE Few \cup {Nest(p, <<"pipeline">>) : p \in Progs(1, d - 1)}

VARIABLES prog, has, fail, stack, ctx, msgs, res, phase
vars == <<prog, has, fail, stack, ctx, msgs, res, phase>>
Log0 == <<<<0, 1, 0>>, <<1>>, <<1>>>>
Init == /\ prog \in Progs(NP, ND) /\ has \in BOOLEAN /\ fail \in {0} \cup NF
        /\ stack = <<[rest |-> prog, open |-> "", at |-> "next"]>>
        /\ ctx = Ctx0(IF has THEN {"event_log"} ELSE {}, IF has THEN Log0 ELSE <<>>)
        /\ msgs = <<>> /\ res = {} /\ phase = 0
Top == stack[Len(stack)]
Set(f) == [stack EXCEPT ![Len(stack)] = f]
Send(m) == /\ msgs' = Append(msgs, m)
           /\ res' = IF Len(msgs') = fail THEN {"handler"} ELSE {}
Begin == /\ Top.at = "next" /\ Top.rest # <<>>
         /\ Send(Head(Top.rest).op)
         /\ stack' = Set([Top EXCEPT !.at = "needs", !.open = Head(Top.rest).op])
         /\ UNCHANGED ctx
Needs == /\ Top.at = "needs"
         /\ res' = Errors(Head(Top.rest), ctx)
         /\ stack' = Set([Top EXCEPT !.at = IF Top.open = "GetUnderlyingEventsCount" THEN "note" ELSE "work"])
         /\ UNCHANGED <<ctx, msgs>>
Note == /\ Top.at = "note" /\ Send("note") /\ stack' = Set([Top EXCEPT !.at = "work"]) /\ UNCHANGED ctx
Do == /\ Top.at = "work"
      /\ ctx' = Effect(Head(Top.rest), ctx)
      /\ stack' = LET s == Set([Top EXCEPT !.at = "end"])
                  IN IF Top.open = "ExecuteFrontendPipeline" THEN Append(s, [rest |-> Head(Top.rest).sub, open |-> "", at |-> "next"]) ELSE s
      /\ UNCHANGED <<msgs, res>>
Finish == /\ Top.at = "end"
          /\ Send(Top.open)
          /\ stack' = Set([rest |-> Tail(Top.rest), open |-> "", at |-> "next"])
          /\ UNCHANGED ctx
Pop == /\ Top.at = "next" /\ Top.rest = <<>> /\ Len(stack) > 1
       /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<ctx, msgs, res>>
Next == /\ res = {}
        /\ Begin \/ Needs \/ Note \/ Do \/ Finish \/ Pop
        /\ phase' = 1
        /\ UNCHANGED <<prog, has, fail>>

Over == res # {} \/ (Len(stack) = 1 /\ Top.at = "next" /\ Top.rest = <<>>)
Emit == phase = 0 => PrintT("CASE " \o ToJson([prog |-> prog, haslog |-> has, log |-> IF has THEN Log0 ELSE <<>>, fail |-> fail]))
SameAsWrittenOut == Over => LET r == Run(prog, Ctx0(IF has THEN {"event_log"} ELSE {}, IF has THEN Log0 ELSE <<>>), fail)
                            IN /\ r.msgs = msgs /\ r.res = res /\ r.ctx = ctx
\* a log that was taken out as names comes back as it was
Restores == (Over /\ res = {} /\ Len(prog) = 2 /\ prog[1].op = "GetNamesEventLog" /\ prog[2].op = "UseNamesEventLog") => ctx.log = Log0
NothingAfterFailure == res # {} => Len(msgs) <= Len(Run(prog, Ctx0({"event_log"}, Log0), 0).msgs)
=============================================================================
