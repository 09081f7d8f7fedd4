------------------------------ MODULE Backend ------------------------------
(* The client of the analysis backend.                                       *)
(*                                                                           *)
(* A pipeline is a tree:                                                     *)
(*   item ::= [k |-> "plain"]              a part without a result           *)
(*          | [k |-> "cb", id]             a part with a callback            *)
(*          | [k |-> "num"|"info"|"names"] a part that prints its result     *)
(*          | [k |-> "until"|"each", b]    a part around a nested pipeline   *)
(*          | [k |-> "cluster", b]         the same, with a (silent) result  *)
(*          | [k |-> "around", b]          prints information before/after b *)
(* "cb" items with the same id are one part used at several places.          *)
(*                                                                           *)
(* A script is what the backend sends in answer to one request:              *)
(*   [k |-> "part", u, v, boom]  result for the u-th expecting part of the   *)
(*                               request (0: of no part), values v; boom:    *)
(*                               its callback fails                          *)
(*   [k |-> "log"]               a log message                               *)
(*   [k |-> "ok" | "okx"]        success (okx: releasing the result fails)   *)
(*   [k |-> "fail"]              failure                                     *)
(*   [k |-> "end" | "abort"]     the stream ends / breaks without a result   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* ---- who waits for results: pre-order over the request ----------------------
RECURSIVE Waiting(_), WaitingItem(_)
WaitingItem(it) ==
    CASE it.k = "plain" -> <<>>
      [] it.k = "cb" -> << <<"cb", it.id>> >>
      [] it.k \in {"num", "info", "names"} -> << <<it.k, 0>> >>
      [] it.k \in {"until", "each"} -> Waiting(it.b)
      [] it.k = "cluster" -> << <<"silent", 0>> >> \o Waiting(it.b)
      [] it.k = "around" -> << <<"info", 0>> >> \o Waiting(it.b) \o << <<"info", 0>> >>
Waiting(s) == IF s = <<>> THEN <<>> ELSE WaitingItem(Head(s)) \o Waiting(Tail(s))

Finals == {"ok", "okx", "fail", "end", "abort"}

\* ---- the client as a machine over the messages ------------------------------
\* eff: what it did so far; out: "run" until it returns or raises
Start == [pos |-> 0, eff |-> <<>>, out |-> "run"]
Does(w, i, m) == CASE w[1] = "cb" -> << <<"cb", w[2], i>> >>
                   [] w[1] = "silent" -> <<>>
                   [] OTHER -> << <<w[1], 0, i>> >>
Consume(W, m, msg) ==
    LET i == m.pos + 1
        n == [m EXCEPT !.pos = i] IN
    CASE msg.k = "part" -> IF msg.u = 0 THEN n
                           ELSE [n EXCEPT !.eff = @ \o Does(W[msg.u], i, msg), !.out = IF msg.boom THEN "raise" ELSE @]
      [] msg.k = "log" -> [n EXCEPT !.eff = Append(@, <<"log", 0, i>>)]
      [] msg.k \in {"ok", "okx"} -> [n EXCEPT !.eff = Append(@, <<"drop", 0, i>>), !.out = msg.k]
      [] OTHER -> [n EXCEPT !.out = IF msg.k = "abort" THEN "raise" ELSE msg.k]
RECURSIVE RunFrom(_, _, _)
RunFrom(W, m, script) == IF m.out # "run" \/ m.pos = Len(script) THEN m
                         ELSE RunFrom(W, Consume(W, m, script[m.pos + 1]), script)
Ran(tree, script) == RunFrom(Waiting(tree), Start, script)

\* ---- the same, stated without a machine -------------------------------------
\* the messages that count: up to the first final one or failing callback
Stops(script) == {i \in DOMAIN script : script[i].k \in Finals \/ (script[i].k = "part" /\ script[i].u # 0 /\ script[i].boom)}
Last1(script) == CHOOSE i \in Stops(script) : \A j \in Stops(script) : i <= j
Meant(W, script) == LET upto == IF Stops(script) = {} THEN Len(script) ELSE Last1(script) IN
                    {i \in 1..upto : \/ script[i].k \in {"log", "ok", "okx"}
                                     \/ script[i].k = "part" /\ script[i].u # 0 /\ W[script[i].u][1] # "silent"}
=============================================================================
