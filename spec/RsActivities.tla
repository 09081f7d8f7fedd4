---------------------------- MODULE RsActivities ----------------------------
(* The Rust backend's activities: what differs from the other implementation *)
(* (module Activities): several parents, a filter of instances, names joined *)
(* from the event names, levels.                                             *)
EXTENDS Activities

Narrows(s) == s.narrow \in {"NarrowUp", "NarrowDown"}
RsAccept(N, s, x) == \/ s.filter = "NoFilter"
                     \/ LET z == Size(N, CHOOSE n \in x[1] : TRUE) IN z >= s.min /\ x[3] > z \div 2
RsFiltered(N, s, xs) == SelectSeq(xs, LAMBDA x : RsAccept(N, s, x))
RsInstances(N, L, tr, s) == RsFiltered(N, s, Extract(N, L, tr, Narrows(s)))
RsFill(N, L, tr, is, s) ==
    LET old == {<<{is[i][1]}, is[i][2], is[i][3]>> : i \in DOMAIN is}
        new == UNION {SeqSet(Shift(RsInstances(N, L, Slice(tr, g[1], g[2] - g[1]), s), g[1])) :
                        g \in {x \in Gaps(Len(tr), is) : x[2] - x[1] >= s.gap}}
    IN SortByStart(old \cup new)

\* every set is a root or below all of its smallest supersets, and only below supersets
Parents(N, R, n) == {p \in R : n \in SeqSet(N[p].kids)}
RsHierarchyOk(N, R, L) ==
    LET fam == {USet(N, n) : n \in R} IN
    \A n \in R : LET up == Above(fam, USet(N, n))
                     ps == {USet(N, p) : p \in Parents(N, R, n)}
                 IN /\ ps \subseteq up
                    /\ (up = {}) = (n \in SeqSet(L))
                    /\ up # {} => ps \cap Smallest(up) # {}
RECURSIVE Joined(_)
Joined(ws) == IF ws = <<>> THEN "" ELSE "(" \o Head(ws) \o ")" \o (IF Len(ws) = 1 THEN "" ELSE "::" \o Joined(Tail(ws)))
Reach(N, L) == SeqSet(L) \cup UNION {Below(N, n) : n \in SeqSet(L)}
Strategy(s) == CASE s.undef = "InsertAllEvents" -> "all" [] s.undef = "InsertAsSingleEvent" -> "single" [] OTHER -> "none"

\* the log of every activity: name code -> traces
LogsOfInstances(N, log, inst, lv) ==
    LET sel(a, x) == N[x[1]].level = lv
        ren(x, tr) == tr
    IN {<<c, LogFor(N, log, inst, c, sel, ren)>> : c \in NamesFor(N, log, inst, sel)}
RECURSIVE Whole(_)
Whole(log) == IF log = <<>> THEN <<>> ELSE Head(log) \o Whole(Tail(log))
LogsOfEvents(log) ==
    LET es == SelectSeq(Whole(log), LAMBDA e : e[3] # <<>>)
        of(c) == LET xs == SelectSeq(es, LAMBDA e : e[1] = c) IN [i \in DOMAIN xs |-> Expand(<<xs[i]>>)]
    IN {<<c, of(c)>> : c \in {es[i][1] : i \in DOMAIN es}}
=============================================================================
