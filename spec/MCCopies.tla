------------------------------ MODULE MCCopies ------------------------------
EXTENDS Copies, TLC, Json
CONSTANTS ND, NH, EMITALL
VARIABLES h, hs, prog
vars == <<h, hs, prog>>
Init == h = Heap0 /\ hs = Root0 /\ prog = <<>>
Next == /\ Len(prog) < ND
        /\ \E i \in DOMAIN hs : LET kind == h[hs[i].r].k IN
           \E op \in (IF Len(hs) < NH THEN MakeOps(kind) ELSE {}) \cup EditOps(kind) :
             LET q == Do(h, hs, op, i, 100 + Len(prog)) IN
             h' = q[1] /\ hs' = q[2] /\ prog' = Append(prog, <<op, i>>)
\* a copy shows the same as the original when it is made
FreshCopy == [][Len(hs') > Len(hs) => LET o == prog'[Len(prog')]
                                         x == Content(h', hs'[Len(hs')])
                                         y == Content(h', hs'[o[2]]) IN
                 CASE o[1] \in {"copy", "deepcopy"} -> x = y
                   [] o[1] \in {"topm", "frompm"} -> x.d = y.d /\ x.s = y.s
                   [] OTHER -> TRUE]_vars
\* a deep copy reaches nothing the original reaches
Disjoint == [][(Len(hs') > Len(hs) /\ prog'[Len(prog')][1] \in {"deepcopy", "topm", "frompm"}) =>
                 Reach(h', hs'[Len(hs')]) \cap UNION {Reach(h', hs[i]) : i \in DOMAIN hs} = {}]_vars
\* an edit is seen through a handle only if the handle reaches an edited cell
EditLocal == [][(Len(hs') = Len(hs)) => \A i \in DOMAIN hs :
                 Content(h', hs[i]) # Content(h, hs[i]) => \E c \in Reach(h, hs[i]) : h'[c] # h[c]]_vars
\* a shallow copy has exactly the elements of the original
SameElements == [][(Len(hs') > Len(hs) /\ prog'[Len(prog')][1] = "copy") => h'[hs'[Len(hs')].r].s = h[hs[prog'[Len(prog')][2]].r].s]_vars
Emit == (Len(prog) = ND \/ (EMITALL /\ prog # <<>>)) => PrintT("CASE " \o ToJson(prog))
=============================================================================
