---------------------------- MODULE MCHierarchy -----------------------------
(* Insertion of class sets, larger ones first, below a smallest set that     *)
(* contains them: every family of sets, every order among equal sizes.       *)
EXTENDS Hierarchy, TLC, Json
CONSTANTS NC, NS
VARIABLES order, phase, todo, parent
vars == <<order, phase, todo, parent>>
All == (SUBSET (0..(NC - 1))) \ {{}}
Init == order = <<>> /\ phase = "build" /\ todo = {} /\ parent = <<>>
Build == /\ phase = "build" /\ Len(order) < NS
         /\ \E s \in All \ SeqSet(order) : order' = Append(order, s)
         /\ UNCHANGED <<phase, todo, parent>>
Start == /\ phase = "build" /\ order # <<>>
         /\ \A i \in 1..(Len(order) - 1) : Cardinality(order[i]) >= Cardinality(order[i + 1])   \* by size
         /\ phase' = "insert" /\ todo' = SeqSet(order) /\ parent' = [x \in {} |-> {}] /\ UNCHANGED order
Largest(F) == {x \in F : \A y \in F : Cardinality(x) >= Cardinality(y)}
Insert == /\ phase = "insert" /\ todo # {}
          /\ \E s \in Largest(todo) :
                /\ todo' = todo \ {s}
                /\ LET ab == Above(DOMAIN parent, s) IN
                   \E p \in (IF ab = {} THEN {{}} ELSE Smallest(ab)) :
                      parent' = [x \in DOMAIN parent \cup {s} |-> IF x = s THEN p ELSE parent[x]]
          /\ UNCHANGED <<order, phase>>
Next == Build \/ Start \/ Insert
\* inserting by size is enough: the result is the hierarchy of the whole family
Exact == (phase = "insert" /\ todo = {}) => HierarchyOk(SeqSet(order), parent)
Prefix == phase = "insert" => HierarchyOk(DOMAIN parent, parent)
\* everything below a node is contained in it, and every set hangs below some root
RECURSIVE RootOf(_)
RootOf(s) == IF parent[s] = {} THEN s ELSE RootOf(parent[s])
Covered == phase = "insert" => \A s \in DOMAIN parent : s \subseteq RootOf(s) /\ Above(DOMAIN parent, RootOf(s)) = {}
Emit == phase = "build" => PrintT("CASE " \o ToJson([sets |-> [i \in DOMAIN order |-> SetToSeq(order[i])]]))
=============================================================================
