------------------------------ MODULE Patterns ------------------------------
(* Loops (tandem arrays) and repeats of a single trace.  Positions 0-based.  *)
EXTENDS Logs

Mapped(map, log) == [t \in DOMAIN log |-> [i \in DOMAIN log[t] |-> map[log[t][i] + 1]]]

------------------------------------------------------------- (* loops *)
\* block of length l at p, repeated r times back to back
Copies(tr, p, l, r) == p + l * r <= Len(tr) /\ \A j \in l..(l * r - 1) : tr[p + j + 1] = tr[p + (j % l) + 1]
MaxCopies(tr, p, l) == CHOOSE r \in 1..(Len(tr) \div l) : Copies(tr, p, l, r) /\ ~Copies(tr, p, l, r + 1)
Loops(tr, p, l) == p + 2 * l <= Len(tr) /\ Copies(tr, p, l, 2)
FirstOcc(tr, p, l) == \A q \in 0..(p - 1) : Slice(tr, q, l) # Slice(tr, p, l)
MaximalArrays(tr, bound) ==
    {<<p, l, MaxCopies(tr, p, l)>> :
        <<p, l>> \in {<<q, m>> \in (0..Len(tr)) \X (2..(bound - 1)) : Loops(tr, q, m) /\ FirstOcc(tr, q, m)}}
\* no shorter loop of length up to half the block (rounded up) starts there
IsPrimitive(tr, a) == \A m \in 2..((a[2] + 1) \div 2) : ~Loops(tr, a[1], m)
PrimitiveArrays(tr, bound) == {a \in MaximalArrays(tr, bound) : IsPrimitive(tr, a)}

----------------------------------------------------------- (* repeats *)
OccAt(tr, w, p) == p + Len(w) <= Len(tr) /\ Slice(tr, p, Len(w)) = w
Occ(tr, w) == {p \in 0..(Len(tr) - Len(w)) : Slice(tr, p, Len(w)) = w}
SubWords(tr) == {Slice(tr, x[1], x[2]) : x \in {y \in (0..Len(tr)) \X (1..Len(tr)) : y[1] + y[2] <= Len(tr)}}
\* what stands left and right of an occurrence; the ends of the trace are unlike anything else
LeftOf(tr, p) == IF p = 0 THEN -1 ELSE tr[p]
RightOf(tr, w, p) == IF p + Len(w) = Len(tr) THEN -2 ELSE tr[p + Len(w) + 1]
Repeated(tr) == {w \in SubWords(tr) : Cardinality(Occ(tr, w)) >= 2}
IsMaximal(tr, w) == LET o == Occ(tr, w) IN
    /\ Cardinality(o) >= 2
    /\ Cardinality({LeftOf(tr, p) : p \in o}) > 1
    /\ Cardinality({RightOf(tr, w, p) : p \in o}) > 1
MaxRepeats(tr) == {w \in SubWords(tr) : IsMaximal(tr, w)}
Contains2(v, w) == \E p \in 0..(Len(v) - Len(w)) : Slice(v, p, Len(w)) = w
SuperMax(tr) == LET m == MaxRepeats(tr) IN {w \in m : \A v \in m : (Len(v) > Len(w)) => ~Contains2(v, w)}
NearSuperMax(tr) == LET m == MaxRepeats(tr)
                        occ == [w \in m |-> Occ(tr, w)] IN
    {w \in m : \E p \in occ[w] : \A v \in m : Len(v) > Len(w) =>
        ~\E q \in occ[v] : q <= p /\ p + Len(w) <= q + Len(v)}
=============================================================================
