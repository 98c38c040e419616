------------------------------ MODULE RefineMC ------------------------------
(***************************************************************************)
(* Refinement as a transition system: a rectangle of square cells, of      *)
(* which any can be cut in four again and again.  A cell's ring runs over  *)
(* all nodes on its border, so that a node made by cutting one cell hangs  *)
(* on a side of its neighbour until that is cut, too.  Checked: what the   *)
(* oracle of the real refinement demands (Refine.tla) holds between any    *)
(* state and its successors, and between the first state and any other.    *)
(***************************************************************************)
EXTENDS Refine
CONSTANTS Columns, Rows, Size, Smallest
VARIABLES nodes, cells           \* sequence of points; set of <<x, y, size>>

First == {<<Size * x, Size * y, Size>> : x \in 0..(Columns - 1), y \in 0..(Rows - 1)}
Border(c) == <<<<c[1], c[2]>>, <<c[1] + c[3], c[2]>>, <<c[1] + c[3], c[2] + c[3]>>, <<c[1], c[2] + c[3]>>>>
RECURSIVE Listed(_, _)
Listed(S, seq) == IF S = {} THEN seq ELSE LET p == CHOOSE p \in S : TRUE IN Listed(S \ {p}, Append(seq, p))
At(p) == CHOOSE i \in DOMAIN nodes : nodes[i] = p
\* nodes on the side from a to b without b, in order
Side(N, a, b) == LET on == {i \in DOMAIN N : OnSegment(N[i], a, b) /\ N[i] # b}
                 IN [k \in 1..Cardinality(on) |-> CHOOSE i \in on : Cardinality({j \in on : Dist2(N[j], a) < Dist2(N[i], a)}) = k - 1]
RingOf(N, c) == LET B == Border(c) IN Side(N, B[1], B[2]) \o Side(N, B[2], B[3]) \o Side(N, B[3], B[4]) \o Side(N, B[4], B[1])
MeshOf(N, S) == LET F == TLCEval(Listed({RingOf(N, c) : c \in S}, <<>>))
                    E == UNION {{{F[k][i], F[k][Nxt(i, Len(F[k]))]} : i \in DOMAIN F[k]} : k \in DOMAIN F}
                    L == Listed(E, <<>>)
                IN [n |-> N, f |-> F, e |-> [k \in DOMAIN L |-> LET a == CHOOSE a \in L[k] : \A b \in L[k] : a <= b IN <<a, CHOOSE b \in L[k] : b # a>>]]
Quarters(c) == LET h == c[3] \div 2 IN {<<c[1], c[2], h>>, <<c[1] + h, c[2], h>>, <<c[1], c[2] + h, h>>, <<c[1] + h, c[2] + h, h>>}
Start == Listed(UNION {Set(Border(c)) : c \in First}, <<>>)
Init == cells = First /\ nodes = Start
Cut(c) == /\ c[3] > Smallest
          /\ cells' = (cells \ {c}) \cup Quarters(c)
          /\ nodes' = Listed(UNION {Set(Border(q)) : q \in Quarters(c)} \ Set(nodes), nodes)
Next == \E c \in cells : Cut(c)
Spec == Init /\ [][Next]_<<nodes, cells>>

Cover == cells      \* states that differ in the numbering only are taken together
Now == MeshOf(nodes, cells)
Sound == LET M == Now IN /\ Sane(M) /\ KeepsNodes(MeshOf(Start, First), M) /\ Tiles(MeshOf(Start, First), M) /\ Conforming(M)
\* a hanging node is seen exactly where a cell has a neighbour half its size or less
HangingSound == NoHanging(Now) <=> \A c \in cells : \A p \in Set(nodes) : OnBoundary(p, Border(c)) => p \in Set(Border(c))
Step == [][LET M == MeshOf(nodes, cells)
               N == MeshOf(nodes', cells')
           IN /\ KeepsNodes(M, N) /\ Tiles(M, N) /\ Conforming(N)
              /\ \A o \in DOMAIN M.f : Cardinality(Children(M, N, o)) \in {1, 4}
              /\ Cardinality(Kept(M, N)) <= Cardinality(cells) - 1]_<<nodes, cells>>
\* the oracle is not vacuous: a face forgotten, doubled or overlapping is noticed
Refutes == LET M == MeshOf(Start, First)
               N == Now
           IN Len(N.f) > 1 => ~Tiles(M, [N EXCEPT !.f = Tail(N.f)]) /\ ~Tiles(M, [N EXCEPT !.f = Append(N.f, N.f[1])])
=============================================================================
