------------------------------- MODULE MeshMC -------------------------------
(***************************************************************************)
(* The elementary edits of the 2D mesh as a transition system.  Checked    *)
(* exhaustively on small meshes (MeshMC.cfg) and, with Keep = TRUE, run by *)
(* tlc -simulate to produce edit sequences which harness/fam_mesh.py       *)
(* replays against the real library (MeshGen.cfg).                         *)
(***************************************************************************)
EXTENDS Mesh, TLC, Json
CONSTANTS MaxNodes, MaxEdges, Width, Height, Keep, Depth
VARIABLES M, log

Points == {<<8 * x, 8 * y>> : x \in 0..Width, y \in 0..Height}
Free == Points \ {M.n[i] : i \in Nodes(M)}
Act(a, N) == M' = N /\ log' = IF Keep THEN Append(log, a) ELSE log

Init == M = Empty /\ log = <<>>
AddNode == Len(M.n) < MaxNodes /\ \E p \in Free : (Keep \/ \A i \in Nodes(M) : p[1] + 100 * p[2] > M.n[i][1] + 100 * M.n[i][2]) /\ Act(<<"node", p[1], p[2]>>, InsertNode(M, p))
AddEdge == Len(M.e) < MaxEdges /\ \E a, b \in Nodes(M) : (IF Keep THEN a # b ELSE a < b) /\ Joining(M, a, b) = {} /\ Act(<<"edge", a, b>>, InsertEdge(M, a, b))
AddTwice == \E e \in Edges(M) : Act(<<"edge", M.e[e][2], M.e[e][1]>>, M)
RemoveNode == \E i \in Connected(M) : Act(<<"delnode", i, 0>>, DeleteNode(M, i))
RemoveEdge == \E e \in Edges(M) : Act(<<"deledge", e, 0>>, DeleteEdges(M, {e}))
Merge == \E a, b \in Connected(M) : a # b /\ Act(<<"merge2", a, b>>, MergeTwo(M, a, b))
Prune == Hanging(M) # {} /\ Act(<<"delhang", 0, 0>>, DeleteEdges(M, Hanging(M)))
Quarter == Keep /\ Len(log) % 6 = 5 /\ \E q \in 1..3 : Act(<<"turn", q, 0>>, Turn(M, <<8, 8>>, q))
Shift == Keep /\ Len(log) % 6 = 3 /\ \E d \in {-8, 8} : Act(<<"translate", d, 0>>, Translate(M, d, 0))
\* in the generator, growing comes first
Grow == \/ (Cardinality(Nodes(M)) < 4 /\ AddNode)
        \/ (Cardinality(Edges(M)) < 4 /\ AddEdge)
Next == IF Keep THEN /\ Len(log) < Depth
                     /\ IF ENABLED Grow THEN Grow
                        ELSE AddNode \/ AddEdge \/ AddEdge \/ AddTwice \/ RemoveNode \/ RemoveEdge \/ Merge \/ Prune \/ Quarter \/ Shift
        ELSE AddNode \/ AddEdge \/ RemoveNode \/ RemoveEdge \/ Merge \/ Prune
Spec == Init /\ [][Next]_<<M, log>>

\* every edge joins two different nodes that are there; no two edges join the same nodes
Sound == WellFormed(M) /\ NoDoubleEdge(M)
\* in a plane drawing a cell is a simple counter-clockwise ring, an edge lies on at most two cells, cells do not overlap
CellsSound == Planar(M) =>
    LET C == Cells(M)
    IN /\ \A c \in C : Area2(Poly(M, c)) > 0
       /\ \A e \in Edges(M) : Cardinality({c \in C : e \in EdgesOf(M, c)}) <= 2
       /\ \A c, d \in C : c # d => ~\E i \in DOMAIN d : StrictlyIn(M.n[d[i]], Poly(M, c)) /\ ~OnBoundary(M.n[d[i]], Poly(M, c))
\* compacting keeps exactly the connected part
CompactSound == LET K == Compact(M) IN WellFormed(K) /\ Cardinality(Edges(K)) = Cardinality(Edges(M)) /\ Len(K.n) = Cardinality(Connected(M)) /\ Compact(K) = K
Emit == (Keep /\ Len(log) = Depth) => PrintT("SCHED " \o ToJson(log))
=============================================================================
