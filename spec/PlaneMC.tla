------------------------------ MODULE PlaneMC ------------------------------
(***************************************************************************)
(* The lemmas on which the geometric oracles rest, checked on every simple *)
(* polygon of up to MaxLen corners on a small lattice: states are the      *)
(* simple lattice paths, grown one point at a time.                        *)
(***************************************************************************)
EXTENDS Poly
CONSTANTS Width, Height, MaxLen
VARIABLE P

Points == {<<x, y>> : x \in 0..Width, y \in 0..Height}
Scaled(Q, k) == [i \in DOMAIN Q |-> <<k * Q[i][1], k * Q[i][2]>>]
Turned(Q) == [i \in DOMAIN Q |-> Q[Len(Q) + 1 - i]]
Rolled(Q) == [i \in DOMAIN Q |-> Q[Nxt(i, Len(Q))]]
Moved(Q, d) == [i \in DOMAIN Q |-> <<Q[i][1] + d[1], Q[i][2] + d[2]>>]
\* a further point keeps the path simple: the new side meets the last one in its end only, and no other
Fits(p) == /\ \A i \in DOMAIN P : P[i] # p
           /\ \A i \in 1..(Len(P) - 2) : ~Meet(P[Len(P)], p, P[i], P[i + 1])
           /\ Len(P) > 1 => ~OnSegment(p, P[Len(P) - 1], P[Len(P)]) /\ ~OnSegment(P[Len(P) - 1], P[Len(P)], p)
Init == \E p \in Points : P = <<p>>
Next == Len(P) < MaxLen /\ \E p \in Points : Fits(p) /\ P' = Append(P, p)
Spec == Init /\ [][Next]_P

n == Len(P)
Simple == /\ n > 2 /\ \A i \in 2..(n - 2) : ~Meet(P[n], P[1], P[i], P[i + 1])
          /\ ~OnSegment(P[2], P[1], P[n]) /\ ~OnSegment(P[n], P[1], P[2]) /\ ~OnSegment(P[1], P[n - 1], P[n]) /\ ~OnSegment(P[n - 1], P[1], P[n])
Count(w) == Cardinality({p \in Points : Where(p, P) = w})
\* Pick: twice the area = 2 * (points inside) + (points on the boundary) - 2
Pick == Simple => Abs(Area2(P)) = 2 * Count("in") + Count("on") - 2
\* neither start nor direction matter, except for the sign of the area
Directions == Simple => /\ Area2(Turned(P)) = -Area2(P) /\ Area2(Rolled(P)) = Area2(P)
                        /\ \A p \in Points : Where(p, Turned(P)) = Where(p, P) /\ Where(p, Rolled(P)) = Where(p, P)
\* moving a polygon moves its inside and its centre of mass
Motion == Simple => LET d == <<3, -2>>
                        Q == Moved(P, d)
                        c == Centroid6(P)
                        k == Centroid6(Q)
                    IN /\ Area2(Q) = Area2(P) /\ \A p \in Points : Where(<<p[1] + d[1], p[2] + d[2]>>, Q) = Where(p, P)
                       /\ \A i \in 1..2 : k[i] = c[i] + 3 * d[i] * Area2(P)
\* cutting along a diagonal inside gives two parts that cover the polygon and do not overlap
Diagonal(i, j) == /\ i < j /\ j - i > 1 /\ ~(i = 1 /\ j = n)
                  /\ \A k \in 1..n : {k, Nxt(k, n)} \cap {i, j} = {} => ~Meet(P[i], P[j], P[k], P[Nxt(k, n)])
                  /\ \A k \in (1..n) \ {i, j} : ~OnSegment(P[k], P[i], P[j]) /\ ~OnSegment(P[i], P[j], P[k]) /\ ~OnSegment(P[j], P[i], P[k])
                  /\ LET D == Scaled(P, 2) IN Where(<<P[i][1] + P[j][1], P[i][2] + P[j][2]>>, D) = "in"
Parting == Simple => \A i, j \in 1..n : Diagonal(i, j) =>
    LET A == SubSeq(P, i, j)
        B == SubSeq(P, j, n) \o SubSeq(P, 1, i)
    IN /\ Area2(A) + Area2(B) = Area2(P) /\ Sgn(Area2(A)) = Sgn(Area2(P)) /\ Sgn(Area2(B)) = Sgn(Area2(P))
       /\ \A p \in Points : LET a == Where(p, A) b == Where(p, B)
                            IN /\ ~(a = "in" /\ b = "in") /\ ~(a = "in" /\ b = "on") /\ ~(a = "on" /\ b = "in")
                               /\ (Where(p, P) = "out") <=> (a = "out" /\ b = "out")
\* two rings of which one lies in the other: the hole is out
Hole == Simple => LET big == <<<<-1, -1>>, <<Width + 1, -1>>, <<Width + 1, Height + 1>>, <<-1, Height + 1>>>>
                  IN \A p \in Points : WhereIn(p, <<big, P>>) = (IF Where(p, P) = "in" THEN "out" ELSE IF Where(p, P) = "out" THEN "in" ELSE "on")
\* refining sides of whole length adds nodes on them and keeps the polygon; the two ways round make all of it
Axis == \A i \in 1..n : P[i][1] = P[Nxt(i, n)][1] \/ P[i][2] = P[Nxt(i, n)][2]
Refining == (Simple /\ Axis) =>
    LET D == Scaled(P, 12)
    IN /\ \A S \in SUBSET (1..n) : \A d \in {3, 4, 6, 12, 50} :
            LET R == Refined(D, S, d, 1)
                Q == SubSeq(R, 1, Len(R) - 1)
            IN /\ R[Len(R)] = D[1] /\ Area2(Q) = Area2(D) /\ \A i \in 1..n : \E k \in DOMAIN Q : Q[k] = D[i]
               /\ \A k \in DOMAIN Q : OnBoundary(Q[k], D)
               /\ \A k, m \in DOMAIN Q : k # m => Q[k] # Q[m]
       /\ \A i, j \in 1..n : i # j => SidesBetween(P, i, j) \cup SidesBetween(P, j, i) = 1..n /\ SidesBetween(P, i, j) \cap SidesBetween(P, j, i) = {}
\* the nearest points of a line are at the least distance of all lattice points on it
NearestSound == (n > 1 /\ \A i \in 1..(n - 1) : P[i][1] = P[i + 1][1] \/ P[i][2] = P[i + 1][2]) =>
    \A p \in Points : LET N == Nearest(p, <<P>>)
                          on == {q \in Points : \E i \in 1..(n - 1) : OnSegment(q, P[i], P[i + 1])}
                      IN N = {q \in on : \A r \in on : Dist2(p, q) <= Dist2(p, r)}
\* crossing is symmetric, in the order of the segments and of their ends
Symmetric == (n = 4) => LET a == P[1] b == P[2] c == P[3] d == P[4]
                        IN \A f \in {Meet(a, b, c, d)} : f = Meet(c, d, a, b) /\ f = Meet(b, a, c, d) /\ f = Meet(a, b, d, c)
=============================================================================
