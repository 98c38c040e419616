-------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* Splines, curvilinear grids generated from splines, on circles and in    *)
(* triangles, the measures of a grid, and meshes on the globe.  A grid is  *)
(* a sequence of lines of nodes, a missing node is empty.  Coordinates are *)
(* fixed point numbers; tolerances are given where rounding enters.        *)
(***************************************************************************)
EXTENDS Plane

Set(s) == {s[i] : i \in DOMAIN s}
Tame(p) == p = <<>> \/ (Abs(p[1]) < 60000 /\ Abs(p[2]) < 60000)
AllTame(G) == \A i \in DOMAIN G : \A j \in DOMAIN G[i] : Tame(G[i][j])
Full(G, n, m) == Len(G) = n /\ \A i \in DOMAIN G : Len(G[i]) = m /\ \A j \in DOMAIN G[i] : G[i][j] # <<>>
RECURSIVE Total(_, _)
Total(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Total(S \ {x}, f)
Cr(a, b) == a[1] * b[2] - a[2] * b[1]
Dt(a, b) == a[1] * b[1] + a[2] * b[2]
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Power(a, k) == IF k = 0 THEN 1 ELSE a * (IF k = 1 THEN 1 ELSE a * (IF k = 2 THEN 1 ELSE a * (IF k = 3 THEN 1 ELSE a * (IF k = 4 THEN 1 ELSE a))))

\* ---- measures.  The three consecutive nodes at place i, j in direction d (0: along the second index)
Three(G, d, i, j) ==
    LET a == IF d = 0 THEN <<i, j - 1>> ELSE <<i - 1, j>>
        b == IF d = 0 THEN <<i, j + 1>> ELSE <<i + 1, j>>
        in(x) == x[1] \in DOMAIN G /\ x[2] \in DOMAIN G[1] /\ G[x[1]][x[2]] # <<>>
    IN IF in(a) /\ in(b) /\ G[i][j] # <<>> THEN <<G[a[1]][a[2]], G[i][j], G[b[1]][b[2]]>> ELSE <<>>
\* smoothness: the ratio of consecutive steps, the larger over the smaller (in hundredths); -1: none
Smooth(T, s) ==
    IF T = <<>> THEN s = -1
    ELSE LET p == Dist2(T[1], T[2])
             q == Dist2(T[2], T[3])
             lo == Min2(p, q)
             hi == Max2(p, q)
         IN IF lo = 0 THEN s = 100 ELSE s >= 99 /\ s < 20000 /\ Abs(s * s * lo - 10000 * hi) <= (2 * s + 2) * lo
\* curvature, as the radius (in hundredths) it is the inverse of: the first step over the tangent of the angle at the
\* third node; flat where the nodes are in line or that angle is right
FlatRadius == 99999900
Bend(T, r) ==
    IF T = <<>> THEN r = -1
    ELSE LET a == Abs(Cross(T[1], T[2], T[3]))
             c == Abs(Dt(Sub(T[3], T[2]), Sub(T[3], T[1])))
             l == Dist2(T[1], T[2])
         IN IF a = 0 \/ c = 0 \/ l = 0 THEN Abs(r - FlatRadius) <= 100
            ELSE r >= 0 /\ r < 46000 /\ Abs(r * a * r * a - 10000 * l * c * c) <= (2 * r + 2) * a * a
MeasureOk(e) ==
    /\ e.ok /\ Len(e.S) = Len(e.G) /\ Len(e.R) = Len(e.G)
    /\ \A i \in DOMAIN e.G : \A j \in DOMAIN e.G[i] : LET T == Three(e.G, e.d, i, j) IN Smooth(T, e.S[i][j]) /\ Bend(T, e.R[i][j])

\* ---- circular grids: spokes turn clockwise from the first by the angle of cosine t1/t3 and sine t2/t3; u: the first spoke
RECURSIVE Spoke(_, _, _)
Spoke(u, t, k) == IF k = 0 THEN <<u[1], u[2]>> ELSE LET p == Spoke(u, t, k - 1) IN <<p[1] * t[1] + p[2] * t[2], p[2] * t[1] - p[1] * t[2]>>
CircleOk(e) ==
    /\ AllTame(e.G) /\ Full(e.G, e.rows + 1, e.cols + 1)
    /\ \A j \in 0..e.cols :
         LET p == Spoke(e.u, e.t, j)
             h == e.u[3] * Power(e.t[3], j)
         IN \A i \in 0..e.rows :
              LET r == e.r + i * e.dy
                  g == Sub(e.G[i + 1][j + 1], e.o)
              IN Abs(g[1] * h - r * p[1]) <= 2 * h /\ Abs(g[2] * h - r * p[2]) <= 2 * h
\* without a radius: rows and columns at right angles; columns of one size, or falling geometrically from both ends to the middle
GradedOk(e) ==
    LET h == e.u[3]
        c == e.cols
        u == <<e.u[1], e.u[2]>>
        v == <<-e.u[2], e.u[1]>>
        x(i, j) == Dt(Sub(e.G[i][j], e.o), u) \div h
        y(i, j) == Dt(Sub(e.G[i][j], e.o), v) \div h
        W == TLCEval([j \in 1..c |-> x(1, j + 1) - x(1, j)])
    IN /\ AllTame(e.G) /\ Full(e.G, e.rows + 1, c + 1)
       /\ Abs(x(1, 1)) <= 2
       /\ \A i \in 1..(e.rows + 1), j \in 1..(c + 1) : Abs(x(i, j) - x(1, j)) <= 4 /\ Abs(y(i, j) - (i - 1) * e.by) <= 4
       /\ IF e.even = 1 THEN \A j \in 1..(c + 1) : Abs(x(1, j) - (j - 1) * e.bx) <= 4
          ELSE /\ \A j \in 1..c : W[j] >= e.bx - 4 /\ W[j] <= e.big * e.bx + 4 /\ Abs(W[j] - W[c + 1 - j]) <= 6
               /\ \A j \in 1..(c - 1) : 2 * j < c => W[j] >= W[j + 1] - 4
               /\ \A j \in 1..(c - 2) : (2 * j + 3 <= c /\ W[j + 1] > e.bx + 8) => Abs(W[j + 1] * W[j + 1] - W[j] * W[j + 2]) <= 16 * W[j]

\* ---- grids between straight splines that cross: nodes at the crossings, with the asked number of steps in between, on
\* straight lines, in order; evenly spaced where the splines are
CrossOk(e) ==
    LET D == Cr(e.u, e.v)
        tol == 2 * (Abs(e.u[1]) + Abs(e.u[2]) + Abs(e.v[1]) + Abs(e.v[2]))
        a(p) == Cr(Sub(p, e.o), e.v)
        b(p) == Cr(e.u, Sub(p, e.o))
        at(t, i, j) == IF t THEN e.G[i][j] ELSE e.G[j][i]
        rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
        even(K) == \A i \in 1..(Len(K) - 1) : K[i + 1] - K[i] = K[2] - K[1]
        steps(K, m, V) ==
            /\ Len(V) = (Len(K) - 1) * m + 1
            /\ \A i \in DOMAIN K : Abs(K[i] * D - V[(i - 1) * m + 1]) <= tol
            /\ \A i \in 1..(Len(V) - 1) : Sgn(V[i + 1] - V[i]) = Sgn(K[2] - K[1]) * Sgn(D)
            /\ even(K) => \A i \in DOMAIN V : Abs(m * V[i] - (m * K[1] + (i - 1) * (K[2] - K[1])) * D) <= 2 * m * tol
        fits(t, X, m, Y, n) ==
            LET w == (Len(X) - 1) * m + 1
                k == (Len(Y) - 1) * n + 1
            IN /\ Full(e.G, IF t THEN w ELSE k, IF t THEN k ELSE w)
               /\ steps(X, m, [i \in 1..w |-> a(at(t, i, 1))]) /\ steps(Y, n, [j \in 1..k |-> b(at(t, 1, j))])
               /\ \A i \in 1..w, j \in 1..k : Abs(a(at(t, i, j)) - a(at(t, i, 1))) <= 2 * tol /\ Abs(b(at(t, i, j)) - b(at(t, 1, j))) <= 2 * tol
    IN AllTame(e.G) /\ \E m \in {<<e.m, e.n>>, <<e.n, e.m>>}, t \in BOOLEAN, X \in {e.X, rev(e.X)}, Y \in {e.Y, rev(e.Y)} : fits(t, X, m[1], Y, m[2])

\* ---- grown from a straight centre line along splines at right angles: a rectangle of even columns no wider than asked, at most m
\* of them; layers on both sides up to the ends of the splines, the first of the asked shape and the next ones growing at one rate
OrthoOk(e) ==
    LET h == e.u[3]
        u == <<e.u[1], e.u[2]>>
        v == <<-e.u[2], e.u[1]>>
        X == TLCEval([i \in DOMAIN e.G |-> [j \in DOMAIN e.G[1] |-> Dt(Sub(e.G[i][j], e.o), u) \div h]])
        Y == TLCEval([i \in DOMAIN e.G |-> [j \in DOMAIN e.G[1] |-> Dt(Sub(e.G[i][j], e.o), v) \div h]])
        k == Len(e.G) - 1
        q == Len(e.G[1])
        cols == Min2(e.m, e.L \div (100 * e.w) + 1)       \* the width never divides the length: a tie is left to rounding
        along(r) == \A i \in 0..k, j \in 1..q : Abs(k * X[i + 1][j] - e.L * (IF r THEN k - i ELSE i)) <= 4 * k
        level == \A i \in 1..(k + 1), j \in 1..q : Abs(Y[i][j] - Y[1][j]) <= 4
        y == IF Y[1][1] < Y[1][q] THEN Y[1] ELSE [j \in 1..q |-> Y[1][q + 1 - j]]
        zero == {j \in 1..q : Abs(y[j]) <= 2}
        near(r) == r < 25 * e.a * e.w + 10        \* no room for two layers
        grows(D) == /\ \A i \in DOMAIN D : D[i] > 0
                    /\ Len(D) > 1 => Abs(10 * D[1] - 100 * e.a * e.w) <= 40
                    /\ \A i \in 2..(Len(D) - 1) : Abs(D[i] * D[i] - D[i - 1] * D[i + 1]) <= 4 * (D[i - 1] + 2 * D[i] + D[i + 1])
    IN /\ e.G # <<>> /\ AllTame(e.G) /\ Full(e.G, k + 1, q)
       /\ k = cols /\ (along(TRUE) \/ along(FALSE)) /\ level
       /\ zero # {}
       /\ y[1] >= -e.lo - 4 /\ y[q] <= e.up + 4
       /\ (\E j \in zero : j < 3 /\ near(e.lo)) \/ Abs(y[1] + e.lo) <= 4
       /\ (\E j \in zero : j > q - 2 /\ near(e.up)) \/ Abs(y[q] - e.up) <= 4
       /\ LET z == CHOOSE j \in zero : TRUE
          IN /\ grows([i \in 1..(q - z) |-> y[z + i] - y[z + i - 1]])
             /\ grows([i \in 1..(z - 1) |-> y[z + 1 - i] - y[z - i]])

\* ---- the natural cubic spline through two to four points: ten times its second derivative at the points (one coordinate)
Second(y) ==
    LET d(i) == y[i + 1] - 2 * y[i] + y[i - 1]
    IN CASE Len(y) = 2 -> <<0, 0>>
         [] Len(y) = 3 -> <<0, 15 * d(2), 0>>
         [] Len(y) = 4 -> <<0, 4 * (4 * d(2) - d(3)), 4 * (4 * d(3) - d(2)), 0>>
\* sixty K^3 times the value p/K of the way from point i to the next
SplineAt(y, i, p, K) ==
    LET w == Second(y)
        q == K - p
    IN 60 * K * K * (q * y[i] + p * y[i + 1]) + (q * q * q - q * K * K) * w[i] + (p * p * p - p * K * K) * w[i + 1]
PointsOk(e) ==
    LET K == e.q + 1
        c(t, x) == [i \in DOMAIN t |-> t[i][x]]
        near(v, t, x, i, p) == Abs(v * 60 * K * K * K - SplineAt(c(t, x), i, p, K)) <= 60 * K * K * K
    IN /\ e.ok /\ Len(e.Q) = Len(e.L)
       /\ \A s \in DOMAIN e.L :
            LET t == e.L[s]
                q == e.Q[s]
                n == Len(t)
            IN /\ Len(q) = n + (n - 1) * e.q /\ \A r \in DOMAIN q : q[r] # <<>> /\ Tame(q[r])
               /\ q[Len(q)] = t[n]
               /\ \A i \in 1..(n - 1), p \in 0..e.q : LET r == (i - 1) * K + p + 1 IN near(q[r][1], t, 1, i, p) /\ near(q[r][2], t, 2, i, p)

\* ---- one spline snapped to a straight land boundary: its points on it, in their order; the other splines where they were
ShoreOk(e) ==
    LET h == e.u[3]
        u == <<e.u[1], e.u[2]>>
        v == <<-e.u[2], e.u[1]>>
        n == Len(e.Q[e.q])
        S == e.Q[e.q]
    IN /\ e.ok /\ \A i \in DOMAIN e.L : i # e.q => e.Q[i] = e.L[i]
       /\ \A i \in 1..n : S[i] # <<>> /\ Tame(S[i]) /\ Abs(Dt(Sub(S[i], e.o), v)) <= 10 * h
       /\ \A i \in 1..(n - 1) : Dt(Sub(S[i + 1], S[i]), u) > 0
       /\ \A i \in 1..n : Abs(Dt(Sub(S[i], e.L[e.q][i]), u)) <= 1500 * h

\* ---- three blocks in a triangle: cells of one orientation that fill it exactly, nodes on all given border points
Cells(G) == {x \in (1..(Len(G) - 1)) \X (1..(Len(G[1]) - 1)) : G[x[1]][x[2]] # <<>> /\ G[x[1] + 1][x[2]] # <<>> /\ G[x[1]][x[2] + 1] # <<>> /\ G[x[1] + 1][x[2] + 1] # <<>>}
TriangleOk(e) ==
    LET o == e.T[1]
        ar(x) == LET p(i, j) == Sub(e.G[x[1] + i][x[2] + j], o) IN Area2(<<p(0, 0), p(0, 1), p(1, 1), p(1, 0)>>)
        C == Cells(e.G)
        F == TLCEval([x \in C |-> ar(x)])
        all == Cross(e.T[1], e.T[2], e.T[3])
        nodes == {e.G[i][j] : i \in DOMAIN e.G, j \in DOMAIN e.G[1]} \ {<<>>}
        near(p, q) == Abs(p[1] - q[1]) <= 1 /\ Abs(p[2] - q[2]) <= 1
        side(p, i) == LET a == e.T[i] b == e.T[Nxt(i, 3)] IN Sgn(all) * Cross(a, b, p) >= -4 * (Abs(b[1] - a[1]) + Abs(b[2] - a[2]))
    IN /\ e.G # <<>> /\ AllTame(e.G)
       /\ \A b \in Set(e.B) : \E p \in nodes : near(b, p)
       /\ \A p \in nodes : \A i \in 1..3 : side(p, i)
       /\ \A x, y \in C : F[x] # 0 /\ Sgn(F[x]) = Sgn(F[y])
       /\ Abs(Abs(Total(C, F)) - Abs(all)) * 200 <= Abs(all)

\* ---- the globe: circles of latitude, mirrored at the equator, with nodes at equal distances; towards the poles the distance
\* may double
GlobeOk(e) ==
    LET N == {i \in DOMAIN e.N : e.N[i] # <<>>}
        lats == {e.N[i][2] : i \in N}
        far == {y \in lats : Abs(y) < 90000}
        turn(x) == x % 360000
        On == TLCEval([y \in lats |-> {e.N[i][1] : i \in {k \in N : e.N[k][2] = y}}])
        n(y) == Cardinality(On[y])
        step(y) == 360000 \div n(y)
        next(y) == {z \in far : z > y /\ ~\E x \in far : y < x /\ x < z}
        pairs == {<<y, z>> \in far \X far : z \in next(y)}
        E == {x \in DOMAIN e.E : e.E[x] # <<0, 0>> /\ e.N[e.E[x][1]][2] \in far /\ e.N[e.E[x][2]][2] \in far}
    IN /\ \A i, j \in N : i < j => e.N[i] # e.N[j]
       /\ 0 \in lats /\ \A y \in lats : -y \in lats /\ Abs(y) <= 90000
       /\ Cardinality(lats) <= 2 * e.lat + 1
       /\ n(0) = e.lon
       /\ \A y \in far : n(y) = n(-y) /\ {turn(x) : x \in On[y]} = {turn(-180000 + k * step(y)) : k \in 0..(n(y) - 1)}
       /\ \A p \in pairs : n(p[1]) = n(p[2]) \/ n(p[1]) = 2 * n(p[2]) \/ n(p[2]) = 2 * n(p[1])
       /\ \A y, z \in far : (0 <= y /\ y < z) => n(y) >= n(z)
       /\ \A x \in E :
            LET p == e.N[e.E[x][1]]
                q == e.N[e.E[x][2]]
            IN \/ p[2] = q[2] /\ turn(p[1] - q[1]) \in {step(p[2]), 360000 - step(p[2])}
               \/ (<<p[2], q[2]>> \in pairs \/ <<q[2], p[2]>> \in pairs) /\ turn(p[1]) = turn(q[1])
       /\ Cardinality(E) = Total(far, [y \in far |-> n(y)]) + Total(pairs, [p \in pairs |-> Min2(n(p[1]), n(p[2]))])

\* ---- to the globe and back: same links, same places, and on the globe east stays east, north stays north, a minute stays a mile
ProjectOk(e) ==
    LET n == Len(e.A)
        V == {i \in 1..n : Abs(e.A[i][1]) < 60000000}
    IN /\ e.p = <<1, 0>> /\ Len(e.B) = n /\ Len(e.C) = n
       /\ e.E[1] = e.E[2] /\ e.E[1] = e.E[3]
       /\ \A i \in V : Abs(e.A[i][1] - e.C[i][1]) <= 1 /\ Abs(e.A[i][2] - e.C[i][2]) <= 1
       /\ \A i, j \in V :
            /\ (e.A[i][2] = e.A[j][2] /\ e.A[i][1] < e.A[j][1]) => e.B[i][1] < e.B[j][1]
            /\ (e.A[i][1] = e.A[j][1] /\ e.A[i][2] < e.A[j][2]) =>
                 LET dy == e.A[j][2] - e.A[i][2]
                     dl == e.B[j][2] - e.B[i][2]
                 IN dl > 0 /\ Abs(dl * 111 - dy) <= dy \div 50 + 300
=============================================================================
