---------------------------- MODULE Interp ----------------------------
(* What interpolation methods of pyg2p guarantee, for one execution: values of a field on source points, target
   points, values produced on the target.

   Points are tuples <<x, y, z, la, lo>>: integer cartesian coordinates on the sphere (the unit of length is chosen so that
   squared distances fit 32 bits), latitude and longitude (0..35999) in hundredths of degree. Values are hundredths;
   MISS is the missing value. *)
EXTENDS Integers, Sequences, FiniteSets

MISS == 2000000000

Abs(x) == IF x < 0 THEN -x ELSE x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Lower(a, b) == IF a < b THEN a ELSE b
Higher(a, b) == IF a > b THEN a ELSE b

RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2 IN IF m <= n \div m THEN Root(n, m, hi) ELSE Root(n, lo, m)
ISqrt(n) == IF n < 1 THEN 0 ELSE Root(n, 1, 46341)

Dist2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]) + (a[3] - b[3]) * (a[3] - b[3])
\* coordinates are rounded: error of a squared distance
Slack(d2) == 4 * (ISqrt(d2) + 2)

LonDiff(a, b) == LET d == Abs(a - b) % 36000 IN IF d > 18000 THEN 36000 - d ELSE d

RECURSIVE Fold(_, _, _, _)
Fold(op(_, _), f, i, acc) == IF i = 0 THEN acc ELSE Fold(op, f, i - 1, op(acc, f[i]))
Sum(f, n) == Fold(LAMBDA a, b : a + b, f, n, 0)
MinSeq(f, n) == Fold(Lower, f, n, 2147483647)
MaxSeq(f, n) == Fold(Higher, f, n, -2147483647)

\* k smallest of function D on 1..n (one by one, ties broken by index)
RECURSIVE KNearest(_, _, _, _)
KNearest(D, n, k, acc) ==
  IF k = 0 \/ Cardinality(acc) = n THEN acc
  ELSE LET m == MinOf({D[i] : i \in (1 .. n) \ acc})
           i == CHOOSE j \in (1 .. n) \ acc : D[j] = m
       IN KNearest(D, n, k - 1, acc \cup {i})

-----------------------------------------------------------------------
(* Resolution of a source grid: the largest distance of a point from its nearest one (squared) *)
Resolution2(r) ==
  LET n == Len(r.src)
  IN MaxSeq([i \in 1 .. n |-> MinSeq([j \in 1 .. n |-> IF i = j THEN 2147483647 ELSE Dist2(r.src[i], r.src[j])], n)], n)

\* a target having a source point not farther than the resolution is covered; one farther than 1 + 4/nj times is not
Near(d2, res2) == d2 + 2 * Slack(d2) <= res2
Far(d2, res2, nj) == ISqrt(d2) * nj > (ISqrt(res2) + 4) * (nj + 4) + 4 * nj

Distance == {"nearest", "invdist", "adw", "cdd"}
Unlimited == {"adw", "cdd"}
Linear == {"bilinear", "triangulation", "bilinear_delaunay"}
Native == {"grib_nearest", "grib_invdist"}

\* position of a target in the box of a regular source: 1 strictly inside, 0 on the border, -1 outside
Lats(r) == {r.src[i][4] : i \in 1 .. Len(r.src)}
LatPos(r, t) == LET L == Lats(r) IN IF t[4] > MinOf(L) /\ t[4] < MaxOf(L) THEN 1 ELSE IF t[4] \in {MinOf(L), MaxOf(L)} THEN 0 ELSE -1
LonPos(r, t) ==
  LET first == r.src[1][5]
      last == r.src[Len(r.src)][5]
      span == (last - first) % 36000
      off == (t[5] - first) % 36000
  IN IF r.glob THEN 1 ELSE IF off > 0 /\ off < span THEN 1 ELSE IF off \in {0, span} THEN 0 ELSE -1
BoxPos(r, t) == Lower(LatPos(r, t), LonPos(r, t))

-----------------------------------------------------------------------
(* weights of the corners of the cell of a regular grid that contains the target: (1 - |dlat|/dla) * (1 - |dlon|/dlo) *)
Hat(r, t) == [i \in 1 .. Len(r.src) |->
                LET a == r.dla - Abs(r.src[i][4] - t[4])
                    o == r.dlo - LonDiff(r.src[i][5], t[5])
                IN IF a <= 0 \/ o <= 0 THEN 0 ELSE a * o]
\* all the corners of cells containing the target, also the ones having no weight
Corners(r, t, k) == {i \in 1 .. Len(r.src) : Abs(r.src[i][4] - t[4]) <= k * r.dla /\ LonDiff(r.src[i][5], t[5]) <= k * r.dlo}

Bilinear(r, t, V) ==
  LET H == Hat(r, t)
      n == Len(r.src)
      q == Higher(1, (r.dla * r.dlo) \div 40000)
      W == [i \in 1 .. n |-> H[i] \div q]
  IN IF Sum(W, n) = 0 THEN 0 ELSE Sum([i \in 1 .. n |-> IF W[i] = 0 THEN 0 ELSE V[i] * W[i]], n) \div Sum(W, n)

\* values of the two possible triangulations of the cell; target in the cell having lowest corner <<la, lo>>
Triangles(r, t, V) ==
  LET C == Corners(r, t, 1)
      south == MinOf({r.src[i][4] : i \in C})
      At(dy, dx) == \* corner towards north/east
        LET P == {i \in C : r.src[i][4] = south + dy * r.dla
                         /\ (IF dx = 1 THEN (r.src[i][5] - t[5]) % 36000 <= r.dlo ELSE (t[5] - r.src[i][5]) % 36000 <= r.dlo)}
        IN V[CHOOSE i \in P : TRUE]
      fy == ((t[4] - south) * 1000) \div r.dla
      west == CHOOSE i \in C : (t[5] - r.src[i][5]) % 36000 <= r.dlo
      fx == (((t[5] - r.src[west][5]) % 36000) * 1000) \div r.dlo
      v00 == At(0, 0)
      v01 == At(0, 1)
      v10 == At(1, 0)
      v11 == At(1, 1)
      a == IF fx + fy <= 1000 THEN v00 * (1000 - fx - fy) + v01 * fx + v10 * fy ELSE v11 * (fx + fy - 1000) + v01 * (1000 - fy) + v10 * (1000 - fx)
      b == IF fx >= fy THEN v00 * (1000 - fx) + v01 * (fx - fy) + v11 * fy ELSE v00 * (1000 - fy) + v10 * (fy - fx) + v11 * fx
  IN {a \div 1000, b \div 1000}

\* inverse distance weights (power 1 or 2) of points S
InvDist(D, S, V, power) ==
  LET order == CHOOSE f \in [1 .. Cardinality(S) -> S] : \A i, j \in 1 .. Cardinality(S) : i # j => f[i] # f[j]
      n == Cardinality(S)
      dm == MinOf({D[i] : i \in S})
      dx == MaxOf({D[i] : i \in S})
      q == Higher(1, dx \div 1000000)
      m == dm \div q
      \* squared: ratio of squared distances. Simple: ratio of distances
      W == [k \in 1 .. n |-> IF power = 2 THEN (m * 1000) \div Higher(1, D[order[k]] \div q)
                             ELSE (ISqrt(dm) * 1000) \div Higher(1, ISqrt(D[order[k]]))]
  IN IF Sum(W, n) = 0 THEN V[CHOOSE i \in S : D[i] = dm] ELSE Sum([k \in 1 .. n |-> W[k] * V[order[k]]], n) \div Sum(W, n)

-----------------------------------------------------------------------
Range(V, S) == LET X == {V[i] : i \in S} \ {MISS} IN IF X = {} THEN 0 ELSE MaxOf(X) - MinOf(X)
Within(x, V, S, tol) == LET X == {V[i] : i \in S} \ {MISS} IN X # {} /\ x >= MinOf(X) - tol /\ x <= MaxOf(X) + tol
Close(x, y, tol) == Abs(x - y) <= tol

(* Clauses broken by value x of a target point t: source values V, D squared distances of source points, res2 resolution *)
CellClauses(r, t, V, x, res2) ==
  LET n == Len(r.src)
      D == [i \in 1 .. n |-> Dist2(r.src[i], t)]
      dm == MinSeq(D, n)
      \* points that can be used as the k nearest ones, the ones that must be
      K == KNearest(D, n, r.knear, {})
      dk == MaxOf({D[i] : i \in K})
      May == {i \in 1 .. n : D[i] <= dk + 2 * Slack(dk)}
      Must == {i \in K : Cardinality({j \in 1 .. n : D[j] <= D[i] + 2 * Slack(D[i])}) <= r.knear}
      clear == Cardinality(May) = r.knear
      anymiss(S) == \E i \in S : V[i] = MISS
      far == Far(dm, res2, r.nj)
      near == Near(dm, res2)
      \* a target is on a source point when no digit of the coordinates tells them apart
      on == {i \in 1 .. n : r.src[i] = t}
      H == Hat(r, t)
      Used == {i \in 1 .. n : H[i] > 0}
      miss == x = MISS
  IN
  CASE r.mode = "nearest" ->
         (IF far /\ ~miss THEN {"made"} ELSE {})
         \cup (IF near /\ miss /\ ~anymiss(May) THEN {"lost"} ELSE {})
         \cup (IF ~miss /\ ~(\E i \in May : V[i] = x) THEN {"values"} ELSE {})
    [] r.mode = "invdist" ->
         (IF (far \/ anymiss(Must)) /\ ~miss THEN {"made"} ELSE {})
         \cup (IF near /\ miss /\ ~anymiss(May) THEN {"lost"} ELSE {})
         \cup (IF miss THEN {}
               ELSE IF clear /\ ~anymiss(May)
               THEN (IF Close(x, InvDist(D, May, V, 2), Range(V, May) \div 50 + 3) THEN {} ELSE {"values"})
               ELSE (IF Within(x, V, May, 3) THEN {} ELSE {"values"}))
         \cup (IF ~miss /\ on # {} /\ ~(\E i \in on : Close(x, V[i], Range(V, May) \div 50 + 3)) THEN {"onpoint"} ELSE {})
    [] r.mode \in {"adw", "cdd"} ->
         (IF anymiss(Must) /\ ~miss THEN {"made"} ELSE {})
         \cup (IF r.mode = "adw" /\ miss /\ ~anymiss(May) THEN {"lost"} ELSE {})
         \cup (IF miss \/ Within(x, V, May, 3) THEN {} ELSE {"values"})
         \cup (IF r.mode = "adw" /\ ~miss /\ on # {} /\ ~(\E i \in on : Close(x, V[i], Range(V, May) \div 50 + 3)) THEN {"onpoint"} ELSE {})
    [] r.mode \in Linear /\ r.reg ->
         LET pos == BoxPos(r, t)
             reach == IF r.mode = "bilinear_delaunay" THEN 2 ELSE 1
             \* around the poles of a global grid (all the points of the pole are the same) corners are not specified
             polar == r.glob /\ (LatPos(r, t) # 1 \/ Abs(t[4]) > 9000 - r.dla)
             cell == Corners(r, t, 1)
             corners == IF polar THEN {i \in 1 .. n : Abs(r.src[i][4] - t[4]) <= r.dla} ELSE Corners(r, t, reach)
         IN
         (IF ~r.glob /\ pos = -1 /\ ~miss THEN {"made"} ELSE {})
         \cup (IF r.mode = "bilinear" /\ pos = 1 /\ ~polar /\ ~miss /\ anymiss(Used) THEN {"made"} ELSE {})
         \cup (IF pos = 1 /\ ~polar /\ miss /\ near /\ ~anymiss(corners) THEN {"lost"} ELSE {})
         \cup (IF miss \/ Within(x, V, IF pos = -1 THEN 1 .. n ELSE corners, 3) THEN {} ELSE {"values"})
         \cup (IF pos = 1 /\ ~polar /\ ~miss /\ (r.mode = "bilinear" \/ r.aff) /\ ~anymiss(Used)
               THEN (IF Close(x, Bilinear(r, t, V), Range(V, cell) \div 50 + 3) THEN {} ELSE {"linear"}) ELSE {})
         \cup (IF pos = 1 /\ ~polar /\ ~miss /\ r.mode = "triangulation" /\ ~anymiss(cell) /\ Cardinality(cell) = 4 /\ r.dla <= 200
               THEN (IF \E y \in Triangles(r, t, V) : Close(x, y, Range(V, cell) \div 40 + 3) THEN {} ELSE {"linear"}) ELSE {})
    [] r.mode \in Linear ->
         (IF far /\ ~miss THEN {"made"} ELSE {})
         \cup (IF miss \/ Within(x, V, {i \in 1 .. n : ISqrt(D[i]) <= 3 * ISqrt(res2)}, 3) THEN {} ELSE {"values"})
    [] r.mode \in Native ->
         LET \* ecCodes does not look for targets in a regional grid crossing longitude 0 as in the other ones
             crossing == r.reg /\ ~r.glob /\ r.src[1][5] > r.src[n][5]
             pos == IF r.reg THEN BoxPos(r, t) ELSE 0
             C == IF r.reg THEN Corners(r, t, 1) ELSE May
         IN
         IF crossing THEN (IF miss \/ Within(x, V, 1 .. n, 3) THEN {} ELSE {"values"}) ELSE
         (IF r.reg /\ pos = -1 /\ ~r.glob /\ far /\ ~miss THEN {"made"} ELSE {})
         \cup (IF pos = 1 /\ miss /\ ~anymiss(C) THEN {"lost"} ELSE {})
         \cup (IF miss THEN {}
               ELSE IF r.mode = "grib_nearest" THEN (IF \E i \in May : V[i] = x THEN {} ELSE {"values"})
               ELSE IF pos = 1 /\ Cardinality(C) = 4 /\ ~anymiss(C)
               THEN (IF Close(x, InvDist(D, C, V, 1), Range(V, C) \div 50 + 3) THEN {} ELSE {"values"})
               ELSE (IF Within(x, V, IF pos = 1 THEN C ELSE 1 .. n, 3) THEN {} ELSE {"values"}))
         \cup (IF r.mode = "grib_invdist" /\ ~miss /\ on # {} /\ ~(\E i \in on : Close(x, V[i], Range(V, May) \div 50 + 3)) THEN {"onpoint"} ELSE {})

Clauses(r) ==
  (IF r.rc # 0 THEN {"exitcode"} ELSE {})
  \cup (IF r.rc = 0 /\ Len(r.maps) # Len(r.vals) THEN {"count"} ELSE {})
  \cup (IF Len(r.maps) # Len(r.vals) THEN {}
        ELSE LET res2 == Resolution2(r)
             IN UNION {IF Len(r.maps[k]) # Len(r.tgt) THEN {"shape"}
                       ELSE UNION {CellClauses(r, r.tgt[c], r.vals[k], r.maps[k][c], res2) : c \in 1 .. Len(r.tgt)}
                       : k \in 1 .. Len(r.maps)})

-----------------------------------------------------------------------
(* The same targets in another order and convention of longitudes (cell perm[c] of the second target is the cell c of the
   first one) have the same values, where neighbours are determined. *)
Clear(r, t) ==
  LET n == Len(r.src)
      D == [i \in 1 .. n |-> Dist2(r.src[i], t)]
      K == KNearest(D, n, r.knear, {})
      dk == MaxOf({D[i] : i \in K})
      dm == MinSeq(D, n)
      res2 == Resolution2(r)
  IN /\ Cardinality({i \in 1 .. n : D[i] <= dk + 2 * Slack(dk)}) = r.knear
     /\ Near(dm, res2) \/ Far(dm, res2, r.nj)
RelationClauses(r) ==
  IF r.perm = <<>> \/ r.mode \notin Distance THEN {}
  ELSE IF r.rc2 # r.rc \/ Len(r.maps2) # Len(r.maps) THEN {"convention"}
  ELSE IF \E k \in 1 .. Len(r.maps) : Len(r.maps2[k]) # Len(r.maps[k]) THEN {"convention"}
  ELSE IF \E c \in 1 .. Len(r.tgt) : Clear(r, r.tgt[c])
            /\ \E k \in 1 .. Len(r.maps) : ~Close(r.maps[k][c], r.maps2[k][r.perm[c]], 2)
       THEN {"convention"} ELSE {}
=======================================================================
