---------------------------- MODULE Weights ----------------------------
(* Weights of the angular distance method (Shepard 1968) and of the correlation decay methods (Hofstra et al. 2008, New et al.
   2000, the mix of Hofstra and Shepard with its options), as described in the code and in its documentation: the value of a target is the mean
   of the 11 nearest source points, weighted by

     adw      s^2 * (1 + T)      s = 1/d up to r/3, 27/(4r) * (d/r - 1)^2 up to r, 0 beyond;
                                 r is the distance of the 5th point if less than 4 are within the reference radius, the one of
                                 the 11th if at least 10 are, the reference radius otherwise; the reference radius is the mean of
                                 the distances of the 7th points of all the targets
     cdd      s * (1 + T / sum of all T)
       Hofstra            s = exp(-4 d / cdd) up to cdd, 0 beyond; the cell is missing if less than 3 points are within cdd
       MixHofstraShepard  s = exp(-m d / r) up to q r, exp(-m q) / (q - 1)^2 * (d/r - 1)^2 up to r, 0 beyond; r as in Shepard with
                          reference radius cdd and 4 replaced by the minimum number of stations
                          (OnlyTOP10 discards the smallest weight, which is 0: no point beyond r counts and the 11th is never within it)
       NewEtAl            as Hofstra, with the cdd of each source point, and no minimum number of points

   where T of a point is the mean over the other points, weighted by their s, of 1 - cosine of the angle between them seen from the
   target (in the plane of latitudes and longitudes).

   Fixed point arithmetic: distances are integers (unit of Interp.tla), weights are relative to the largest one. *)
EXTENDS Interp, TLC
CONSTANTS Directional   \* FALSE: weights that do not depend on directions (broken method, for WeightsMC)

\* 100000 * exp(-k / 20)
ExpTable == <<
  100000, 95123, 90484, 86071, 81873, 77880, 74082, 70469, 67032, 63763, 60653, 57695, 54881, 52205, 49659, 47237, 44933, 42741, 40657, 38674,
  36788, 34994, 33287, 31664, 30119, 28650, 27253, 25924, 24660, 23457, 22313, 21225, 20190, 19205, 18268, 17377, 16530, 15724, 14957, 14227,
  13534, 12873, 12246, 11648, 11080, 10540, 10026, 9537, 9072, 8629, 8208, 7808, 7427, 7065, 6721, 6393, 6081, 5784, 5502, 5234,
  4979, 4736, 4505, 4285, 4076, 3877, 3688, 3508, 3337, 3175, 3020, 2872, 2732, 2599, 2472, 2352, 2237, 2128, 2024, 1925,
  1832, 1742, 1657, 1576, 1500, 1426, 1357, 1291, 1228, 1168, 1111, 1057, 1005, 956, 910, 865, 823, 783, 745, 708,
  674, 641, 610, 580, 552, 525, 499, 475, 452, 430, 409, 389, 370, 352, 335, 318, 303, 288, 274, 261,
  248, 236, 224, 213, 203, 193, 184, 175, 166, 158, 150, 143, 136, 129, 123, 117, 111, 106, 101, 96,
  91, 87, 83, 78, 75, 71, 68, 64, 61, 58, 55, 53, 50, 48, 45, 43, 41, 39, 37, 35,
  34, 32, 30, 29, 27, 26, 25, 24, 22, 21, 20, 19, 18, 18, 17, 16, 15, 14, 14, 13,
  12, 12, 11, 11, 10, 10, 9, 9, 8, 8, 7, 7, 7, 6, 6, 6, 6, 5, 5, 5,
  5, 4, 4, 4, 4, 4, 3, 3, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2,
  2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1>>
\* 100000 * exp(-x / 1000)
Exp(x) == LET k == x \div 50
              f == x % 50
          IN IF k >= 239 THEN 0 ELSE ExpTable[k + 1] - ((ExpTable[k + 1] - ExpTable[k + 2]) * f) \div 50

-----------------------------------------------------------------------
K == 11

\* the k nearest points of squared distances D, in order of distance
RECURSIVE InOrder(_, _, _, _)
InOrder(D, S, k, acc) ==
  IF k = 0 \/ S = {} THEN acc
  ELSE LET m == MinOf({D[i] : i \in S})
           i == CHOOSE j \in S : D[j] = m
       IN InOrder(D, S \ {i}, k - 1, Append(acc, i))
Nearest(r, t) == LET D == TLCEval([i \in 1 .. Len(r.src) |-> Dist2(r.src[i], t)]) IN InOrder(D, 1 .. Len(r.src), K, <<>>)
\* is the next point not farther than the 11th (it can be taken in its place)
Tied(r, t) ==
  LET n == Len(r.src)
      D == TLCEval([i \in 1 .. n |-> Dist2(r.src[i], t)])
      o == InOrder(D, 1 .. n, K + 1, <<>>)
  IN n > K /\ D[o[K + 1]] <= D[o[K]] + 2 * Slack(D[o[K]])
Distances(r, t, o) == TLCEval([k \in 1 .. K |-> ISqrt(Dist2(r.src[o[k]], t))])

\* sequences of the distance part of weights, relative to the largest one
Relative(u, top) == LET m == MaxSeq(u, K) IN IF m = 0 THEN u ELSE [k \in 1 .. K |-> IF m > 200000 THEN ((u[k] \div 100) * top) \div Higher(1, m \div 100) ELSE (u[k] * top) \div m]

-----------------------------------------------------------------------
(* Distance part *)
Shepard(d, rad) == [k \in 1 .. K |->
  IF 3 * d[k] <= rad THEN 100 * Lower(1000000, (1000 * rad) \div Higher(1, d[k]))
  ELSE IF d[k] < rad THEN LET q == ((rad - d[k]) * 10000) \div rad IN (27 * q * q) \div 4000
  ELSE 0]
\* options: m in thousandths, ratio in thousandths
Mixed(d, rad, m, ratio) == [k \in 1 .. K |->
  IF 1000 * (d[k] \div 2) <= ratio * (rad \div 2) THEN Exp((m * ((d[k] * 1000) \div rad)) \div 1000)
  ELSE IF d[k] < rad THEN LET q == ((rad - d[k]) * 10000) \div rad
                              p == (q * 1000) \div (1000 - ratio)
                          IN (((Exp((m * ratio) \div 1000) * p) \div 10000) * p) \div 10000
  ELSE 0]
Decay(d, cdd, inside) == [k \in 1 .. K |-> IF k \in inside THEN Exp((4000 * ((d[k] * 1000) \div cdd[k])) \div 1000) ELSE 0]

\* radiuses: the ones near a limit can be considered within it or not
About(x) == 3 + x \div 400
Radiuses(d, ref, low, high) ==
  (IF d[low] >= ref - About(ref) THEN {d[low + 1]} ELSE {})
  \cup (IF d[low] <= ref + About(ref) /\ d[high] >= ref - About(ref) THEN {ref} ELSE {})
  \cup (IF d[low] <= ref + About(ref) /\ d[high] <= ref + About(ref) THEN {d[K]} ELSE {})

-----------------------------------------------------------------------
(* Directions *)
DLon(a, b) == LET x == ((a - b + 18000) % 36000) - 18000 IN IF x = -18000 THEN 18000 ELSE x
\* vectors from the points to the target, enlarged as much as products allow
Vectors(r, t, o) ==
  LET raw == TLCEval([k \in 1 .. K |-> <<t[4] - r.src[o[k]][4], DLon(t[5], r.src[o[k]][5])>>])
      m == MaxOf({Abs(raw[k][1]) : k \in 1 .. K} \cup {Abs(raw[k][2]) : k \in 1 .. K} \cup {1})
      f == Higher(1, 30000 \div m)
  IN TLCEval([k \in 1 .. K |-> <<raw[k][1] * f, raw[k][2] * f>>])
Length(v) == ISqrt(v[1] * v[1] + v[2] * v[2])
\* thousandths
Cosine(v, w, lv, lw) == LET p == (v[1] * w[1] + v[2] * w[2]) \div lv IN (p * 1000) \div lw

Turn(v, s) ==
  LET L == TLCEval([k \in 1 .. K |-> Higher(1, Length(v[k]))])
      rest == Sum(s, K)
  IN [i \in 1 .. K |->
       IF ~Directional \/ rest = s[i] THEN 1000
       ELSE Sum([j \in 1 .. K |-> IF j = i \/ s[j] = 0 THEN 0 ELSE (1000 - Cosine(v[i], v[j], L[i], L[j])) * s[j]], K) \div (rest - s[i])]

-----------------------------------------------------------------------
(* Weights (sum about 10000) *)
Scaled(x) == LET w == TLCEval(x)
                 q == Higher(1, Sum(w, K) \div 10000)
             IN TLCEval([k \in 1 .. K |-> w[k] \div q])
AngularWeights(v, u) ==
  LET s == TLCEval(Relative(TLCEval(u), 1000))
      T == TLCEval(Turn(v, s))
  IN Scaled([k \in 1 .. K |-> ((s[k] * s[k]) \div 100) * (1000 + T[k])])
DecayWeights(v, u) ==
  LET s == TLCEval(Relative(TLCEval(u), 10000))
      T == TLCEval(Turn(v, s))
      all == Higher(1, Sum(T, K))
  IN Scaled([k \in 1 .. K |-> s[k] * (1000 + (T[k] * 1000) \div all)])
Mean(w, o, V) == LET S == Sum(w, K) IN IF S = 0 THEN 0 ELSE Sum([k \in 1 .. K |-> w[k] * V[o[k]]], K) \div S

-----------------------------------------------------------------------
(* Values allowed for a target: [values: set of means, exact: the method determines them, missing: may, mustnot, must] *)
\* cells of the map of correlation distances around a source point (targets are a regular lattice)
Around(r, p) ==
  LET nr == r.rows
      nc == Len(r.tgt) \div r.rows
      a == r.tgt[1]
      dy == a[4] - r.tgt[1 + nc][4]
      dx == DLon(a[5], r.tgt[2][5])
      y == a[4] - p[4]
      \* (longitudes relative to the middle of the targets)
      half == (Abs(dx) * (nc - 1)) \div 2
      sgn == IF dx > 0 THEN 1 ELSE -1
      x0 == ((sgn * DLon(a[5], p[5])) - half) + 18000
      x == sgn * (((x0 % 36000) - 18000) + half)
      Low(n, m) == IF m > 0 THEN n \div m ELSE (-n) \div (-m)
      Clip(n, m) == Higher(0, Lower(n, m - 1))
      C(n, m, size) == {Clip(Low(n, m), size), Clip(Low(n, m) + 1, size), Clip(Low(n, m) - 1, size)}
      \* beyond the first or last column: which one is nearer depends on the convention of longitudes
      beyond == Low(x, dx) \notin 0 .. nc - 1
  IN {r.cdd[1 + nc * j + i] : j \in C(y, dy, nr), i \in C(x, dx, nc) \cup (IF beyond THEN {0, nc - 1} ELSE {})}

RefRadius(r) == Sum([c \in 1 .. Len(r.tgt) |-> Distances(r, r.tgt[c], Nearest(r, r.tgt[c]))[7]], Len(r.tgt)) \div Len(r.tgt)

Outcome(weights, missing) == [weights |-> weights, missing |-> missing]
Free == Outcome({}, "may")

Outcomes(r, c, ref) ==
  LET t == r.tgt[c]
      o == Nearest(r, t)
      d == Distances(r, t, o)
      v == Vectors(r, t, o)
      on == r.src[o[1]] = t
      tied == Tied(r, t)
  IN
  CASE r.mode = "adw" ->
         IF on THEN Outcome({[k \in 1 .. K |-> IF k = 1 THEN 10000 ELSE 0]}, "no")
         ELSE IF \E rad \in Radiuses(d, ref, 4, 10) : MaxSeq(Shepard(d, rad), K) < 10000 THEN Outcome({}, "no")
         ELSE Outcome({AngularWeights(v, Shepard(d, rad)) : rad \in Radiuses(d, ref, 4, 10)}, "no")
    [] r.mode = "Hofstra" ->
         LET cdd == r.cdd[c]
             In == {k \in 1 .. K : d[k] <= cdd - About(cdd)}
             Maybe == {k \in 1 .. K : Abs(d[k] - cdd) <= About(cdd)}
         IN IF d[3] > cdd + About(cdd) THEN Outcome({}, "yes")
            ELSE IF on \/ Cardinality(Maybe) > 3 \/ (tied /\ d[K] <= cdd + About(cdd)) THEN Outcome({}, IF d[3] < cdd - About(cdd) THEN "no" ELSE "may")
            ELSE Outcome({DecayWeights(v, Decay(d, [k \in 1 .. K |-> cdd], In \cup X)) : X \in SUBSET Maybe},
                         IF d[3] < cdd - About(cdd) THEN "no" ELSE "may")
    [] r.mode = "MixHofstraShepard" ->
         LET R == Radiuses(d, r.cdd[c], r.stations, 10)
         IN IF on \/ (\E rad \in R : MaxSeq(Mixed(d, rad, r.m, r.ratio), K) < 300) THEN Free
            ELSE Outcome({DecayWeights(v, Mixed(d, rad, r.m, r.ratio)) : rad \in R}, "no")
    [] r.mode = "NewEtAl" ->
         LET C == [k \in 1 .. K |-> Around(r, r.src[o[k]])]
             one == \A k \in 1 .. K : Cardinality(C[k]) = 1
             cdd == [k \in 1 .. K |-> CHOOSE x \in C[k] : TRUE]
             In == {k \in 1 .. K : d[k] <= cdd[k] - About(cdd[k])}
             Maybe == {k \in 1 .. K : Abs(d[k] - cdd[k]) <= About(cdd[k])}
         IN IF ~one THEN Free
            ELSE IF In \cup Maybe = {} THEN Outcome({}, "yes")
            ELSE IF on \/ Cardinality(Maybe) > 3 \/ In = {} \/ (tied /\ d[K] <= cdd[K] + About(cdd[K])) THEN Outcome({}, IF In # {} THEN "no" ELSE "may")
            ELSE Outcome({DecayWeights(v, Decay(d, cdd, In \cup X)) : X \in SUBSET Maybe}, "no")

CellWeights(r, c, out) ==
  LET o == Nearest(r, r.tgt[c])
      D == TLCEval([i \in 1 .. Len(r.src) |-> Dist2(r.src[i], r.tgt[c])])
      May == {i \in 1 .. Len(r.src) : D[i] <= D[o[K]] + 2 * Slack(D[o[K]])}
      X == {r.maps[k][c] : k \in 1 .. Len(r.maps)}
  IN (IF out.missing = "no" /\ MISS \in X THEN {"lost"} ELSE {})
     \cup (IF out.missing = "yes" /\ X # {MISS} THEN {"made"} ELSE {})
     \cup (IF \E k \in 1 .. Len(r.maps) : r.maps[k][c] # MISS /\ ~Within(r.maps[k][c], r.vals[k], May, 3) THEN {"values"} ELSE {})
     \* the same weights for all the fields
     \cup (IF MISS \in X \/ out.weights = {} \/ out.missing = "yes" THEN {}
           ELSE IF \E w \in out.weights : \A k \in 1 .. Len(r.maps) : Close(r.maps[k][c], Mean(w, o, r.vals[k]), Range(r.vals[k], May) \div r.tol + 3)
                THEN {} ELSE {"weights"})

\* verdict: broken clauses, number of cells whose weights are determined
Verdict(r) ==
  IF r.rc # 0 THEN [clauses |-> {"exitcode"}, determined |-> 0]
  ELSE IF Len(r.maps) # Len(r.vals) THEN [clauses |-> {"count"}, determined |-> 0]
  ELSE IF \E k \in 1 .. Len(r.maps) : Len(r.maps[k]) # Len(r.tgt) THEN [clauses |-> {"shape"}, determined |-> 0]
  ELSE LET ref == IF r.mode = "adw" THEN RefRadius(r) ELSE 0
           out == TLCEval([c \in 1 .. Len(r.tgt) |-> Outcomes(r, c, ref)])
       IN [clauses |-> UNION {CellWeights(r, c, out[c]) : c \in 1 .. Len(r.tgt)},
           determined |-> Cardinality({c \in 1 .. Len(r.tgt) : out[c].weights # {}})]
=======================================================================
