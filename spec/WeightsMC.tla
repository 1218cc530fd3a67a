--------------------------- MODULE WeightsMC ---------------------------
(* The weights of Weights.tla for targets in and around a lattice of source points, with all the methods and radiuses, and for groups of points
   seen in the same direction. *)
EXTENDS Weights
CONSTANTS Side,     \* points of the lattice: Side x Side, one degree apart
          Step,     \* distance of targets (hundredths of degree)
          Margin,   \* targets out of the lattice
          Refs,     \* reference radiuses or correlation distances (hundredths of degree)
          Ms, Ratios, Stations
VARIABLES kind, method, t, ref, opt, ph
vars == <<kind, method, t, ref, opt, ph>>

Unit == 20   \* units of length in one hundredth of degree
Pt(la, lo) == <<lo * Unit, la * Unit, 0, la + 1000, lo + 1000>>
Size == (Side - 1) * 100
Lattice == [i \in 1 .. Side * Side |-> Pt(100 * ((i - 1) \div Side), 100 * ((i - 1) % Side))]
Mirror(i) == Side * ((i - 1) \div Side) + Side - ((i - 1) % Side)
Turned(i) == Side * ((i - 1) % Side) + ((i - 1) \div Side) + 1
Targets == {<<Step * a - Margin, Step * b - Margin>> : a, b \in 0 .. (Size + 2 * Margin) \div Step}

\* groups: <<east, west>> near points seen in two opposite directions at the same distance, the other ones far all around
Groups == {<<a, b>> \in (1 .. 3) \X (1 .. 3) : a + b <= 4}
Far11 == <<<<300, 0>>, <<-300, 10>>, <<0, 310>>, <<5, -320>>, <<330, 330>>, <<-340, 330>>, <<340, -350>>, <<-350, -350>>, <<400, 50>>, <<-410, 50>>, <<50, 420>>>>
GroupPoints(g) == [i \in 1 .. K |-> IF i <= g[1] THEN Pt(100, i) ELSE IF i <= g[1] + g[2] THEN Pt(-100, i - g[1]) ELSE Pt(Far11[i][1], Far11[i][2])]

Rec(m, src, target, rr, o) ==
  [mode |-> m, src |-> src, tgt |-> <<target>>, vals |-> <<>>, maps |-> <<>>, rc |-> 0, rows |-> 1, cdd |-> <<rr>>, tol |-> 60,
   m |-> o[1], ratio |-> o[2], stations |-> o[3]]
Methods == {"adw", "Hofstra", "MixHofstraShepard"}
Options == {<<m, q, s>> : m \in Ms, q \in Ratios, s \in Stations}
Default == <<4000, 333, 4>>

Init == /\ ph = 0
        /\ method \in Methods
        /\ opt \in (IF method = "MixHofstraShepard" THEN Options ELSE {Default})
        /\ ref \in {x * Unit : x \in Refs}
        /\ \/ kind = "lattice" /\ t \in Targets
           \/ kind = "group" /\ t \in Groups
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED <<kind, method, t, ref, opt>>
Spec == Init /\ [][Next]_vars

Src == IF kind = "group" THEN GroupPoints(t) ELSE Lattice
Target == IF kind = "group" THEN Pt(0, 2) ELSE Pt(t[1], t[2])
R(target) == Rec(method, Src, target, ref, opt)
Out(target) == Outcomes(R(target), 1, ref)
Order(target) == Nearest(R(target), target)
\* weight of source point i
Of(w, o, i) == LET P == {k \in 1 .. K : o[k] = i} IN IF P = {} THEN 0 ELSE w[CHOOSE k \in P : TRUE]

Normal == ph = 1 => \A w \in Out(Target).weights : /\ \A k \in 1 .. K : w[k] >= 0
                                                  /\ Sum(w, K) >= 9900 /\ Sum(w, K) <= 10100
\* a target on a point, the points beyond the radius
OnPoint == ph = 1 /\ method = "adw" /\ Src[Order(Target)[1]] = Target => Out(Target).weights = {[k \in 1 .. K |-> IF k = 1 THEN 10000 ELSE 0]}
Reach == ph = 1 /\ method = "Hofstra" /\ Out(Target).missing # "yes" =>
           LET d == Distances(R(Target), Target, Order(Target))
           IN \A w \in Out(Target).weights : \A k \in 1 .. K : w[k] > 0 => d[k] <= ref + About(ref)
Enough == ph = 1 /\ method = "Hofstra" =>
           LET d == Distances(R(Target), Target, Order(Target))
               n == Cardinality({k \in 1 .. K : d[k] <= ref})
           IN (Out(Target).missing = "yes" => n < 3) /\ (Out(Target).missing = "no" => n >= 3)
\* a lattice seen in a mirror or with latitude and longitude exchanged
Alike(target, image(_)) ==
  LET a == Out(Target)
      b == Out(target)
      o == Order(Target)
      p == Order(target)
  IN Cardinality(a.weights) = 1 /\ Cardinality(b.weights) = 1 =>
       \A w \in a.weights, x \in b.weights : \A i \in 1 .. Len(Lattice) : Close(Of(w, o, i), Of(x, p, image(i)), 60) \/ Tied(R(Target), Target)
Symmetric == ph = 1 /\ kind = "lattice" => /\ Alike(Pt(t[1], Size - t[2]), Mirror)
                                          /\ Alike(Pt(t[2], t[1]), Turned)
\* distance parts decrease with distance, and their pieces meet
Decreasing == ph = 1 =>
  LET d == Distances(R(Target), Target, Order(Target))
      u == CASE method = "adw" -> Shepard(d, ref)
             [] method = "Hofstra" -> Decay(d, [k \in 1 .. K |-> ref], {k \in 1 .. K : d[k] <= ref})
             [] OTHER -> Mixed(d, ref, opt[1], opt[2])
  IN \A k \in 1 .. K - 1 : u[k] >= u[k + 1] - 1 - u[k + 1] \div 50
Meet == ph = 1 =>
  LET e == ref \div 60
      at(x) == Shepard([k \in 1 .. K |-> x], ref)[1]
      mx(x) == Mixed([k \in 1 .. K |-> x], ref, opt[1], opt[2])[1]
      b == ((ref \div 10) * opt[2]) \div 100
  IN /\ Close(at(ref \div 3 - e), at(ref \div 3 + e), at(ref \div 3) \div 5)
     /\ at(ref - 1) < at(ref \div 3) \div 1000
     /\ Close(mx(b - e), mx(b + e), mx(b - e) \div 3)
     /\ mx(ref - 1) <= mx(b - e) \div 1000
\* points seen in the direction of other ones count less than the ones alone in theirs
Shielding == ph = 1 /\ kind = "group" /\ t[1] # t[2] =>
  LET o == Order(Target)
      E == 1 .. t[1]
      W == t[1] + 1 .. t[1] + t[2]
      L == IF t[1] < t[2] THEN E ELSE W   \* the smaller group
      M == IF t[1] < t[2] THEN W ELSE E
  IN \A w \in Out(Target).weights : \A i \in L, j \in M : Of(w, o, i) > Of(w, o, j)
=======================================================================
