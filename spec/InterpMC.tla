--------------------------- MODULE InterpMC ---------------------------
(* Interpolation of every field of Values on a small regular grid, at every target of a lattice in and around it, with the
   reference definition of each method. The clauses evaluated on the real code (Interp.tla) must accept the reference and
   reject every value that differs from it; and the guarantees (convexity, exactness on source points, linearity,
   missing values) must hold for the reference. *)
EXTENDS Interp
CONSTANTS NI, NJ, Values, Step, Margin, Modes, Marker   \* Marker: TRUE if missing values are used as data (broken method)
VARIABLES mode, V, t, x, ph
vars == <<mode, V, t, x, ph>>

N == NI * NJ
Pt(la, lo) == <<lo * 10, la * 10, 0, la, lo>>
Source == [i \in 1 .. N |-> Pt(100 * ((i - 1) \div NI) + 1000, 100 * ((i - 1) % NI) + 1000)]
Targets == {Pt(1000 + Step * a - Margin, 1000 + Step * b - Margin) : a \in 0 .. ((NJ - 1) * 100 + 2 * Margin) \div Step, b \in 0 .. ((NI - 1) * 100 + 2 * Margin) \div Step}
KNear == [nearest |-> 1, invdist |-> 4, bilinear |-> 4]
Rec(m, W, tt) == [mode |-> m, knear |-> KNear[m], reg |-> TRUE, dla |-> 100, dlo |-> 100, nj |-> NJ, glob |-> FALSE, rot |-> FALSE,
                  src |-> Source, tgt |-> <<tt>>, vals |-> <<W>>, aff |-> FALSE, rc |-> 0, maps |-> <<>>]
Res2 == Resolution2(Rec("nearest", [i \in 1 .. N |-> 0], Source[1]))

\* reference definitions
D(tt) == [i \in 1 .. N |-> Dist2(Source[i], tt)]
Out(tt) == Far(MinSeq(D(tt), N), Res2, NJ)
Data(W) == IF Marker THEN [i \in 1 .. N |-> IF W[i] = MISS THEN 999900 ELSE W[i]] ELSE W
AnyMiss(W, S) == \E i \in S : W[i] = MISS
Reference(m, W0, tt) ==
  LET W == Data(W0)
      K == KNearest(D(tt), N, KNear[m], {})
      H == Hat(Rec(m, W, tt), tt)
      U == {i \in 1 .. N : H[i] > 0}
  IN CASE m = "nearest" -> IF Out(tt) THEN MISS ELSE W[CHOOSE i \in K : TRUE]
       [] m = "invdist" -> IF Out(tt) \/ AnyMiss(W, K) THEN MISS ELSE InvDist(D(tt), K, W, 2)
       [] m = "bilinear" -> IF BoxPos(Rec(m, W, tt), tt) = -1 \/ AnyMiss(W, U) THEN MISS ELSE Bilinear(Rec(m, W, tt), tt, W)

Init == /\ mode \in Modes /\ V \in [1 .. N -> Values] /\ t \in Targets /\ x = 0 /\ ph = 0
Next == /\ ph = 0 /\ ph' = 1 /\ x' = Reference(mode, V, t) /\ UNCHANGED <<mode, V, t>>
Spec == Init /\ [][Next]_vars

C(y) == CellClauses(Rec(mode, V, t), t, V, y, Res2)
Accepted == ph = 1 => C(x) = {}
\* values that no reading of the method allows: out of the range of the field, or missing well inside
OutOfRange == ph = 1 => \A y \in {MISS - 1, -5000, 50000} : C(y) # {}
Inside == BoxPos(Rec(mode, V, t), t) = 1
NoMissing == \A i \in 1 .. N : V[i] # MISS
Detected == ph = 1 /\ Inside /\ NoMissing => "lost" \in C(MISS)
\* bilinear and inverse distance values are determined
Determined == ph = 1 /\ Inside /\ NoMissing /\ mode = "bilinear" /\ x # MISS => \A y \in {x - 2600, x + 2600} : C(y) # {}
Convex == ph = 1 /\ x # MISS => LET Y == {V[i] : i \in 1 .. N} \ {MISS} IN Y # {} /\ x >= MinOf(Y) - 3 /\ x <= MaxOf(Y) + 3
OnPoint == ph = 1 => \A i \in 1 .. N : Source[i] = t /\ x # MISS => Close(x, V[i], 3)
Linearity == ph = 1 /\ mode = "bilinear" /\ Inside =>
               \A p, q \in {-10000, 0, 10000}, c \in {0, 10000} :
                 (\A i \in 1 .. N : V[i] = (p * ((i - 1) \div NI)) + q * ((i - 1) % NI) + c)
                   => Close(x, (p \div 100) * (t[4] - 1000) + (q \div 100) * (t[5] - 1000) + c, 3)
=======================================================================
