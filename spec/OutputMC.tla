----------------------------- MODULE OutputMC -----------------------------
(* A writer of n maps, one by one, in a folder having other files; names of L characters (E after the dot).
   Kept: in the end every map is in its own file, in order of name, and other files are untouched.
   Packing: packed values decode to the same values. *)
EXTENDS Output, TLC
CONSTANTS L, E, Alphabet, MaxPrefix, MaxFirst, MaxStep, MaxMaps, Rule
VARIABLES w, folder
vars == <<w, folder>>
N(c, i) == CASE Rule = "fixed" -> Name(c.prefix, c.fmap, c.ext, c.n, i, L)
             [] Rule = "own" -> NameOwn(c.prefix, c.fmap, c.ext, c.n, i, L)
             [] Rule = "cut" -> NameCut(c.prefix, c.fmap, c.ext, c.n, i, L)
Prefixes == UNION {[1 .. k -> Alphabet] : k \in 1 .. MaxPrefix}
Init == /\ \E p \in Prefixes, f \in 0 .. MaxFirst, x \in 1 .. MaxStep, n \in 1 .. MaxMaps :
             /\ Len(Digits(Number(f, x, n))) < L
             /\ w = [prefix |-> p, fmap |-> f, ext |-> x, n |-> n, i |-> 0]
        /\ folder = << >>
(* folder: sequence of <<name, map>> *)
Next == /\ w.i < w.n
        /\ w' = [w EXCEPT !.i = @ + 1]
        /\ LET m == N(w, w.i + 1) IN folder' = Append(SelectSeq(folder, LAMBDA e : e[1] # m), <<m, w.i + 1>>)
Spec == Init /\ [][Next]_vars
Kept == Len(folder) = w.i
(* names end with the number and start with the prefix, as long as it can be *)
Shape == \A k \in 1 .. Len(folder) :
           LET m == folder[k][1] d == Digits(Number(w.fmap, w.ext, folder[k][2]))
           IN /\ Len(m) = L
              /\ SubSeq(m, L - Len(d) + 1, L) = d
              /\ Len(w.prefix) + Len(Digits(Number(w.fmap, w.ext, w.n))) <= L => SubSeq(m, 1, Len(w.prefix)) = w.prefix
Value(c) == CHOOSE k \in 1 .. 10 : Char[k] = c
(* maps in order of number are in order of name: equal length of digits, zero padded *)
RECURSIVE Before(_, _)
Before(a, b) == IF a = << >> THEN FALSE
                ELSE IF a[1] = b[1] THEN Before(Tail(a), Tail(b))
                ELSE IF a[1] \in {Char[k] : k \in 1 .. 10} /\ b[1] \in {Char[k] : k \in 1 .. 10} THEN Value(a[1]) < Value(b[1]) ELSE FALSE
Ordered == Rule = "fixed" => \A k \in 1 .. Len(folder) - 1 : Before(folder[k][1], folder[k + 1][1])
Inv == Kept /\ Shape /\ Ordered

(* -------------------------------------------------------- packing: every packing of every value decodes to it *)
Pack(p, v) == IF v = MISS \/ ~InRange(p, v) THEN MISS
              ELSE IF p.int THEN (2 * (v - p.o) * p.sq + 1000 * p.sp) \div (2000 * p.sp)
              ELSE ((v - p.o) * p.sq) \div p.sp
ASSUME \A int \in BOOLEAN, s \in {<<1, 1>>, <<1, 2>>, <<1, 10>>, <<5, 1>>}, o \in {0, 1500, -10000}, lim \in {<<MISS, MISS>>, <<-1000, 2500>>, <<MISS, 700>>} :
         \A v \in {MISS} \cup {x * 50 : x \in -60 .. 60} :
            LET p == [int |-> int, double |-> FALSE, sp |-> s[1], sq |-> s[2], o |-> o, lo |-> lim[1], hi |-> lim[2]]
            IN Right(p, v, Decoded(p, Pack(p, v)), 0)
(* times: conversion keeps instants *)
ASSUME \A u \in Convertible, h \in {0, 1, 3, 7, 24, 100, 240} :
         LET t == h * 3600 \* seconds
             x == [whole |-> t \div Seconds(u), frac |-> ((t % Seconds(u)) * 10000) \div Seconds(u)]
         IN SameInstant(x, u, h) /\ ~SameInstant(x, u, h + 1)
============================================================================
