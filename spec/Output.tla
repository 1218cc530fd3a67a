------------------------------ MODULE Output ------------------------------
(* Writing of maps: names of PCRaster maps, time axis and packing of netCDF files.
   Characters are strings of length one. Names have Full characters, the last Ext of them after the dot.
   Values of cells are integers (thousandths), MISS: no value                                            *)
EXTENDS Integers, Sequences, FiniteSets

MISS == 2000000000
Char == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<Char[n + 1]>> ELSE Append(Digits(n \div 10), Char[(n % 10) + 1])
Number(fmap, ext, i) == fmap + (i - 1) * ext
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Abs(a) == IF a < 0 THEN -a ELSE a

(* ------------------------------------------------------------ names of PCRaster maps
   keep: number of characters of the prefix that can be kept *)
Padded(prefix, keep, d, Full) ==
    LET p == SubSeq(prefix, 1, Min(Len(prefix), keep))
    IN p \o [j \in 1 .. (Full - Len(p) - Len(d)) |-> "0"] \o d
(* i-th of n maps: the prefix leaves place for the longest number *)
Name(prefix, fmap, ext, n, i, Full) ==
    Padded(prefix, Full - Len(Digits(Number(fmap, ext, n))), Digits(Number(fmap, ext, i)), Full)
(* each number truncates the prefix on its own: different maps may have the same name *)
NameOwn(prefix, fmap, ext, n, i, Full) ==
    LET d == Digits(Number(fmap, ext, i)) IN Padded(prefix, Full - Len(d), d, Full)
(* prefix never truncated: numbers are lost *)
NameCut(prefix, fmap, ext, n, i, Full) == SubSeq(Padded(prefix, Len(prefix), Digits(Number(fmap, ext, i)), Full), 1, Full)
File(name, Ext) == SubSeq(name, 1, Len(name) - Ext) \o <<".">> \o SubSeq(name, Len(name) - Ext + 1, Len(name))

(* ------------------------------------------------------------ values of a written cell *)
Masked(v, valid) == IF valid THEN v ELSE MISS

(* ------------------------------------------------------------ time axis: seconds of a unit of time *)
Convertible == {"s", "m", "h", "3h", "6h", "12h", "D"}
UnitUsed(requested) == IF requested \in Convertible THEN requested ELSE "h"
UnitName(u) == CASE u = "s" -> "seconds" [] u = "m" -> "minutes" [] u = "h" -> "hours" [] u = "3h" -> "3h steps"
                 [] u = "6h" -> "6h steps" [] u = "12h" -> "12h steps" [] u = "D" -> "days"
Seconds(u) == CASE u = "s" -> 1 [] u = "m" -> 60 [] u = "h" -> 3600 [] u = "3h" -> 10800 [] u = "6h" -> 21600 [] u = "12h" -> 43200 [] u = "D" -> 86400
(* time is whole + frac / 10000 units: seconds, at most one ten thousandth of unit off *)
Instant(t, u) == t.whole * Seconds(u) + (t.frac * Seconds(u)) \div 10000
SameInstant(t, u, hours) == Abs(Instant(t, u) - hours * 3600) <= (IF t.frac = 0 THEN 0 ELSE Seconds(u) \div 10000 + 1)

(* ------------------------------------------------------------ packing
   p: [int, double, sp, sq, o, lo, hi]: integer format, double precision, scale sp/sq, offset o, valid range [lo, hi] (MISS: no limit), in thousandths.
   A value is kept if it is in the valid range; eps: precision of values *)
InRange(p, v) == (p.lo = MISS \/ v >= p.lo) /\ (p.hi = MISS \/ v <= p.hi)
OnLimit(p, v, eps) == (p.lo # MISS /\ Abs(v - p.lo) <= eps) \/ (p.hi # MISS /\ Abs(v - p.hi) <= eps)
(* decoded value of a packed one r: integer, or thousandths of it *)
Decoded(p, r) == IF r = MISS THEN MISS ELSE ((IF p.int THEN 1000 * r ELSE r) * p.sp) \div p.sq + p.o
Tolerance(p, v) == IF p.int THEN (1000 * p.sp) \div (2 * p.sq) + 2 ELSE IF p.double THEN 2 ELSE 2 + Abs(v) \div 1000000
(* d is a right value of a cell of value v *)
Right(p, v, d, eps) ==
    IF v = MISS THEN d = MISS
    ELSE LET good == d # MISS /\ Abs(d - v) <= Tolerance(p, v) + eps
         IN IF OnLimit(p, v, eps) THEN d = MISS \/ good
            ELSE IF InRange(p, v) THEN good ELSE d = MISS
============================================================================
