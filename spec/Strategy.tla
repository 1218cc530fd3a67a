--------------------------- MODULE Strategy ---------------------------
(* How an interpolation table is computed and used: rows of the target are split in subsets, computed in any order by
   workers, collected, used at once, saved, loaded by later executions. A row of the table is represented by what it
   depends on: the coordinates of the row and the row of the other maps of the target (decay distances, reference radius
   of the whole target). Whatever the strategy, the used table is the reference one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxRows, MaxSplits, Workers,
          CollectBy,   \* "index", or "completion": results collected in the order workers finish (broken)
          OtherMaps    \* "target", or "subset": other maps read with the row numbers of the subset (broken)
VARIABLES rows, splits, todo, busy, results, table, disk, used, ph
vars == <<rows, splits, todo, busy, results, table, disk, used, ph>>

MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
Size == MaxOf(1, rows \div splits)
Starts == {1 + k * Size : k \in 0 .. ((rows - 1) \div Size)}
End(s) == MinOf(rows, s + Size - 1)
RowValue(r, s) == [coords |-> r, other |-> IF OtherMaps = "target" THEN r ELSE r - s + 1, radius |-> rows]
Subset(s) == [i \in 1 .. End(s) - s + 1 |-> RowValue(s + i - 1, s)]
Reference == [r \in 1 .. rows |-> [coords |-> r, other |-> r, radius |-> rows]]

RECURSIVE Concat(_)
Concat(S) == IF S = <<>> THEN <<>> ELSE Head(S) \o Concat(Tail(S))
RECURSIVE InOrder(_, _)
InOrder(R, from) == IF from > rows THEN <<>> ELSE R[CHOOSE i \in 1 .. Len(R) : R[i].s = from].v \o InOrder(R, from + Size)

Init == /\ rows \in 1 .. MaxRows /\ splits \in 1 .. MaxSplits
        /\ todo = Starts /\ busy = {} /\ results = <<>> /\ table = <<>> /\ disk = <<>> /\ used = <<>> /\ ph = "compute"
Take == /\ ph = "compute" /\ Cardinality(busy) < Workers
        /\ \E s \in todo : todo' = todo \ {s} /\ busy' = busy \cup {s}
        /\ UNCHANGED <<rows, splits, results, table, disk, used, ph>>
Finish == /\ ph = "compute"
          /\ \E s \in busy : busy' = busy \ {s} /\ results' = Append(results, [s |-> s, v |-> Subset(s)])
          /\ UNCHANGED <<rows, splits, todo, table, disk, used, ph>>
Collect == /\ ph = "compute" /\ todo = {} /\ busy = {}
           /\ table' = IF CollectBy = "index" THEN InOrder(results, 1) ELSE Concat([i \in 1 .. Len(results) |-> results[i].v])
           /\ used' = table' /\ ph' = "computed"
           /\ UNCHANGED <<rows, splits, todo, busy, results, disk>>
Save == /\ ph = "computed" /\ disk' = table /\ ph' = "saved" /\ UNCHANGED <<rows, splits, todo, busy, results, table, used>>
Reuse == /\ ph = "saved" /\ used' = disk /\ table' = disk /\ ph' = "reused" /\ UNCHANGED <<rows, splits, todo, busy, results, disk>>
Next == Take \/ Finish \/ Collect \/ Save \/ Reuse
Spec == Init /\ [][Next]_vars

Complete == ph # "compute" => Len(used) = rows
Independent == ph # "compute" => used = Reference
Stored == ph \in {"saved", "reused"} => disk = Reference
=======================================================================
