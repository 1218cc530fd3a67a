---------------------------- MODULE OutputTrace ----------------------------
(* Observations of executions:
     pcr  [prefix, fmap, ext, rc, steps, valid, geo, before, after, maps]   PCRaster output
     nc   [rc, name, names, steps, ends, valid, p, eps, req, time, fmt, var, meta, coords, decoded, raw, before, after]   netCDF output *)
EXTENDS Output, TLC, Json, IOUtils, SequencesExt
Records == ndJsonDeserialize(IOEnv.TRACE)
Set(q) == {q[i] : i \in 1 .. Len(q)}
Others(r, written) == IF {x \in Set(r.before) : x.n \notin written} = {x \in Set(r.after) : x.n \notin written} THEN {} ELSE {"others"}
Pcr(r) ==
    IF r.rc # 0 THEN {"exitcode"}
    ELSE LET n == Len(r.steps)
             name(i) == File(Name(r.prefix, r.fmap, r.ext, n, i, 11), 3)
             written == {name(i) : i \in 1 .. n}
             found(i) == {m \in Set(r.maps) : m.n = name(i)}
         IN (IF \A i \in 1 .. n : Cardinality(found(i)) = 1 THEN {} ELSE {"names"})
            \cup Others(r, written)
            \cup UNION {UNION {(IF m.geo = r.geo THEN {} ELSE {"geometry"})
                               \cup (IF Len(m.cells) # Len(r.valid) THEN {"geometry"}
                                     ELSE IF \A c \in 1 .. Len(r.valid) : m.cells[c] = Masked(r.steps[i][c], r.valid[c]) THEN {} ELSE {"values"})
                               : m \in found(i)} : i \in 1 .. n}
Nc(r) ==
    IF r.rc # 0 THEN {"exitcode"}
    ELSE LET n == Len(r.steps)
             u == UnitUsed(r.req)
             ok(D) == IF Len(D) # n THEN FALSE
                      ELSE \A i \in 1 .. n : IF Len(D[i]) # Len(r.valid) THEN FALSE
                                             ELSE \A c \in 1 .. Len(r.valid) : Right(r.p, Masked(r.steps[i][c], r.valid[c]), D[i][c], r.eps)
             D == [i \in 1 .. Len(r.raw) |-> [c \in 1 .. Len(r.raw[i]) |-> Decoded(r.packing, r.raw[i][c])]]
         IN (IF r.found THEN {} ELSE {"names"})
            \cup Others(r, {r.name})
            \cup (IF ~r.found THEN {} ELSE
              (IF r.fmt = r.format THEN {} ELSE {"format"})
              \cup (IF r.meta = r.expected THEN {} ELSE {"metadata"})
              \cup (IF r.coords = r.target THEN {} ELSE {"coordinates"})
              \cup (IF Len(r.time) # n THEN {"time"}
                    ELSE IF r.unit = UnitName(u) /\ r.since = r.date /\ \A i \in 1 .. n : SameInstant(r.time[i], u, r.ends[i]) THEN {} ELSE {"time"})
              \cup (IF ok(r.decoded) THEN {} ELSE {"values"})
              \cup (IF ok(D) THEN {} ELSE {"packing"}))
Clauses(r) == IF r.kind = "pcr" THEN Pcr(r) ELSE Nc(r)
VARIABLES i
Init == i \in 1 .. Len(Records)
Next == /\ i > 0
        /\ PrintT(<<"VERDICT", i, SetToSeq(Clauses(Records[i]))>>)
        /\ i' = -i
Spec == Init /\ [][Next]_i
============================================================================
