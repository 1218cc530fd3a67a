----------------------------- MODULE GeoTrace -----------------------------
(* Observations of the real installation: commands alone (add, remove, correct: [s, x, t, rc, used]), moments of it (state: [s]),
   interrupted additions (broken: [s, t]) and additions at the same time (many: [s, t, runs]). grids: grid of every geopotential *)
EXTENDS Geo, TLC, Json, IOUtils, SequencesExt
Records == ndJsonDeserialize(IOEnv.TRACE)
Set(q) == {q[i] : i \in 1 .. Len(q)}
State(z) == [reg |-> Set(z.reg), files |-> Set(z.files), var |-> z.var, valid |-> z.valid]
Lost(s, t) == (IF s.reg \subseteq t.reg THEN {} ELSE {"lost"}) \cup (IF s.files \subseteq t.files THEN {} ELSE {"changed"})
(* registered since: the file is there *)
Complete(s, t) == IF \A r \in t.reg \ s.reg : \E f \in t.files : f.d = "user" /\ f.n = r.n /\ f.c > 0 THEN {} ELSE {"incomplete"}
(* additions at the same time are as one after the other *)
Serial(s, t, runs) ==
    LET I == 1 .. Len(runs)
        new(e) == {r \in t.reg \ s.reg : r.e = e}
        E == {runs[i].x.e : i \in I}
        ok(e) == {i \in I : runs[i].x.e = e /\ runs[i].rc = 0}
    IN UNION {IF Of(s, e) # {} \/ s.var # "ok" THEN (IF ok(e) = {} THEN {} ELSE {"exitcode"}) \cup (IF new(e) = {} THEN {} ELSE {"registration"})
              ELSE (IF Cardinality(ok(e)) = 1 THEN {} ELSE {"exitcode"})
                   \cup (IF \E i \in ok(e) : \E r \in new(e) : \E f \in t.files : f.d = "user" /\ f.n = r.n /\ f.c = runs[i].x.c
                         THEN {} ELSE {"registration"}) : e \in E}
Clauses(r) ==
    LET s == State(r.s)
        G(c) == r.grids[c]
    IN IF r.kind = "state" THEN StateClauses(s, G)
       ELSE LET t == State(r.t) IN
            StateClauses(t, G) \cup
            CASE r.kind = "add" -> AddClauses(s, r.x, t, r.rc)
              [] r.kind = "remove" -> RemoveClauses(s, r.x, t) \cup (IF r.rc = 0 THEN {} ELSE {"exitcode"})
              [] r.kind = "correct" -> CorrectClauses(s, r.x, t, r.rc, r.used)
              [] r.kind = "broken" -> Lost(s, t) \cup Complete(s, t)
              [] r.kind = "many" -> Lost(s, t) \cup Complete(s, t) \cup Serial(s, t, r.runs)
VARIABLES i
Init == i \in 1 .. Len(Records)
Next == /\ i > 0
        /\ PrintT(<<"VERDICT", i, SetToSeq(Clauses(Records[i]))>>)
        /\ i' = -i
Spec == Init /\ [][Next]_i
============================================================================
