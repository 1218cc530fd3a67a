---------------------------- MODULE StoreTrace ----------------------------
(* Observations of the real store:
     exec   [s, x, t, rc, right, maps]     one execution alone
     check  [s, t, rc]                     one check of the configuration
     state  [s]                            any moment
     broken [s, t]                         before and after an interrupted execution
     many   [s, t, runs]                   before and after executions at the same time, runs: sequence of [x, rc, right, maps] *)
EXTENDS Store, Sequences, TLC, Json, IOUtils, SequencesExt
Records == ndJsonDeserialize(IOEnv.TRACE)
Set(q) == {q[i] : i \in 1 .. Len(q)}
State(z) == [reg |-> Set(z.reg), files |-> Set(z.files), var |-> z.var, valid |-> z.valid]
Lost(s, t) == (IF s.reg \subseteq t.reg THEN {} ELSE {"lost"}) \cup (IF s.files \subseteq t.files THEN {} ELSE {"changed"})
(* registered since: their file is there and is the right one *)
Complete(s, t) == IF \A r \in t.reg \ s.reg : \E f \in t.files : f.n = r.n /\ f.c = r.k THEN {} ELSE {"incomplete"}
Run(s, r) == (IF r.rc = 0 /\ ~r.right THEN {"values"} ELSE {})
             \cup (IF r.rc # 0 /\ Succeeds(s, r.x) THEN {"exitcode"} ELSE {})
             \cup (IF r.rc # 0 /\ r.maps > 0 THEN {"maps"} ELSE {})
Made(t, r) == IF r.rc = 0 /\ Of(t, r.x.k) = {} THEN {"unregistered"} ELSE {}
Clauses(r) ==
    CASE r.kind = "exec" -> LET s == State(r.s) t == State(r.t) IN ExecClauses(s, r.x, t, r.rc, r.right, r.maps) \cup StateClauses(t)
      [] r.kind = "check" -> CheckClauses(State(r.s), State(r.t), r.rc) \cup StateClauses(State(r.t))
      [] r.kind = "state" -> StateClauses(State(r.s))
      [] r.kind = "broken" -> LET s == State(r.s) t == State(r.t) IN StateClauses(t) \cup Lost(s, t) \cup Complete(s, t)
      [] r.kind = "many" -> LET s == State(r.s) t == State(r.t) IN
            StateClauses(t) \cup Lost(s, t) \cup Complete(s, t) \cup UNION {Run(s, r.runs[i]) \cup Made(t, r.runs[i]) : i \in 1 .. Len(r.runs)}
VARIABLES i
Init == i \in 1 .. Len(Records)
Next == /\ i > 0
        /\ PrintT(<<"VERDICT", i, SetToSeq(Clauses(Records[i]))>>)
        /\ i' = -i
Spec == Init /\ [][Next]_i
============================================================================
