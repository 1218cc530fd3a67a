--------------------------- MODULE PipelineTrace ---------------------------
(* Validates recorded executions: line i of the file $TRACE is                *)
(*   [sc, obs |-> [rc, maps |-> <<[e, cells], ...>>], tol]                    *)
(* The execution is replayed by the actions of Pipeline from its scenario;    *)
(* the verdict (clauses not satisfied by the observation) is printed.         *)
(* Observed values are integers in units of 1/1000, 2000000000 is missing.    *)
EXTENDS Pipeline, Json, IOUtils

VARIABLES i, verdict
tvars == <<sc, ph, info, first, second, out, outcome, i, verdict>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
NoValue == 2000000000

Close(x, r, tol) == LET d == x - Fix(r, 1000) IN d <= tol + 1 /\ -d <= tol

Clauses(obs, tol) ==
    LET n == Len(obs.maps)
        same == n = Len(out)
        cells == DOMAIN sc.clone
    IN  CASE outcome = "none" ->
                (IF obs.rc = 0 THEN {} ELSE {"exitcode"}) \cup (IF n = 0 THEN {} ELSE {"written"})
          [] outcome = "refused" ->
                (IF obs.rc = 1 THEN {} ELSE {"exitcode"}) \cup (IF n = 0 THEN {} ELSE {"written"})
          [] outcome = "ok" ->
                (IF obs.rc = 0 THEN {} ELSE {"exitcode"})
                \cup (IF same THEN {} ELSE {"count"})
                \cup (IF same /\ \E k \in 1..n : obs.maps[k].e # -1 /\ obs.maps[k].e # out[k].e THEN {"labels"} ELSE {})
                \cup (IF same /\ \E k \in 1..n : Len(obs.maps[k].cells) # Len(sc.clone) THEN {"shape"} ELSE
                      IF ~same THEN {} ELSE
                      (IF \E k \in 1..n : \E c \in cells : IsMiss(out[k].cells[c]) /\ obs.maps[k].cells[c] # NoValue THEN {"made"} ELSE {})
                      \cup (IF \E k \in 1..n : \E c \in cells : ~IsMiss(out[k].cells[c]) /\ obs.maps[k].cells[c] = NoValue THEN {"lost"} ELSE {})
                      \cup (IF \E k \in 1..n : \E c \in cells : /\ ~IsMiss(out[k].cells[c]) /\ obs.maps[k].cells[c] # NoValue
                                                               /\ ~Close(obs.maps[k].cells[c], out[k].cells[c], tol) THEN {"values"} ELSE {}))
          [] OTHER -> {"notfinished"}

TInit == /\ i \in 1..Len(Trace)
         /\ PInit(Trace[i].sc)
         /\ verdict = "none"

Step == /\ ph # "done" /\ (SpecifiedHere = TRUE) /\ PNext   \* "= TRUE": not an action to be split in cases
        /\ UNCHANGED <<i, verdict>>

Judge == /\ ph = "done" /\ verdict = "none"
         /\ LET v == Clauses(Trace[i].obs, Trace[i].tol) IN
            /\ PrintT(<<"VERDICT", i, SetToSeq(v)>>)
            /\ verdict' = IF v = {} THEN "accepted" ELSE "rejected"
         /\ UNCHANGED <<sc, ph, info, first, second, out, outcome, i>>

Skip == /\ ph # "done" /\ verdict = "none" /\ SpecifiedHere = FALSE
        /\ PrintT(<<"VERDICT", i, <<"unspecified">>>>)
        /\ verdict' = "unspecified"
        /\ ph' = "done"
        /\ UNCHANGED <<sc, info, first, second, out, outcome, i>>

TNext == Step \/ Judge \/ Skip
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
