--------------------------- MODULE DownloadTrace ---------------------------
(* Evaluates recorded histories of downloads (ndjson file named by environment variable TRACE) with the conditions of Download.tla.
   states: files of the dataset (codes of Download.tla), others: everything else is as before; runs: ends of the executions *)
EXTENDS Download, TLC, Json, IOUtils, SequencesExt
Records == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN <<s>> ELSE <<>>
Verdict(r) ==
  LET S == r.states
      R == r.runs
      o == {f \in DOMAIN r.own : r.own[f]}
      complete(f, k) == S[k].l[f] \in {Own, Pieces}
  IN If(\E k \in DOMAIN S : ~Whole(S[k].l), "whole")
     \o If(\E k \in DOMAIN S : ~Kept(S[k].l, o), "kept")
     \o If(\E k \in DOMAIN S : ~S[k].others, "others")
     \o If(\E k \in 2 .. Len(S) : \E f \in DOMAIN r.own : complete(f, k - 1) /\ S[k].l[f] # S[k - 1].l[f], "stays")
     \o If(\E k \in DOMAIN R : R[k].rc = 0 /\ ~Delivered(R[k].l), "done")
     \o If(\E k \in DOMAIN R : (R[k].rc = 0) = R[k].fault, "exitcode")
     \o If(\E k \in DOMAIN R : R[k].rc = 0 /\ R[k].extra > 0, "extra")
TraceInit == /\ i \in 1 .. Len(Records) /\ local = <<>> /\ own = {} /\ p = <<>> /\ runs = 0
TraceNext == /\ i > 0
             /\ PrintT(<<"VERDICT", i, Verdict(Records[i])>>)
             /\ i' = -i /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<i, vars>>
=============================================================================
