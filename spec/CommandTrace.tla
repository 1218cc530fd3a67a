---------------------------- MODULE CommandTrace ----------------------------
(* Commands of the API, judged as executions from the shell (ContextTrace.tla) with the arguments of their text and edits.
   Records: the ones of ContextTrace, with [words: words of the text, edits: sequence of [m: method, v]]; args are the ones of the harness *)
EXTENDS ContextTrace, Commands
Observed == {"start", "end", "member", "time", "date", "prefix", "fmap", "ext", "format", "scale", "offset", "vmin", "vmax", "vformat", "units",
             "tabledir", "geodir", "outdir"}
(* values as they are observed: directories without redundant parts, numbers as formatted by the harness *)
Norm(a, r) == IF a.o \in {"outdir", "scale", "offset", "vmin", "vmax"} /\ a.v \in DOMAIN r.norm THEN [a EXCEPT !.v = r.norm[a.v]] ELSE a
(* the format "notset" is as no format *)
Formats(a) == SelectSeq(a, LAMBDA x : x.o = "format")
Unset(a) == Formats(a) # << >> /\ Last(Formats(a)).v = "notset"
ArgsOf(r) == LET all == Arguments(r.words, r.edits)
                 q == SelectSeq(all, LAMBDA a : a.o \in Observed /\ ~(a.o = "format" /\ (a.v = "notset" \/ Unset(all))))
             IN [k \in 1 .. Len(q) |-> Norm(q[k], r)]
AsStep(v) == IF v = -1 THEN NONE ELSE ToString(v)
CommandClauses(r) ==
    LET a == ArgsOf(r)
    IN Clauses([r EXCEPT !.args = a])
       \cup (IF Given(a, "start") = AsStep(r.se.cs) /\ Given(a, "end") = AsStep(r.se.ce) THEN {} ELSE {"harness"})
CNext == /\ i > 0
         /\ PrintT(<<"VERDICT", i, SetToSeq(CommandClauses(Records[i]))>>)
         /\ i' = -i
CSpec == Init /\ [][CNext]_i
=============================================================================
