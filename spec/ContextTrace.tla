---------------------------- MODULE ContextTrace ----------------------------
(* Observations of executions:
   [args, json, defaults: sequences of [o, v];  obs: observed effective values, [o, v]
    se: [cs, js, ce, je] start and end steps (-1: not given), avail: steps of the input, steps: steps of the output
    lines: lines of configuration files, paths: [p: path of the commands file, used: path of the map used (characters)]
    user, global: definitions, sn, conv, oconv: [unit, k] observed
    rc, wrote, intact] *)
EXTENDS Context, TLC, Json, IOUtils, SequencesExt
Records == ndJsonDeserialize(IOEnv.TRACE)
Clauses(r) ==
    LET start == Step(r.se.cs, r.se.js)
        end == Step(r.se.ce, r.se.je)
        c == Converted(r.user, r.global, r.sn, r.conv)
        vs == Vars(r.lines)
        ok == ~Refused(start, end) /\ c.ok
    IN (IF r.intact THEN {} ELSE {"intact"})
       \cup IF ~ok THEN (IF r.rc = 1 THEN {} ELSE {"exitcode"}) \cup (IF r.wrote THEN {"written"} ELSE {})
            ELSE IF r.rc # 0 \/ ~r.wrote THEN {"exitcode"}
            ELSE UNION {IF r.obs[k].v = Effective(r.args, r.json, r.defaults, r.obs[k].o) THEN {} ELSE {"option " \o r.obs[k].o} : k \in 1 .. Len(r.obs)}
                 \cup (IF r.steps = Wanted(r.avail, start, end) THEN {} ELSE {"steps"})
                 \cup UNION {IF r.paths[k].used = Expand(r.paths[k].p, vs) THEN {} ELSE {"variables"} : k \in 1 .. Len(r.paths)}
                 \cup (IF r.oconv.k = c.k /\ r.oconv.unit \in {c.unit, "(unseen)"} THEN {} ELSE {"definition"})
VARIABLES i
Init == i \in 1 .. Len(Records)
Next == /\ i > 0
        /\ PrintT(<<"VERDICT", i, SetToSeq(Clauses(Records[i]))>>)
        /\ i' = -i
Spec == Init /\ [][Next]_i
============================================================================
