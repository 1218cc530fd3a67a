------------------------------ MODULE SelectMC ------------------------------
(* Exhaustive: selection of messages (P01) over small files with decoys       *)
EXTENDS Pipeline

CONSTANTS Params, Members, Levels, Dates, Ends, MaxLen, TStarts, TEnds, Aggs  \* 99: not given

NG(x) == IF x = 99 THEN -1 ELSE x
Universe == [sn : Params, e : Ends, mem : Members, lvl : Levels, date : Dates]
MsgOf(u) == [sn |-> u.sn, s |-> u.e, e |-> u.e, st |-> "instant", lvl |-> u.lvl, date |-> u.date, time |-> 0, mem |-> u.mem, res |-> 1,
             v |-> <<I(100 * u.e + 10 * u.mem + u.lvl + (IF u.sn = "x" THEN 1000 ELSE 0) + (IF u.date = 1 THEN 5 ELSE 0))>>]
Files == UNION {[1..n -> Universe] : n \in 1..MaxLen}

Cfg(ts, te, mem, lvl, date, ag) ==
    [names |-> <<"x", "X", "xvar">>, tstart |-> ts, tend |-> te, mem |-> mem, lvl |-> lvl, date |-> date, time |-> -1,
     agg |-> ag, step |-> 1, half |-> FALSE, fz |-> FALSE, unit |-> 24, conv |-> [on |-> FALSE, p |-> 0, q |-> 1, c |-> 0], cut |-> FALSE,
     corr |-> [on |-> FALSE, cp |-> 1, cg |-> 0, cd |-> 0, gq |-> 0, gc |-> 0], two |-> FALSE]

(* two different messages for the same step are not specified *)
Clear(cfg, ms) == \A i, j \in DOMAIN ms :
    (i < j /\ ms[i].sn = "x" /\ ms[j].sn = "x" /\ Matches(cfg, ms[i]) /\ Matches(cfg, ms[j])) => ms[i].e # ms[j].e

Init == \E f \in Files, ts \in TStarts, te \in TEnds, mem \in Members \cup {-1}, lvl \in Levels \cup {-1}, date \in Dates \cup {-1}, ag \in Aggs :
          LET cfg == Cfg(NG(ts), NG(te), mem, lvl, date, ag)
              ms  == [i \in DOMAIN f |-> MsgOf(f[i])]
          IN  /\ te # 99 /\ ts # 99 => ts <= te
              /\ Clear(cfg, ms)
              /\ PInit([cfg |-> cfg, msgs |-> ms, msgs2 |-> <<>>, clone |-> <<TRUE>>, dem |-> <<I(0)>>, geo |-> <<<<>>, <<>>>>])
Spec == Init /\ [][(SpecifiedHere = TRUE) /\ PNext]_pvars
----------------------------------------------------------------------------
Mine(m) == m.sn = "x" /\ Matches(sc.cfg, m)
Kept == SelectSeq(sc.msgs, Mine)

(* other messages of the file are not relevant *)
Irrelevant == ph = "agg1" =>
    /\ InfoMsgs(sc.cfg, Kept) = DOMAIN Kept
    /\ info.inputStep = InputStep(Kept, DOMAIN Kept)
    /\ info.end = EndStep(sc.cfg, Kept, DOMAIN Kept)
    /\ first = FieldsOf(Kept, Selected(sc.cfg, Kept, info.lo, info.end))

(* order of messages is not relevant *)
AnyOrder == ph = "agg1" =>
    \A p \in Permutations(DOMAIN sc.msgs) :
       LET ms == [i \in DOMAIN sc.msgs |-> sc.msgs[p[i]]] IN
       /\ InputStep(ms, InfoMsgs(sc.cfg, ms)) = info.inputStep
       /\ EndStep(sc.cfg, ms, InfoMsgs(sc.cfg, ms)) = info.end
       /\ FieldsOf(ms, Selected(sc.cfg, ms, info.lo, info.end)) = first

(* exactly the selected messages, without the helpers of the specification *)
Exactly == (ph = "done" /\ outcome = "ok" /\ sc.cfg.agg = "none") =>
    LET lo == IF sc.cfg.tstart = -1 THEN 0 ELSE sc.cfg.tstart
        want == {m \in Range(Kept) : m.e <= info.end}
        late == {m \in want : m.s >= lo}
        used == IF late = {} /\ lo > 0 /\ lo # info.end THEN want ELSE IF lo = info.end THEN {m \in want : m.s = lo} ELSE late
    IN  {[e |-> m.e, v |-> m.v] : m \in used} = {[e |-> out[i].e, v |-> out[i].cells] : i \in DOMAIN out}

NoneOnly == outcome = "none" =>
    \/ Kept = <<>>
    \/ \A m \in Range(Kept) : m.e > info.end \/ (info.lo = info.end /\ m.s # info.lo) \/ (info.lo = 0 /\ m.e > info.end)
=============================================================================
