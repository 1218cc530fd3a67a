----------------------------- MODULE PipelineMC -----------------------------
(* Exhaustive exploration of small scenarios, see PipelineMC_*.cfg *)
EXTENDS Pipeline

CONSTANTS Steps,      \* possible end steps
          AggSteps, Starts, Aggs, STypes, Units, Halfs, Fzs, MaxMsgs, Switches, Convs, Cuts, MissSets

Val(e) == ((e * 7) % 5) - 1 + e     \* not monotone, with negative and repeated values
(* cell 1 has always data, cell 2 misses it in messages M, cell 3 in all of them *)
Field(e, M) == <<I(Val(e)), IF e \in M THEN MISS ELSE I(10 - Val(e)), MISS>>
Msg(e, st, M, res, prev) ==
    [sn |-> "x", s |-> IF st = "accum" THEN 0 ELSE IF st = "avg" THEN prev ELSE e, e |-> e, st |-> st,
     lvl |-> 0, date |-> 0, time |-> 0, mem |-> -1, res |-> res, v |-> Field(e, M)]
Prev(S, e) == LET p == {x \in S : x < e} IN IF p = {} THEN 0 ELSE SetMax(p)
MsgSeq(S, st, M, res) == LET o == SetToSortSeq(S, <) IN [i \in DOMAIN o |-> Msg(o[i], st, M, res, Prev(S, o[i]))]

NoConv == [on |-> FALSE, p |-> 0, q |-> 1, c |-> 0]
NoCorr == [on |-> FALSE, cp |-> 1, cg |-> 0, cd |-> 0, gq |-> 0, gc |-> 0]
Cfg(ag, stp, st0, en, hw, fz, un, sw, cv, cut) ==
    [names |-> <<"x", "X", "xvar">>, tstart |-> st0, tend |-> en, mem |-> -1, lvl |-> -1, date |-> -1, time |-> -1,
     agg |-> ag, step |-> stp, half |-> hw, fz |-> fz, unit |-> un, conv |-> cv, cut |-> cut, corr |-> NoCorr,
     two |-> sw # 0]

(* without a switch all the messages are in one file; with it the second file starts at the switch *)
Scen(S, st, M, cfg, sw) ==
    LET A == IF sw = 0 THEN S ELSE {e \in S : e <= sw}
        B == {e \in S : e >= sw}
    IN  [cfg |-> cfg, msgs |-> MsgSeq(A, st, M, 1), msgs2 |-> IF sw = 0 THEN <<>> ELSE MsgSeq(B, st, M, 2),
         clone |-> <<TRUE, TRUE, TRUE>>, dem |-> <<I(0), I(0), I(0)>>, geo |-> <<<<>>, <<>>>>]

Init ==
    \E S \in {X \in SUBSET Steps : Cardinality(X) \in 1..MaxMsgs} :
    \E st \in STypes, ag \in Aggs, stp \in AggSteps, st0 \in Starts, hw \in Halfs, fz \in Fzs, un \in Units,
       sw \in Switches, cv \in Convs, cut \in Cuts, en \in {-1} \cup S, M \in {X \in MissSets : X \subseteq S} :
       /\ hw => ag = "average"
       /\ fz => ag = "accumulation"
       /\ ag = "none" => stp = SetMin(AggSteps)
       /\ un = SetMin(Units) \/ ag = "accumulation"
       /\ en = -1 \/ st0 = 99 \/ en >= st0
       /\ sw = 0 \/ (sw \in S /\ en = -1)
       /\ PInit(Scen(S, st, M, Cfg(ag, stp, IF st0 = 99 THEN -1 ELSE st0, en, hw, fz, un, sw,
                    IF cv = 0 THEN NoConv ELSE [on |-> TRUE, p |-> 0, q |-> cv, c |-> 1], cut), sw))

NextMC == (SpecifiedHere = TRUE) /\ PNext   \* "= TRUE": not an action to be split in cases
Spec == Init /\ [][NextMC]_pvars
----------------------------------------------------------------------------
Done == ph = "done" /\ outcome = "ok"
cfg_ == sc.cfg
AllMsgs == {sc.msgs[i] : i \in DOMAIN sc.msgs} \cup {sc.msgs2[i] : i \in DOMAIN sc.msgs2}
Conved(r) == IF cfg_.conv.on /\ ~IsMiss(r) THEN Conv(cfg_.conv, r) ELSE r
At(e, c) == Conved((CHOOSE m \in AllMsgs : m.e = e).v[c])

TypeOK == /\ outcome \in {"run", "ok", "none", "refused"}
          /\ ph \in {"info", "select", "convert", "agg1", "agg2", "cut", "correct", "mask", "done"}
          /\ \A i \in DOMAIN out : \A c \in 1..3 : out[i].cells[c][2] >= 0

(* P14/P15: strictly ordered steps; the step of the change of resolution only may be repeated *)
Ordered == Done => \A i \in 1..(Len(out) - 1) :
              \/ out[i].e < out[i + 1].e
              \/ out[i].e = out[i + 1].e /\ out[i].res < out[i + 1].res /\ cfg_.agg \in {"none", "instantaneous"}

(* P01: nothing outside of the requested period (extended back by one step) *)
InPeriod == Done => \A i \in DOMAIN out : /\ out[i].e <= info.end + (IF cfg_.half THEN 1 ELSE 0)
                                          /\ out[i].s >= 0

(* P02: windows are contiguous and their sum is the total of the period *)
Windows == Done /\ cfg_.agg # "none" /\ cfg_.agg # "instantaneous" =>
              \A i \in DOMAIN out : /\ out[i].e - out[i].s = cfg_.step
                                    /\ i > 1 => out[i].s = out[i - 1].e
RECURSIVE Total(_, _)
Total(c, i) == IF i = 0 THEN I(0) ELSE RAdd(RMul(out[i].cells[c], R(cfg_.step, cfg_.unit)), Total(c, i - 1))
Telescope == Done /\ cfg_.agg = "accumulation" /\ ~cfg_.cut /\ (\A i \in DOMAIN out : ~IsMiss(out[i].cells[1])) =>
               LET lo == out[1].s
                   hi == out[Len(out)].e
                   ends == {m.e : m \in AllMsgs}
               IN  (hi \in ends /\ (lo \in ends \/ lo = 0)) =>
                     Total(1, Len(out)) = RSub(At(hi, 1), IF lo = 0 /\ (cfg_.fz \/ 0 \notin ends) THEN I(0) ELSE At(lo, 1))

(* P03: means are within the bounds of the input *)
Bounded == Done /\ cfg_.agg = "average" /\ ~cfg_.cut =>
             \A i \in DOMAIN out :
                LET used == {At(m.e, 1) : m \in AllMsgs} IN
                /\ \E r \in used : RLe(r, out[i].cells[1])
                /\ \E r \in used : RLe(out[i].cells[1], r)

(* P04: no value is made up *)
Verbatim == Done /\ cfg_.agg \in {"none", "instantaneous"} /\ ~cfg_.cut =>
              \A i \in DOMAIN out : \/ \E m \in AllMsgs : m.e >= out[i].e /\ out[i].cells[1] = At(m.e, 1)
                                    \/ out[i].e = 0 /\ out[i].cells[1] = I(0)

(* P05: same series as the one of a single resolution input *)
SameAsSingle == Done /\ cfg_.two =>
    LET F == [l \in {Lab(m) : m \in AllMsgs} |-> FMap(LAMBDA r : Conved(r), (CHOOSE m \in AllMsgs : Lab(m) = l).v)]
        cutf(f) == IF cfg_.conv.on /\ cfg_.cut THEN FMap(LAMBDA r : IF IsMiss(r) THEN MISS ELSE RMax(r, I(0)), f) ELSE f
        inr == [l \in {k \in DOMAIN F : k.e <= info.end /\ (k.s >= info.lo \/ info.st = "accum")} |-> F[l]]
        sgl == IF cfg_.agg = "none" THEN inr
               ELSE Aggregate(cfg_, inr, StartStep(cfg_), info.end, info.st, info.inputStep)
    IN  /\ cfg_.agg # "none" => {[s |-> out[i].s, e |-> out[i].e] : i \in DOMAIN out}
              \subseteq {[s |-> l.s, e |-> l.e] : l \in DOMAIN sgl}
        /\ (cfg_.agg # "none" /\ (sc.msgs2[1].e - StartStep(cfg_)) % cfg_.step = 0 /\ ~cfg_.half) =>
              /\ {out[i].e : i \in DOMAIN out} = {l.e : l \in DOMAIN sgl}
              /\ \A i \in DOMAIN out : \A l \in DOMAIN sgl : (l.e = out[i].e /\ l.s = out[i].s) => out[i].cells = cutf(sgl[l])

(* P06 *)
NoLoss == Done => \A i \in DOMAIN out : ~IsMiss(out[i].cells[1])
NoMade == Done => \A i \in DOMAIN out :
             /\ IsMiss(out[i].cells[3]) \/ (out[i].e = 0 /\ cfg_.agg = "instantaneous" /\ out[i].cells[3] = I(0))
             (* all the messages that could be used for the window are missing *)
             /\ (\A m \in AllMsgs : IsMiss(m.v[2])) /\ out[i].e > 0 => IsMiss(out[i].cells[2])
             /\ (\A m \in AllMsgs : ~IsMiss(m.v[2])) => ~IsMiss(out[i].cells[2])
             (* a message ending the window is always used (if in the requested period) *)
             /\ (\E m \in AllMsgs : m.e = out[i].e /\ m.e <= info.end /\ m.s >= info.lo /\ IsMiss(m.v[2])) => IsMiss(out[i].cells[2])

(* P07 *)
NoNegative == Done /\ cfg_.conv.on /\ cfg_.cut => \A i \in DOMAIN out : RLe(I(0), out[i].cells[1])

(* P19/P03 *)
RefusedOnly == outcome = "refused" => cfg_.agg \in {"average", "instantaneous"} /\ info.st = "accum" /\ ph = "done"
=============================================================================
