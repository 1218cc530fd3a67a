------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* One execution of pyg2p, from the GRIB messages to the output maps.       *)
(*                                                                          *)
(* The state machine has one action for each stage of the execution:        *)
(*   ReadInfo -> Select -> Convert -> AggregateFirst -> AggregateSecond ->   *)
(*   CutOff -> Correct -> Mask -> done                                      *)
(* A field is a sequence of cells (rationals, or MISS).  Interpolation is    *)
(* the identity here: it is the subject of Interp.tla, and the harness       *)
(* concretises scenarios with targets lying on source points.               *)
(*                                                                          *)
(* scenario sc:                                                             *)
(*   cfg   names <<sn, SN, snvar>>, tstart, tend (-1: not given),            *)
(*         mem, lvl, date, time (-1: not requested), agg ("none",            *)
(*         "accumulation", "average", "instantaneous"), step, half, fz,      *)
(*         unit, conv [on, p, q, c] (x -> p*x*x + q*x + c), cut,             *)
(*         corr [on, cp, cg, cd, gq, gc], two (second file given)            *)
(*   msgs, msgs2   messages [sn, s, e, st, lvl, date, time, mem, res, v]     *)
(*   clone  sequence of booleans (FALSE: masked cell)                        *)
(*   dem    field;  geo  sequence of fields, one for each resolution         *)
(*          (<<>>: no geopotential for that grid)                            *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

VARIABLES sc,     \* the scenario (never changes)
          ph,     \* next stage
          info,   \* [empty, end, inputStep, st]
          first,  \* first resolution: function from labels [s,e,lvl] to fields
          second, \* second resolution
          out,    \* sequence of [s, e, res, cells]
          outcome \* "run", "ok", "none" (no messages), "refused"

pvars == <<sc, ph, info, first, second, out, outcome>>

----------------------------------------------------------------------------
(* fields *)
FMap(Op(_), f) == TLCEval([c \in DOMAIN f |-> Op(f[c])])
FAdd(f, g)   == TLCEval([c \in DOMAIN f |-> RAdd(f[c], g[c])])   \* (TLCEval only avoids repeated evaluations)
FSub(f, g)   == TLCEval([c \in DOMAIN f |-> RSub(f[c], g[c])])
FScale(f, r) == TLCEval([c \in DOMAIN f |-> RMul(f[c], r)])
FZero(f)     == TLCEval([c \in DOMAIN f |-> I(0)])

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Range0(a, b, st) == {a + k * st : k \in {j \in 0..((b - a) \div st) : b >= a}}

----------------------------------------------------------------------------
(* Selection of messages *)
Matches(cfg, m) ==
    /\ cfg.mem  = -1 \/ m.mem  = cfg.mem
    /\ cfg.lvl  = -1 \/ m.lvl  = cfg.lvl
    /\ cfg.date = -1 \/ m.date = cfg.date
    /\ cfg.time = -1 \/ m.time = cfg.time

InfoMsgs(cfg, msgs) == {i \in DOMAIN msgs : msgs[i].sn = cfg.names[1] /\ Matches(cfg, msgs[i])}

(* difference of the first two end steps (0 if they are the same) *)
InputStep(msgs, S) ==
    LET ends == SortSeq([k \in 1..Cardinality(S) |-> msgs[SetToSeq(S)[k]].e], LAMBDA a, b : a < b)
    IN  IF Cardinality(S) = 1
        THEN LET m == msgs[CHOOSE i \in S : TRUE] IN m.e - m.s
        ELSE ends[2] - ends[1]

StartStep(cfg) == IF cfg.tstart = -1 THEN 0 ELSE cfg.tstart
EndStep(cfg, msgs, S) == IF cfg.tend = -1 THEN SetMax({msgs[i].e : i \in S}) ELSE cfg.tend

(* one aggregation step is needed before the requested start *)
UsableStart(cfg, inputStep) ==
    IF cfg.agg = "none" \/ inputStep = 0 THEN StartStep(cfg)
    ELSE IF StartStep(cfg) - cfg.step < 0 THEN 0 ELSE StartStep(cfg) - cfg.step

Selected(cfg, msgs, lo, hi) ==
    LET cand == {i \in DOMAIN msgs : msgs[i].sn \in {cfg.names[1], cfg.names[2], cfg.names[3]} /\ Matches(cfg, msgs[i])}
        inb  == IF lo = hi THEN {i \in cand : msgs[i].s = lo /\ msgs[i].e = hi}
                ELSE {i \in cand : msgs[i].s >= lo /\ msgs[i].e <= hi}
    IN  (* named deviation: without messages after the start step, any start step is accepted *)
        IF inb = {} /\ lo # hi /\ lo > 0 THEN {i \in cand : msgs[i].e <= hi} ELSE inb

Lab(m) == [s |-> m.s, e |-> m.e, lvl |-> m.lvl]
FieldsOf(msgs, S) == [l \in {Lab(msgs[i]) : i \in S} |-> msgs[CHOOSE i \in S : Lab(msgs[i]) = l].v]

----------------------------------------------------------------------------
(* Aggregations: A is a function from end steps to fields *)
ByEnd(F) == TLCEval([e \in {l.e : l \in DOMAIN F} |-> F[CHOOSE l \in DOMAIN F : l.e = e]])

NextAv(A, h) == SetMin({e \in DOMAIN A : e >= h})
HasNext(A, h) == \E e \in DOMAIN A : e >= h

(* cumulated value at step t: piecewise linear, 0 at step 0 when missing *)
CumAt(A, t) ==
    IF t \in DOMAIN A THEN A[t]
    ELSE IF t = 0 THEN FZero(A[CHOOSE e \in DOMAIN A : TRUE])
    ELSE LET n  == NextAv(A, t)
             pr == {e \in DOMAIN A : e < t}
             o  == IF pr = {} THEN 0 ELSE SetMax(pr)
             vo == IF pr = {} THEN FZero(A[n]) ELSE A[o]
         IN  FAdd(vo, FScale(FSub(A[n], vo), R(t - o, n - o)))

AccWindows(cfg, start, end) ==
    LET w0 == IF start = 0 THEN cfg.step ELSE start IN Range0(w0, end, cfg.step)

Accumulation(cfg, F, start, end) ==
    LET A == ByEnd(F)
        D(E) == LET a == CumAt(A, E)
                    b == IF E - cfg.step = 0 /\ cfg.fz THEN FZero(a) ELSE CumAt(A, E - cfg.step)
                IN  FScale(FSub(a, b), R(cfg.unit, cfg.step))
    IN  [l \in {[s |-> E - cfg.step, e |-> E] : E \in AccWindows(cfg, start, end)} |-> D(l.e)]

(* named deviation: from step 0, half weights averages have a last window even without its last step *)
AvgWindows(cfg, start, end) ==
    LET lo == IF start = 0 THEN 0 ELSE start - cfg.step
        hi == end - cfg.step + (IF start = 0 /\ cfg.half THEN 1 ELSE 0)
    IN  Range0(lo, hi, cfg.step)

RECURSIVE FSum(_, _)
FSum(G, S) == LET x == CHOOSE y \in S : TRUE
              IN  IF S = {x} THEN G[x] ELSE FAdd(G[x], FSum(G, S \ {x}))

PlainMean(cfg, A, lo) ==
    LET hours == (lo + 1)..(lo + cfg.step)
    IN  FScale(FSum([h \in hours |-> A[NextAv(A, h)]], hours), R(1, cfg.step))

HalfMean(cfg, A, lo) ==
    LET av == {e \in DOMAIN A : e >= lo /\ e <= lo + cfg.step}
        w2(e) == IF e = lo \/ e = lo + cfg.step THEN 1 ELSE 2      \* weights times 2
        tot == FoldSet(LAMBDA e, acc : acc + w2(e), 0, av)
    IN  FScale(FSum([e \in av |-> FScale(A[e], I(w2(e)))], av), R(1, tot))

Average(cfg, F, start, end) ==
    LET A == ByEnd(F)
    IN  [l \in {[s |-> lo, e |-> lo + cfg.step] : lo \in AvgWindows(cfg, start, end)}
            |-> IF cfg.half THEN HalfMean(cfg, A, l.s) ELSE PlainMean(cfg, A, l.s)]

InstSteps(cfg, start, end, st, inputStep) ==
    LET t0 == IF st = "avg" THEN start + inputStep
              ELSE IF start - cfg.step > 0 THEN start - cfg.step ELSE start
    IN  Range0(t0, end, cfg.step)

Instantaneous(cfg, F, start, end, st, inputStep) ==
    LET A == ByEnd(F)
    IN  [l \in {[s |-> t, e |-> t] : t \in InstSteps(cfg, start, end, st, inputStep)}
            |-> IF l.e \in DOMAIN A THEN A[l.e]
                ELSE IF l.e = 0 THEN FZero(A[CHOOSE e \in DOMAIN A : TRUE])
                ELSE A[NextAv(A, l.e)]]

Aggregate(cfg, F, start, end, st, inputStep) ==
    CASE cfg.agg = "accumulation"  -> Accumulation(cfg, F, start, end)
      [] cfg.agg = "average"       -> Average(cfg, F, start, end)
      [] cfg.agg = "instantaneous" -> Instantaneous(cfg, F, start, end, st, inputStep)

(* every needed message exists: outside of this, behaviour is not specified *)
Covered(cfg, F, start, end, st, inputStep) ==
    LET A == ByEnd(F) IN
    CASE cfg.agg = "none" -> Cardinality({l.e : l \in DOMAIN F}) = Cardinality(DOMAIN F)
      [] cfg.agg = "accumulation" ->
            /\ start = 0 \/ start >= cfg.step
            /\ AccWindows(cfg, start, end) # {}
            /\ \A E \in AccWindows(cfg, start, end) : HasNext(A, E)
      [] cfg.agg = "average" ->
            /\ start = 0 \/ start >= cfg.step
            /\ AvgWindows(cfg, start, end) # {}
            /\ \A lo \in AvgWindows(cfg, start, end) :
                 IF cfg.half THEN Cardinality({e \in DOMAIN A : e >= lo /\ e <= lo + cfg.step}) >= 2
                 ELSE HasNext(A, lo + cfg.step)
      [] cfg.agg = "instantaneous" ->
            /\ InstSteps(cfg, start, end, st, inputStep) # {}
            /\ \A t \in InstSteps(cfg, start, end, st, inputStep) : t = 0 \/ HasNext(A, t)

----------------------------------------------------------------------------
(* The state machine *)
NoInfo == [end |-> 0, inputStep |-> 0, lo |-> 0, st |-> "none"]
Empty == [l \in {} |-> <<>>]

PInit(s) == /\ sc = s /\ ph = "info" /\ info = NoInfo /\ first = Empty /\ second = Empty
            /\ out = <<>> /\ outcome = "run"

Stop(o) == /\ ph' = "done" /\ outcome' = o
           /\ UNCHANGED <<sc, info, first, second, out>>

ReadInfo ==
    /\ ph = "info"
    /\ LET S == InfoMsgs(sc.cfg, sc.msgs) IN
       IF S = {} THEN Stop("none")
       ELSE LET is == InputStep(sc.msgs, S)
                lastm == sc.msgs[SetMax(S)]   \* step type of the last message of the file
            IN  /\ info' = [end |-> EndStep(sc.cfg, sc.msgs, S), inputStep |-> is,
                            lo |-> UsableStart(sc.cfg, is), st |-> lastm.st]
                /\ ph' = "select"
                /\ UNCHANGED <<sc, first, second, out, outcome>>

(* resolutions are the ones of messages in the order of the file *)
Select ==
    /\ ph = "select"
    /\ LET S1 == Selected(sc.cfg, sc.msgs, info.lo, info.end)
           S2 == IF sc.cfg.two THEN Selected(sc.cfg, sc.msgs2, info.lo, info.end) ELSE {}
       IN  IF S1 = {} \/ (sc.cfg.two /\ S2 = {}) THEN Stop("none")
           ELSE LET r1 == sc.msgs[SetMin(S1)].res
                    A1 == {i \in S1 : sc.msgs[i].res = r1}
                    B1 == S1 \ A1
                IN  /\ first' = FieldsOf(sc.msgs, A1)
                    /\ second' = IF sc.cfg.two THEN FieldsOf(sc.msgs2, S2) ELSE FieldsOf(sc.msgs, B1)
                    /\ ph' = "convert"
                    /\ UNCHANGED <<sc, info, out, outcome>>

Conv(cv, r) == RAdd(RAdd(RMul(RMul(r, r), I(cv.p)), RMul(r, I(cv.q))), I(cv.c))

Convert ==
    /\ ph = "convert"
    /\ LET cv == sc.cfg.conv
           cf(F) == IF cv.on THEN [l \in DOMAIN F |-> FMap(LAMBDA r : IF IsMiss(r) THEN MISS ELSE Conv(cv, r), F[l])] ELSE F
       IN  first' = cf(first) /\ second' = cf(second)
    /\ ph' = "agg1"
    /\ UNCHANGED <<sc, info, out, outcome>>

HasSecond == DOMAIN second # {}
Change == SetMin({l.e : l \in DOMAIN second})
Refused == (sc.cfg.agg = "average" \/ sc.cfg.agg = "instantaneous") /\ info.st = "accum"
FirstEnd == IF ~HasSecond THEN info.end
            ELSE IF sc.cfg.agg = "none" \/ info.st = "accum" THEN Change
            ELSE (CHOOSE l \in DOMAIN second : l.e = Change).s
(* labels of the results, to be sorted by end step *)
Results(F, res) == {[s |-> l.s, e |-> l.e, res |-> res, cells |-> F[l]] : l \in DOMAIN F}
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a.e < b.e \/ (a.e = b.e /\ a.res < b.res))

AggregateFirst ==
    /\ ph = "agg1"
    /\ IF Refused THEN Stop("refused")
       ELSE /\ first' = IF sc.cfg.agg = "none"
                        THEN [l \in {k \in DOMAIN first : k.e <= FirstEnd \/ ~HasSecond} |-> first[l]]
                        ELSE Aggregate(sc.cfg, first, StartStep(sc.cfg), FirstEnd, info.st, info.inputStep)
            /\ ph' = "agg2"
            /\ UNCHANGED <<sc, info, second, out, outcome>>

(* named deviation: without aggregation, and with instantaneous one, the step of the change is in both resolutions *)
AggregateSecond ==
    /\ ph = "agg2"
    /\ LET start2 == Change + sc.cfg.step
           F2 == IF ~HasSecond THEN Empty
                 ELSE IF sc.cfg.agg = "none" THEN second
                 ELSE IF info.end < start2 THEN Empty
                 ELSE Aggregate(sc.cfg, second, start2, info.end, info.st, info.inputStep)
       IN  /\ second' = F2
           /\ out' = Sorted(Results(first, 1) \cup Results(F2, 2))
    /\ ph' = "cut"
    /\ UNCHANGED <<sc, info, first, outcome>>

CutOff ==
    /\ ph = "cut"
    /\ out' = IF sc.cfg.conv.on /\ sc.cfg.cut
              THEN [i \in DOMAIN out |-> [out[i] EXCEPT !.cells = FMap(LAMBDA r : IF IsMiss(r) THEN MISS ELSE RMax(r, I(0)), @)]]
              ELSE out
    /\ ph' = "correct"
    /\ UNCHANGED <<sc, info, first, second, outcome>>

CorrValue(co, p, z, d) ==
    LET gem == IF IsMiss(z) THEN MISS ELSE RAdd(RMul(z, R(co.gq, 10)), I(co.gc))
    IN  RAdd(RAdd(RMul(p, I(co.cp)), RMul(gem, I(co.cg))), RMul(d, I(co.cd)))

Correct ==
    /\ ph = "correct"
    /\ LET co == sc.cfg.corr IN
       IF ~co.on THEN /\ out' = out /\ ph' = "mask" /\ UNCHANGED <<sc, info, first, second, outcome>>
       ELSE IF \E i \in DOMAIN out : sc.geo[out[i].res] = <<>> THEN Stop("refused")
       ELSE /\ out' = [i \in DOMAIN out |-> [out[i] EXCEPT !.cells =
                          [c \in DOMAIN @ |-> CorrValue(co, @[c], sc.geo[out[i].res][c], sc.dem[c])]]]
            /\ ph' = "mask" /\ UNCHANGED <<sc, info, first, second, outcome>>

Mask ==
    /\ ph = "mask"
    /\ out' = [i \in DOMAIN out |-> [out[i] EXCEPT !.cells = [c \in DOMAIN @ |-> IF sc.clone[c] THEN @[c] ELSE MISS]]]
    /\ ph' = "done" /\ outcome' = "ok"
    /\ UNCHANGED <<sc, info, first, second>>

PNext == ReadInfo \/ Select \/ Convert \/ AggregateFirst \/ AggregateSecond \/ CutOff \/ Correct \/ Mask

(* TRUE when the scenario, at this point, is one whose behaviour is specified *)
SpecifiedHere ==
    IF ph # "agg1" THEN TRUE
    ELSE \/ Refused
         \/ /\ IF sc.cfg.agg = "none"
               THEN TRUE
               ELSE Covered(sc.cfg, first, StartStep(sc.cfg), FirstEnd, info.st, info.inputStep)
            /\ Covered([sc.cfg EXCEPT !.agg = "none"], first, 0, 0, "", 0) \/ sc.cfg.agg = "none"
            /\ HasSecond /\ sc.cfg.agg # "none" =>
                 /\ info.st # "avg"   \* steps between the start and the end of the first message are not specified
                 /\ (Change - StartStep(sc.cfg)) % sc.cfg.step = 0   \* windows aligned to the change
                 /\ ~(sc.cfg.half /\ sc.cfg.step = 1)
                 /\ Change \in {l.e : l \in DOMAIN first}
                 /\ info.end >= Change + sc.cfg.step =>
                      Covered(sc.cfg, second, Change + sc.cfg.step, info.end, info.st, info.inputStep)

(* functional form of the whole behaviour, used where the scenario is evaluated at once *)
=============================================================================
