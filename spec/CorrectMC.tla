----------------------------- MODULE CorrectMC -----------------------------
(* Exhaustive: correction (P08) for one cell, one or two resolutions          *)
EXTENDS Pipeline

CONSTANTS Vals, Zs, Dems, Forms, Changes, Two

RV(x) == IF x = 99 THEN MISS ELSE I(x)
Forms_ == [f \in Forms |-> CASE f = 1 -> <<1, 1, -1, 10, 0>> [] f = 2 -> <<2, 3, 1, 2, 5>> [] f = 3 -> <<0, 1, 0, 1, 0>> [] OTHER -> <<1, 0, 2, 0, 3>>]

Msg(e, v, res) == [sn |-> "x", s |-> e, e |-> e, st |-> "instant", lvl |-> 0, date |-> 0, time |-> 0, mem |-> -1, res |-> res, v |-> <<RV(v)>>]
Scen(vs, ch, z1, z2, d, cl, f, two) ==
    LET k == Forms_[f]
        A == [i \in 1..ch |-> Msg(i, vs[i], 1)]
        B == [i \in 1..(Len(vs) - ch) |-> Msg(ch + i, vs[ch + i], 2)]
    IN  [cfg |-> [names |-> <<"x", "X", "xvar">>, tstart |-> -1, tend |-> Len(vs), mem |-> -1, lvl |-> -1, date |-> -1, time |-> -1,
                  agg |-> "none", step |-> 1, half |-> FALSE, fz |-> FALSE, unit |-> 24, conv |-> [on |-> FALSE, p |-> 0, q |-> 1, c |-> 0],
                  cut |-> FALSE, corr |-> [on |-> TRUE, cp |-> k[1], cg |-> k[2], cd |-> k[3], gq |-> k[4], gc |-> k[5]], two |-> two],
         msgs |-> IF two THEN A ELSE A \o B, msgs2 |-> IF two THEN B ELSE <<>>, clone |-> <<cl>>, dem |-> <<RV(d)>>,
         geo |-> <<IF z1 = 0 THEN <<>> ELSE <<RV(z1)>>, IF z2 = 0 THEN <<>> ELSE <<RV(z2)>>>>]

Init == \E n \in 1..3 : \E vs \in [1..n -> Vals], ch \in Changes, z1 \in Zs, z2 \in Zs, d \in Dems, cl \in BOOLEAN, f \in Forms, two \in Two :
           /\ ch <= n /\ (two => ch < n)
           /\ PInit(Scen(vs, ch, z1, z2, d, cl, f, two))
Spec == Init /\ [][(SpecifiedHere = TRUE) /\ PNext]_pvars
----------------------------------------------------------------------------
Geo(i) == sc.geo[out[i].res][1]
V(i) == (CHOOSE m \in {sc.msgs[k] : k \in DOMAIN sc.msgs} \cup {sc.msgs2[k] : k \in DOMAIN sc.msgs2} : m.e = out[i].e).v[1]
Done == ph = "done" /\ outcome = "ok"
MissIff == Done => \A i \in DOMAIN out :
    IsMiss(out[i].cells[1]) <=> (IsMiss(V(i)) \/ IsMiss(Geo(i)) \/ IsMiss(sc.dem[1]) \/ ~sc.clone[1])
Formula == Done => \A i \in DOMAIN out : ~IsMiss(out[i].cells[1]) =>
    LET co == sc.cfg.corr IN
    (* ten times the value, in integers *)
    RMul(out[i].cells[1], I(10)) = I(10 * co.cp * V(i)[1] + co.cg * (co.gq * Geo(i)[1] + 10 * co.gc) + 10 * co.cd * sc.dem[1][1])
(* refused, without output, exactly when a geopotential that is needed is not known *)
RefusedIff == ph = "done" =>
    (outcome = "refused" <=> \/ sc.geo[1] = <<>>
                             \/ (DOMAIN second # {} /\ sc.geo[2] = <<>>))
=============================================================================
