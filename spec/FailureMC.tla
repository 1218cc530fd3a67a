----------------------------- MODULE FailureMC -----------------------------
(* The program, step by step: phases, maps computed one at a time, tables created meanwhile, then writing. Histories of executions on the
   same folders: outputs hold the ones of the last execution that completed. Checked against Outcome. *)
EXTENDS Failure
CONSTANTS MaxRuns, Maps, WriteEarly, Swallow
AllPhases == {"init", "select", "read", "maps", "convert", "tables", "correct", "correct2", "write"}
VARIABLES runs, pc, F, create, gs, tables, out, old, told, rc, left
vars == <<runs, pc, F, create, gs, tables, out, old, told, rc, left>>
(* out: set of [run, map] in the output folder; old: before the current execution *)
Init == /\ runs = 0 /\ pc = "idle" /\ F = {} /\ create = FALSE /\ gs = << >> /\ tables = {} /\ out = {} /\ old = {} /\ told = {} /\ rc = 0 /\ left = << >>
Start == /\ pc = "idle" /\ runs < MaxRuns
         /\ \E f \in SUBSET AllPhases, c \in BOOLEAN, g \in {<<1>>, <<1, 2>>} :
              F' = f /\ create' = c /\ gs' = g
              (* maps: the first ones on the first grid *)
              /\ left' = [m \in 1 .. Maps |-> IF m < Maps \/ Len(g) = 1 THEN 1 ELSE 2]
         /\ runs' = runs + 1 /\ pc' = "init" /\ old' = out /\ told' = tables /\ UNCHANGED <<tables, out, rc>>
After(p) == CASE p = "init" -> "select" [] p = "select" -> "read" [] p = "read" -> "maps" [] p = "maps" -> "convert" [] p = "convert" -> "tables"
Stop(code) == /\ pc' = "end" /\ rc' = code
Simple == /\ pc \in {"init", "select", "read", "maps", "convert"}
          /\ IF pc \in F THEN Stop(ExitCode(pc)) ELSE pc' = After(pc) /\ UNCHANGED rc
          /\ UNCHANGED <<runs, F, create, gs, tables, out, old, told, left>>
WriteOne(m) == {x \in out : x.map # m} \cup {[run |-> runs, map |-> m]}
(* interpolation of the next map *)
Interpolate == /\ pc = "tables"
               /\ IF left = << >> THEN pc' = "write" /\ UNCHANGED <<tables, rc>>
                  ELSE IF "tables" \in F \/ (Head(left) \notin tables /\ ~create) THEN Stop(1) /\ UNCHANGED tables
                  ELSE tables' = tables \cup {Head(left)} /\ pc' = "correct" /\ UNCHANGED rc
               /\ UNCHANGED <<runs, F, create, gs, out, old, told, left>>
Correct == /\ pc = "correct"
           /\ IF ("correct" \in F \/ ("correct2" \in F /\ Head(left) = 2)) /\ ~Swallow THEN Stop(1) /\ UNCHANGED <<out, left>>
              ELSE /\ pc' = "tables" /\ left' = Tail(left) /\ UNCHANGED rc
                   /\ out' = IF WriteEarly THEN WriteOne(Maps - Len(left) + 1) ELSE out
           /\ UNCHANGED <<runs, F, create, gs, tables, old, told>>
Write == /\ pc = "write"
         /\ IF "write" \in F THEN Stop(1) /\ UNCHANGED out
            ELSE out' = {[run |-> runs, map |-> m] : m \in 1 .. Maps} /\ Stop(0)
         /\ UNCHANGED <<runs, F, create, gs, tables, old, told, left>>
End == /\ pc = "end" /\ pc' = "idle" /\ F' = {} /\ create' = FALSE /\ gs' = << >> /\ left' = << >> /\ old' = {} /\ told' = {} /\ rc' = 0 /\ UNCHANGED <<runs, tables, out>>
Next == Start \/ Simple \/ Interpolate \/ Correct \/ Write \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Simple \/ Interpolate \/ Correct \/ Write)
Expected == Outcome(gs, F, create, told)
(* all the maps, or none *)
Atomic == pc = "end" => out = (IF Expected.done THEN {[run |-> runs, map |-> m] : m \in 1 .. Maps} ELSE old)
Reported == pc = "end" => rc = Expected.rc /\ (rc = 0 <=> Expected.done \/ (F \cap {"init"} = {} /\ "select" \in F))
Tables == pc = "end" => tables = Expected.tables /\ told \subseteq tables
Terminates == pc = "init" ~> pc = "end"
=============================================================================
