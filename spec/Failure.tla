------------------------------ MODULE Failure ------------------------------
(* Executions that cannot complete. An execution goes through phases; faults (missing or broken files, wrong arguments or configuration)
   belong to phases; the first phase having one decides. Tables of the grids are created when the first map of a grid is interpolated, so
   a table can exist after a later fault; maps are written only when all of them are available. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Before == <<"init", "select", "read", "maps", "convert">>
ExitCode(phase) == IF phase = "select" THEN 0 ELSE 1    \* no messages: nothing to do
Fails(phase, tables) == [rc |-> ExitCode(phase), done |-> FALSE, tables |-> tables]
RECURSIVE Grids(_, _, _, _)
Grids(gs, F, create, tables) ==
    IF gs = << >> THEN IF "write" \in F THEN Fails("write", tables) ELSE [rc |-> 0, done |-> TRUE, tables |-> tables]
    ELSE IF "tables" \in F \/ (Head(gs) \notin tables /\ ~create) THEN Fails("tables", tables)
    ELSE LET t == tables \cup {Head(gs)}
         IN IF "correct" \in F \/ ("correct2" \in F /\ Head(gs) = 2) THEN Fails("correct", t) ELSE Grids(Tail(gs), F, create, t)
RECURSIVE Phases(_, _, _, _, _)
Phases(k, gs, F, create, tables) ==
    IF k > Len(Before) THEN Grids(gs, F, create, tables)
    ELSE IF Before[k] \in F THEN Fails(Before[k], tables)
    ELSE Phases(k + 1, gs, F, create, tables)
(* grids used (in order), phases having faults, tables may be created, tables existing -> [rc, done: maps are complete, tables after] *)
Outcome(gs, F, create, tables) == Phases(1, gs, F, create, tables)
=============================================================================
