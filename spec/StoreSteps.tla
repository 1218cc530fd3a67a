---------------------------- MODULE StoreSteps ----------------------------
(* Executions (processes) creating and using tables at the same time, interrupted at any point, one file system operation
   after the other. Mechanisms can be switched off, to show that the guarantees need them:
     Excl   names of new tables are reserved (created exclusively)
     Tmp    tables are written to a temporary file, then renamed
     CfgTmp the configuration file is written to a temporary file, then renamed
     Lock   changes of the configuration are exclusive and made on the current content of the file                     *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Procs, Keys, NameSet, MaxRuns, Excl, Tmp, CfgTmp, Lock
VARIABLES
  file,    \* [NameSet -> content]: 0 (none), -1 (incomplete), -2 (reserved, empty), or a key (complete table)
  cfg,     \* configuration file: [ok, reg], reg: [Keys -> NameSet or 0]
  p,       \* processes: [pc, k, create, snap, n, new]
  lock,    \* process holding the lock, or 0
  runs,    \* executions started
  ever     \* registrations of completed executions: set of <<key, name>>
vars == <<file, cfg, p, lock, runs, ever>>
None == 0
Empty == [k \in Keys |-> 0]
Idle == [pc |-> "idle", k |-> 0, create |-> FALSE, snap |-> Empty, n |-> 0, new |-> FALSE, res |-> "none"]
Init == /\ file = [n \in NameSet |-> None] /\ cfg = [ok |-> TRUE, reg |-> Empty]
        /\ p = [q \in Procs |-> Idle] /\ lock = 0 /\ runs = 0 /\ ever = {}
Set(q, f) == p' = [p EXCEPT ![q] = f]
Used(r) == {r[k] : k \in Keys} \ {0}

Start(q) == /\ p[q].pc = "idle" /\ runs < MaxRuns /\ runs' = runs + 1
            /\ \E k \in Keys, c \in BOOLEAN : Set(q, [Idle EXCEPT !.pc = "load", !.k = k, !.create = c])
            /\ UNCHANGED <<file, cfg, lock, ever>>
Load(q) == /\ p[q].pc = "load"
           /\ Set(q, IF cfg.ok THEN [p[q] EXCEPT !.pc = "look", !.snap = cfg.reg] ELSE [p[q] EXCEPT !.pc = "end", !.res = "error"])
           /\ UNCHANGED <<file, cfg, lock, runs, ever>>
Look(q) == /\ p[q].pc = "look"
           /\ LET r == p[q] n == r.snap[r.k] IN
              IF n # 0 /\ file[n] # None
              THEN Set(q, [r EXCEPT !.pc = "read", !.n = n])
              ELSE IF ~r.create THEN Set(q, [r EXCEPT !.pc = "end", !.res = "refused"])
              ELSE IF n # 0 THEN Set(q, [r EXCEPT !.pc = "write", !.n = n])
              ELSE \E m \in NameSet : /\ file[m] = None /\ m \notin Used(r.snap)
                                      /\ Set(q, [r EXCEPT !.pc = IF Excl THEN "reserve" ELSE "write", !.n = m, !.new = TRUE])
           /\ UNCHANGED <<file, cfg, lock, runs, ever>>
Read(q) == /\ p[q].pc = "read"
           /\ Set(q, [p[q] EXCEPT !.pc = "end", !.res = IF file[p[q].n] = p[q].k THEN "right" ELSE "wrong"])
           /\ UNCHANGED <<file, cfg, lock, runs, ever>>
Reserve(q) == /\ p[q].pc = "reserve"
              /\ IF file[p[q].n] = None
                 THEN file' = [file EXCEPT ![p[q].n] = -2] /\ Set(q, [p[q] EXCEPT !.pc = "write"])
                 ELSE /\ UNCHANGED file
                      /\ \E m \in NameSet : file[m] = None /\ m \notin Used(p[q].snap) /\ Set(q, [p[q] EXCEPT !.n = m])
              /\ UNCHANGED <<cfg, lock, runs, ever>>
(* content of temporary files can't be seen by others: only their renaming is a step *)
Write(q) == /\ p[q].pc = "write"
            /\ IF Tmp THEN file' = [file EXCEPT ![p[q].n] = p[q].k] /\ Set(q, [p[q] EXCEPT !.pc = "lock"])
               ELSE file' = [file EXCEPT ![p[q].n] = -1] /\ Set(q, [p[q] EXCEPT !.pc = "written"])
            /\ UNCHANGED <<cfg, lock, runs, ever>>
Written(q) == /\ p[q].pc = "written"
              /\ file' = [file EXCEPT ![p[q].n] = p[q].k] /\ Set(q, [p[q] EXCEPT !.pc = "lock"])
              /\ UNCHANGED <<cfg, lock, runs, ever>>
Acquire(q) == /\ p[q].pc = "lock"
              /\ IF Lock THEN lock = 0 /\ lock' = q /\ Set(q, [p[q] EXCEPT !.pc = "cfg", !.snap = cfg.reg])
                 ELSE UNCHANGED lock /\ Set(q, [p[q] EXCEPT !.pc = "cfg"])
              /\ UNCHANGED <<file, cfg, runs, ever>>
Configure(q) == /\ p[q].pc = "cfg"
                /\ IF CfgTmp THEN cfg' = [ok |-> TRUE, reg |-> [p[q].snap EXCEPT ![p[q].k] = p[q].n]] /\ Set(q, [p[q] EXCEPT !.pc = "unlock"])
                   ELSE cfg' = [cfg EXCEPT !.ok = FALSE] /\ Set(q, [p[q] EXCEPT !.pc = "configured"])
                /\ UNCHANGED <<file, lock, runs, ever>>
Configured(q) == /\ p[q].pc = "configured"
                 /\ cfg' = [ok |-> TRUE, reg |-> [p[q].snap EXCEPT ![p[q].k] = p[q].n]] /\ Set(q, [p[q] EXCEPT !.pc = "unlock"])
                 /\ UNCHANGED <<file, lock, runs, ever>>
Unlock(q) == /\ p[q].pc = "unlock" /\ lock' = (IF lock = q THEN 0 ELSE lock)
             /\ Set(q, [p[q] EXCEPT !.pc = "end", !.res = "right"]) /\ ever' = ever \cup {p[q].k}
             /\ UNCHANGED <<file, cfg, runs>>
End(q) == /\ p[q].pc = "end" /\ Set(q, Idle) /\ UNCHANGED <<file, cfg, lock, runs, ever>>
Crash(q) == /\ p[q].pc \notin {"idle", "end"} /\ lock' = (IF lock = q THEN 0 ELSE lock) /\ Set(q, Idle)
            /\ UNCHANGED <<file, cfg, runs, ever>>
(* a registered table is removed by the user while nothing is running *)
Remove == /\ \A q \in Procs : p[q].pc = "idle"
          /\ \E n \in NameSet : n \in Used(cfg.reg) /\ file[n] # None /\ file' = [file EXCEPT ![n] = None]
          /\ UNCHANGED <<cfg, p, lock, runs, ever>>
Step(q) == Start(q) \/ Load(q) \/ Look(q) \/ Read(q) \/ Reserve(q) \/ Write(q) \/ Written(q) \/ Acquire(q) \/ Configure(q)
           \/ Configured(q) \/ Unlock(q) \/ End(q)
Next == Remove \/ \E q \in Procs : Step(q) \/ Crash(q)
Spec == Init /\ [][Next]_vars
Valid == cfg.ok
Tables == cfg.ok => \A k \in Keys : cfg.reg[k] # 0 => file[cfg.reg[k]] \in {None, k}
Shared == \A k, j \in Keys : k # j /\ cfg.reg[k] # 0 => cfg.reg[k] # cfg.reg[j]
Results == \A q \in Procs : p[q].res \notin {"wrong", "error"}
Registered == cfg.ok => \A k \in ever : cfg.reg[k] # 0
Inv == Valid /\ Tables /\ Shared /\ Results /\ Registered
Sym == Permutations(Procs)
===========================================================================
