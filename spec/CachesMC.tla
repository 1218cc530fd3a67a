------------------------------ MODULE CachesMC ------------------------------
(* Histories of executions in a process, with changes of options and files   *)
EXTENDS Caches, TLC

CONSTANTS Values,      \* values of fields
          Depth,       \* operations
          Changed,     \* fields changed in histories
          Lacking,     \* fields that keys lack
          Kept         \* components kept by the process

VARIABLES inputs, cache, h, executed

vars == <<inputs, cache, h, executed>>

Keys == [c \in Kept |-> Depends[c] \ Lacking]

Init == /\ inputs = [f \in Fields |-> 1]
        /\ cache = {}
        /\ h = <<>>
        /\ executed = FALSE

Change(f) == /\ Len(h) < Depth - 1
             /\ \E v \in Values \ {inputs[f]} :
                   /\ inputs' = [inputs EXCEPT ![f] = v]
                   /\ h' = Append(h, [op |-> "change", f |-> f, v |-> v, n |-> 0])
             /\ executed' = FALSE
             /\ UNCHANGED cache

(* n: the last component computed, Len(Components) if the execution does not fail *)
Execute(n) == /\ Len(h) < Depth
              /\ cache' = After(cache, Keys, inputs, n)
              /\ h' = Append(h, [op |-> "execute", f |-> "", v |-> 0, n |-> n])
              /\ executed' = TRUE
              /\ UNCHANGED inputs

Next == (\E f \in Changed : Change(f)) \/ (\E n \in 1..Len(Components) : Execute(n))

Spec == Init /\ [][Next]_vars

(* any execution, in any state of the process, has the outcome of a new process *)
SameAsNew == Transparent(cache, Keys, inputs)

(* entries kept are the ones of their key *)
CacheRight == \A e \in cache : e.c \in Kept /\ e.key = Project(e.value, Keys[e.c])

View == <<inputs, cache, Len(h), executed>>
=============================================================================
