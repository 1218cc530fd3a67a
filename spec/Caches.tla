------------------------------- MODULE Caches -------------------------------
(* A process executing pyg2p many times (P20).                               *)
(*                                                                            *)
(* What an execution depends on: inputs, a function from fields (options of   *)
(* the execution and contents of files) to values. An execution computes      *)
(* components, in this order; each one depends on some fields. A process may  *)
(* keep components: they are found again with a key, made of the values of    *)
(* some fields. Executions may fail after some of the components.             *)
EXTENDS Integers, Sequences, FiniteSets

Components == <<"folders", "definition", "target", "table", "elevation", "geopotential">>
CompSet == {Components[i] : i \in 1..Len(Components)}

Depends ==
    [folders      |-> {"configuration"},
     definition   |-> {"parameters"},
     target       |-> {"coordinates"},
     table        |-> {"source", "coordinates", "mode", "options", "configuration", "tables"},
     elevation    |-> {"dem"},
     geopotential |-> {"source", "coordinates", "mode", "options", "configuration", "tables", "geopotential", "formula"}]

(* fields changing only outputs: not kept by any component *)
Fields == UNION {Depends[c] : c \in CompSet} \cup {"selection", "output", "clone", "interface"}

(* the outcome of an execution in a new process: all the fields *)
Project(inputs, S) == [f \in S |-> inputs[f]]

(* keys of components kept by the process: [component -> set of fields]; components that are not in the domain are computed again *)
Found(cache, keys, c, inputs) == {e \in cache : e.c = c /\ e.key = Project(inputs, keys[c])}

Value(cache, keys, c, inputs) ==
    IF c \in DOMAIN keys /\ (Found(cache, keys, c, inputs) # {}) = TRUE
    THEN (CHOOSE e \in Found(cache, keys, c, inputs) : TRUE).value
    ELSE Project(inputs, Depends[c])

(* components kept after an execution that reached the n-th one *)
After(cache, keys, inputs, n) ==
    cache \cup {[c |-> Components[i], key |-> Project(inputs, keys[Components[i]]), value |-> Value(cache, keys, Components[i], inputs)] :
                i \in {j \in 1..n : Components[j] \in DOMAIN keys}}

(* same as a new process *)
Transparent(cache, keys, inputs) == \A c \in CompSet : Value(cache, keys, c, inputs) = Project(inputs, Depends[c])

(* --- recorded executions: the outcome is a function of options and files only                                                              *)
(* x: [rc, maps, returned, files]: exit code, maps written and returned, user registrations, tables and other files after the execution        *)
Clauses(x, fresh) ==
    (IF x.rc # fresh.rc THEN {"exitcode"} ELSE {})
    \cup (IF x.maps # fresh.maps THEN {"maps"} ELSE {})
    \cup (IF x.returned # fresh.returned THEN {"returned"} ELSE {})
    \cup (IF x.registrations # fresh.registrations THEN {"registrations"} ELSE {})
    \cup (IF x.tables # fresh.tables THEN {"tables"} ELSE {})
    \cup (IF x.others # fresh.others THEN {"files"} ELSE {})
=============================================================================
