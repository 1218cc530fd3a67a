------------------------------ MODULE Context ------------------------------
(* Effective options of an execution: command line, commands file, defaults; user variables; definitions of parameters.
   Options and values are strings; texts of configuration files and paths are sequences of characters (strings of length one). *)
EXTENDS Integers, Sequences, FiniteSets

NONE == "(none)"
(* ------------------------------------------------------------ options *)
(* value of option o in a sequence of pairs <<option, value>>: the last one given *)
RECURSIVE Given(_, _)
Given(q, o) == IF q = << >> THEN NONE
               ELSE IF q[Len(q)].o = o THEN q[Len(q)].v ELSE Given(SubSeq(q, 1, Len(q) - 1), o)
Effective(args, json, defaults, o) ==
    IF Given(args, o) # NONE THEN Given(args, o)
    ELSE IF Given(json, o) # NONE THEN Given(json, o)
    ELSE Given(defaults, o)
(* start and end steps: -1 not given *)
Step(cli, json) == IF cli # -1 THEN cli ELSE json
Refused(start, end) == start # -1 /\ end # -1 /\ start > end
First(start) == IF start = -1 THEN 0 ELSE start
Wanted(avail, start, end) == SelectSeq(avail, LAMBDA s : s >= First(start) /\ (end = -1 \/ s <= end))

(* ------------------------------------------------------------ user variables *)
Blank == {" ", "\t"}
RECURSIVE LTrim(_, _), RTrim(_, _)
LTrim(t, C) == IF t # << >> /\ Head(t) \in C THEN LTrim(Tail(t), C) ELSE t
RTrim(t, C) == IF t # << >> /\ t[Len(t)] \in C THEN RTrim(SubSeq(t, 1, Len(t) - 1), C) ELSE t
Trim(t, C) == RTrim(LTrim(t, C), C)
Index(t, c) == IF \E i \in 1 .. Len(t) : t[i] = c THEN CHOOSE i \in 1 .. Len(t) : t[i] = c /\ \A j \in 1 .. i - 1 : t[j] # c ELSE 0
IsComment(line) == Trim(line, Blank) = << >> \/ Head(LTrim(line, Blank)) = "#"
LineName(line) == Trim(SubSeq(line, 1, Index(line, "=") - 1), Blank)
(* full value: everything after the first "=", without surrounding blanks and quotes *)
LineValue(line) == Trim(SubSeq(line, Index(line, "=") + 1, Len(line)), Blank \cup {"\""})
RECURSIVE Vars(_)
Vars(lines) == IF lines = << >> THEN << >>
               ELSE IF IsComment(Head(lines)) \/ Index(Head(lines), "=") = 0 THEN Vars(Tail(lines))
               ELSE <<[n |-> LineName(Head(lines)), v |-> LineValue(Head(lines))]>> \o Vars(Tail(lines))
UNDEFINED == <<"(", "u", ")">>
RECURSIVE Lookup(_, _)
Lookup(vars, n) == IF vars = << >> THEN UNDEFINED
                   ELSE IF vars[Len(vars)].n = n THEN vars[Len(vars)].v ELSE Lookup(SubSeq(vars, 1, Len(vars) - 1), n)
(* path with variables replaced, once *)
RECURSIVE Expand(_, _)
Expand(path, vars) ==
    IF path = << >> THEN << >>
    ELSE IF Head(path) = "{" /\ Index(path, "}") # 0
         THEN Lookup(vars, SubSeq(path, 2, Index(path, "}") - 1)) \o Expand(SubSeq(path, Index(path, "}") + 1, Len(path)), vars)
         ELSE <<Head(path)>> \o Expand(Tail(path), vars)

(* ------------------------------------------------------------ parameters
   definitions: sequences of [sn, unit, convs: sequence of [id, unit, k]] (k: constant added by the conversion) *)
NODEF == [sn |-> NONE, unit |-> NONE, convs |-> << >>]
RECURSIVE Defined(_, _)
Defined(defs, sn) == IF defs = << >> THEN NODEF ELSE IF Head(defs).sn = sn THEN Head(defs) ELSE Defined(Tail(defs), sn)
Definition(user, global, sn) == IF Defined(user, sn) # NODEF THEN Defined(user, sn) ELSE Defined(global, sn)
NOCONV == [id |-> NONE, unit |-> NONE, k |-> 0]
RECURSIVE Conversion(_, _)
Conversion(convs, id) == IF convs = << >> THEN NOCONV ELSE IF Head(convs).id = id THEN Head(convs) ELSE Conversion(Tail(convs), id)
(* [ok, unit, k] *)
Converted(user, global, sn, id) ==
    LET d == Definition(user, global, sn) c == Conversion(d.convs, id)
    IN IF d = NODEF THEN [ok |-> FALSE, unit |-> NONE, k |-> 0]
       ELSE IF id = NONE THEN [ok |-> TRUE, unit |-> d.unit, k |-> 0]
       ELSE [ok |-> c # NOCONV, unit |-> c.unit, k |-> c.k]
============================================================================
