------------------------------- MODULE GeoMC -------------------------------
(* Histories of commands and actions of the user. Geopotentials 1 .. C; geopotential c is of grid Grid(c), in a file named Base(c).
   Careful: FALSE for an implementation that copies files with their own name                                              *)
EXTENDS Geo, Sequences, TLC
CONSTANTS C, Depth, Careful
VARIABLES s, h, last
vars == <<s, h, last>>
Grid(c) == (c + 1) \div 2
Grids == {Grid(c) : c \in 1 .. C}
(* names: <<base, number>>: base has extension 0, base_i has i *)
Base(c) == c % 2
Init == s = [reg |-> {}, files |-> {}, var |-> "ok", valid |-> TRUE] /\ h = << >> /\ last = "none"
Do(t, o) == s' = t /\ h' = Append(h, o)
O(op, c, e, d) == [op |-> op, c |-> c, e |-> e, d |-> d]
Nm(b, i) == 10 * b + i
New(b) == IF Careful THEN LET i == CHOOSE i \in 0 .. C + 3 : ~Taken(s, Nm(b, i)) /\ \A j \in 0 .. i - 1 : Taken(s, Nm(b, j)) IN Nm(b, i)
          ELSE Nm(b, 0)
Add(c) ==
    LET x == [e |-> Grid(c), c |-> c, n |-> Nm(Base(c), 0), inside |-> FALSE]
        n == New(Base(c))
        o == O("add", c, x.e, "")
    IN IF AddSucceeds(s, x)
       THEN /\ Do([s EXCEPT !.files = {f \in @ : ~(f.d = "user" /\ f.n = n)} \cup {[d |-> "user", n |-> n, c |-> c]},
                            !.reg = @ \cup {[e |-> x.e, n |-> n, g |-> FALSE]}], o)
            /\ last' = "added"
       ELSE Do(s, o) /\ last' = "refused"
Register(n) == \* a file already in the folder of the user
    /\ n \notin Names(s)
    /\ \E f \in s.files : f.d = "user" /\ f.n = n /\ f.c > 0
         /\ LET x == [e |-> Grid(f.c), c |-> f.c, n |-> n, inside |-> TRUE] o == [O("addinside", f.c, Grid(f.c), "") EXCEPT !.d = ToString(n)]
            IN IF AddSucceeds(s, x) THEN Do([s EXCEPT !.reg = @ \cup {[e |-> x.e, n |-> n, g |-> FALSE]}], o) /\ last' = "added"
               ELSE Do(s, o) /\ last' = "refused"
Remove(e) == /\ Of(s, e) # {}
             /\ LET r == CHOOSE r \in Of(s, e) : TRUE IN
                \* (a file left with this name in an alternative folder would be used for the next one having it)
                ~r.g /\ ~In(s, "alt", r.n) /\ Do([s EXCEPT !.reg = @ \ {r}], O("remove", 0, e, "")) /\ last' = "removed"
Correct(e, a) == LET x == [e |-> e, alt |-> a] c == Chosen(s, x) IN
                 /\ Do(s, O(IF a THEN "correctalt" ELSE "correct", 0, e, ""))
                 /\ last' = IF c = -1 THEN "refused" ELSE IF c > 0 THEN (IF Grid(c) = e THEN "right" ELSE "wrong") ELSE "wrong"
(* user: moves a file to another folder, deletes one, puts a file not being a geopotential, changes variables *)
User == /\ last' = "user"
        /\ \/ \E e \in Grids, d \in {"alt", "global"} : \E r \in Of(s, e) : \E f \in s.files :
                /\ f.d = "user" /\ f.n = r.n /\ ~In(s, d, r.n)
                /\ Do([s EXCEPT !.files = (@ \ {f}) \cup {[f EXCEPT !.d = d]},
                                !.reg = IF d = "global" THEN (@ \ {r}) \cup {[r EXCEPT !.g = TRUE]} ELSE @], O("move", 0, e, d))
           \/ \E e \in Grids, c \in 1 .. C : \E r \in Of(s, e) : \* another geopotential of the same grid
                /\ Grid(c) = e /\ ~In(s, "alt", r.n)
                /\ Do([s EXCEPT !.files = @ \cup {[d |-> "alt", n |-> r.n, c |-> c]}], O("alternative", c, e, "alt"))
           \/ \E e \in Grids, c \in 1 .. C : \E r \in Of(s, e) : \E f \in s.files : \* it replaces the file
                /\ Grid(c) = e /\ f.n = r.n /\ f.c # c
                /\ Do([s EXCEPT !.files = (@ \ {f}) \cup {[f EXCEPT !.c = c]}], O("replace", c, e, f.d))
           \/ \E e \in Grids : \E r \in Of(s, e) : \E f \in s.files : f.n = r.n /\ f.d \in {"user", "alt"}
                /\ Do([s EXCEPT !.files = @ \ {f}], O("delete", 0, e, f.d))
           \/ \E b \in {Base(c) : c \in 1 .. C} : /\ ~Taken(s, Nm(b, 0))
                /\ Do([s EXCEPT !.files = @ \cup {[d |-> "user", n |-> Nm(b, 0), c |-> 0]}], O("foreign", b, 0, "user"))
           \/ \E v \in {"ok", "undefined", "missing"} \ {s.var} : Do([s EXCEPT !.var = v], O(v, 0, 0, ""))
Command == (\E c \in 1 .. C : Add(c)) \/ (\E n \in {f.n : f \in s.files} : Register(n)) \/ (\E e \in Grids : Remove(e))
           \/ (\E e \in Grids, a \in BOOLEAN : Correct(e, a))
Next == Len(h) < Depth /\ (Command \/ User)
Spec == Init /\ [][Next]_vars
Inv == StateClauses(s, Grid) = {} /\ last # "wrong"
(* commands never change files, and only removals lose registrations *)
Kept == last' # "user" => s.files \subseteq s'.files /\ (last' # "removed" => s.reg \subseteq s'.reg)
Prop == [][Kept]_vars
Allowed ==
    h' # h => LET o == h'[Len(h')] IN
    CASE o.op = "add" -> AddClauses(s, [e |-> o.e, c |-> o.c, n |-> Nm(Base(o.c), 0), inside |-> FALSE], s', IF last' = "added" THEN 0 ELSE 1) = {}
      [] o.op = "remove" -> RemoveClauses(s, [n |-> (CHOOSE r \in Of(s, o.e) : TRUE).n], s') = {}
      [] o.op \in {"correct", "correctalt"} ->
            LET x == [e |-> o.e, alt |-> o.op = "correctalt"] c == Chosen(s, x)
            IN CorrectClauses(s, x, s', IF last' = "refused" THEN 1 ELSE 0, c) = {}
      [] OTHER -> TRUE
AllowedProp == [][Allowed]_vars
View == <<s, last, Len(h)>>
============================================================================
