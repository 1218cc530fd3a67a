------------------------------ MODULE StoreMC ------------------------------
(* Histories of executions and actions of the user *)
EXTENDS Store, Sequences, TLC
CONSTANTS Keys, NameSet, Depth, WithAlt, WithOrphans, Trust
VARIABLES s, h, last
vars == <<s, h, last>>
Op == [op : STRING]
Init == s = [reg |-> {}, files |-> {}, var |-> "ok", valid |-> TRUE] /\ h = <<>> /\ last = "none"
In(d, n) == \E f \in s.files : f.d = d /\ f.n = n
Do(t, o) == s' = t /\ h' = Append(h, o)
(* Trust: FALSE for an implementation that takes any name not existing as file, even when registered *)
Exec(k, c, a) ==
    LET x == [k |-> k, create |-> c, alt |-> a]
        d == Main(x)
        o == [op |-> "exec", k |-> k, create |-> c, alt |-> a, n |-> 0]
    IN IF Found(s, x)
       THEN LET r == CHOOSE q \in Of(s, k) : TRUE
                e == IF \E f \in s.files : f.d \in Folders(s, x) \ {"global"} /\ f.n = r.n
                     THEN CHOOSE f \in s.files : f.d \in Folders(s, x) \ {"global"} /\ f.n = r.n
                     ELSE CHOOSE f \in s.files : f.d = "global" /\ f.n = r.n
            IN Do(s, o) /\ last' = IF e.c = k THEN "right" ELSE "wrong"
       ELSE IF ~Succeeds(s, x) THEN Do(s, o) /\ last' = "refused"
       ELSE IF Of(s, k) # {}
       THEN LET r == CHOOSE q \in Of(s, k) : TRUE IN
            /\ Do([s EXCEPT !.files = @ \cup {[d |-> d, n |-> r.n, c |-> k]}], o) /\ last' = "right"
       ELSE \E n \in NameSet :
              /\ ~In(d, n) /\ (Trust => n \notin Names(s))
              /\ \A m \in NameSet : m < n => In(d, m) \/ (Trust /\ m \in Names(s))
              /\ Do([s EXCEPT !.files = @ \cup {[d |-> d, n |-> n, c |-> k]}, !.reg = @ \cup {[e |-> k, k |-> k, n |-> n, g |-> FALSE]}], o)
              /\ last' = "right"
User == /\ last' = "user"
        /\ \/ \E f \in s.files : Do([s EXCEPT !.files = @ \ {f}], [op |-> "delete", k |-> f.c, create |-> FALSE, alt |-> f.d = "alt", n |-> IF f.d = "global" THEN -1 ELSE f.n])
           \/ \E v \in {"ok", "undefined", "missing"} \ {s.var} :
                Do([s EXCEPT !.var = v], [op |-> v, k |-> 0, create |-> FALSE, alt |-> FALSE, n |-> 0])
           \/ WithOrphans /\ \E r \in s.reg : ~r.g /\ Do([s EXCEPT !.reg = @ \ {r}], [op |-> "unregister", k |-> r.k, create |-> FALSE, alt |-> FALSE, n |-> r.n])
           \/ WithOrphans /\ \E n \in NameSet : /\ ~In("user", n) /\ n \notin Names(s)
                /\ Do([s EXCEPT !.files = @ \cup {[d |-> "user", n |-> n, c |-> 0]}], [op |-> "foreign", k |-> 0, create |-> FALSE, alt |-> FALSE, n |-> n])
           \/ \E r \in s.reg : /\ In("user", r.n) /\ ~In("global", r.n)
                /\ Do([s EXCEPT !.files = {f \in @ : ~(f.d = "user" /\ f.n = r.n)} \cup {[d |-> "global", n |-> r.n, c |-> r.k]},
                              !.reg = (@ \ {r}) \cup {[r EXCEPT !.g = TRUE]}],
                      [op |-> "global", k |-> r.k, create |-> FALSE, alt |-> FALSE, n |-> r.n])
(* (with an alternative folder, files left without registration could be found for the next registration having their name) *)
Check == /\ (WithAlt => \A f \in s.files : f.d \in {"user", "alt"} => f.n \in {r.n : r \in Checked(s)})
         /\ Do([s EXCEPT !.reg = Checked(s)], [op |-> "check", k |-> 0, create |-> FALSE, alt |-> FALSE, n |-> 0]) /\ last' = "checked"
Next == /\ Len(h) < Depth
        /\ \/ \E k \in Keys, c \in BOOLEAN, a \in (IF WithAlt THEN BOOLEAN ELSE {FALSE}) : Exec(k, c, a)
           \/ User \/ Check
Spec == Init /\ [][Next]_vars
Inv == Consistent(s) /\ last # "wrong"
(* nothing but the user changes tables and registrations *)
Kept == /\ last' # "user" => s.files \subseteq s'.files
        /\ last' \notin {"user", "checked"} => s.reg \subseteq s'.reg
        /\ last' = "checked" => \A r \in s.reg \ s'.reg : ~In("user", r.n) \/ s.var # "ok"
Prop == [][Kept]_vars
(* transitions of the model are the ones allowed by Store *)
Allowed == (last' \notin {"user", "checked"} /\ h' # h) =>
    LET o == h'[Len(h')] x == [k |-> o.k, create |-> o.create, alt |-> o.alt]
    IN ExecClauses(s, x, s', IF last' = "refused" THEN 1 ELSE 0, last' = "right", IF last' = "refused" THEN 0 ELSE 1) = {}
AllowedProp == [][Allowed]_vars
View == <<s, last, Len(h)>>
============================================================================
