-------------------------------- MODULE Geo --------------------------------
(* Geopotentials: files in folders and their registrations, as seen between commands.

   A state s of the installation:
     s.reg   : set of registrations [e, n, g]: grid identifier e, file n, g: in the configuration common to all users
     s.files : set of files [d, n, c]: folder d ("user", "alt" or "global"), name n, content c: a geopotential (number) or 0
     s.var   : the folder of geopotentials of the user: "ok", "undefined" (no variable), "missing" (no such folder)
     s.valid : configuration files can be read
   Commands x:
     add      [e, c, n, inside]  file n having geopotential c of grid e, inside: it is already in the folder of the user
     remove   [n]                registration of file n
     correct  [e, alt]           execution on grid e with correction, alternative folder requested                            *)
EXTENDS Integers, FiniteSets, Sequences

Of(s, e) == {r \in s.reg : r.e = e}
Names(s) == {r.n : r \in s.reg}
In(s, d, n) == \E f \in s.files : f.d = d /\ f.n = n
Taken(s, n) == n \in Names(s) \/ In(s, "user", n)

(* ---------------------------------------------------------------- registration of a geopotential *)
AddSucceeds(s, x) == Of(s, x.e) = {} /\ (s.var = "ok")
Added(s, x, t) ==
    /\ t.var = s.var
    /\ \E n \in Names(t) :
          /\ t.reg = s.reg \cup {[e |-> x.e, n |-> n, g |-> FALSE]}
          /\ IF x.inside THEN n = x.n /\ t.files = s.files
             ELSE /\ ~Taken(s, n)
                  /\ ~Taken(s, x.n) => n = x.n
                  /\ t.files = s.files \cup {[d |-> "user", n |-> n, c |-> x.c]}
AddClauses(s, x, t, rc) ==
    (IF (rc = 0) # AddSucceeds(s, x) THEN {"exitcode"} ELSE {})
    \cup (IF rc # 0 /\ t # s THEN {"refused"} ELSE {})
    \cup (IF rc = 0 /\ AddSucceeds(s, x) /\ ~Added(s, x, t) THEN {"registration"} ELSE {})

(* ---------------------------------------------------------------- removal of a registration *)
RemoveClauses(s, x, t) ==
    IF t.files = s.files /\ t.var = s.var /\ t.reg = {r \in s.reg : ~(r.n = x.n /\ ~r.g)} THEN {} ELSE {"removal"}

(* ---------------------------------------------------------------- use *)
Order(s, x) == (IF x.alt THEN <<"alt">> ELSE << >>) \o (IF s.var = "ok" THEN <<"user">> ELSE << >>) \o <<"global">>
(* content of the file to use, or -1 *)
Chosen(s, x) ==
    IF Of(s, x.e) = {} THEN -1
    ELSE LET r == CHOOSE r \in Of(s, x.e) : TRUE
             o == Order(s, x)
             h == {i \in 1 .. 3 : IF i \in DOMAIN o THEN In(s, o[i], r.n) ELSE FALSE}
         IN IF h = {} THEN -1
            ELSE LET i == CHOOSE i \in h : \A j \in h : i <= j
                 IN (CHOOSE f \in s.files : f.d = o[i] /\ f.n = r.n).c
(* used: geopotential that the maps come from, 0: none, -1: no maps *)
CorrectClauses(s, x, t, rc, used) ==
    LET c == Chosen(s, x) IN
    (IF (rc = 0) # (c > 0) THEN {"exitcode"} ELSE {})
    \cup (IF rc = 0 /\ c > 0 /\ used # c THEN {"values"} ELSE {})
    \cup (IF rc # 0 /\ used # -1 THEN {"maps"} ELSE {})
    \cup (IF t # s THEN {"changed"} ELSE {})

(* ---------------------------------------------------------------- consistency; G: grid of each geopotential *)
Unique(s) == \A r, q \in s.reg : r # q => r.n # q.n /\ r.e # q.e
Right(s, G(_)) == \A r \in s.reg : \A f \in s.files : f.n = r.n => (IF f.c > 0 THEN G(f.c) = r.e ELSE FALSE)
StateClauses(s, G(_)) == (IF ~s.valid THEN {"configuration"} ELSE {})
                         \cup (IF ~Unique(s) THEN {"shared"} ELSE {})
                         \cup (IF ~Right(s, G) THEN {"content"} ELSE {})
============================================================================
