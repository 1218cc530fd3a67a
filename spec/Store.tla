------------------------------- MODULE Store -------------------------------
(* Interpolation tables: files in folders and their registrations in the configuration, as seen between executions.

   A state s of the installation:
     s.reg   : set of registrations [e, k, n, g]: identifier e, table of key k (source grid, target, method and options), file n,
               g: in the configuration common to all users
     s.files : set of files [d, n, c]: folder d ("user", "alt" or "global"), name n, content c: a key (complete table for it)
               or 0 (anything else)
     s.var   : the folder of tables of the user: "ok", "undefined" (no variable), "missing" (no such folder)
     s.valid : configuration files can be read
   An execution x = [k, create, alt]: key, creation of tables requested, alternative folder requested                   *)
EXTENDS Integers, FiniteSets

Of(s, k) == {r \in s.reg : r.k = k}
Names(s) == {r.n : r \in s.reg}
Main(x) == IF x.alt THEN "alt" ELSE "user"
Folders(s, x) == {"global"} \cup (IF x.alt THEN {"alt"} ELSE IF s.var = "ok" THEN {"user"} ELSE {})
Found(s, x) == \E r \in Of(s, x.k), d \in Folders(s, x) : \E f \in s.files : f.d = d /\ f.n = r.n
Succeeds(s, x) == Found(s, x) \/ (x.create /\ s.var = "ok")

(* creation of the table, giving state t *)
Created(s, x, t) ==
    /\ t.var = s.var
    /\ \E f \in t.files :
          /\ f.d = Main(x) /\ f.c = x.k
          /\ ~ \E g \in s.files : g.d = f.d /\ g.n = f.n
          /\ t.files = s.files \cup {f}
          /\ IF Of(s, x.k) # {}
             THEN t.reg = s.reg /\ \E r \in Of(s, x.k) : r.n = f.n
             ELSE /\ f.n \notin Names(s)
                  /\ \E r \in t.reg : /\ r.k = x.k /\ r.n = f.n /\ ~r.g
                                      /\ r \notin s.reg /\ t.reg = s.reg \cup {r}
                                      /\ ~ \E q \in s.reg : q.e = r.e

(* what is allowed to execution x from s to t, rc: exit code, right: maps are the ones of an execution with no tables,
   maps: number of maps written *)
ExecClauses(s, x, t, rc, right, maps) ==
    LET fails == ~Succeeds(s, x)
    IN (IF (rc = 0) # Succeeds(s, x) THEN {"exitcode"} ELSE {})
       \cup (IF rc = 0 /\ ~right THEN {"values"} ELSE {})
       \cup (IF rc # 0 /\ maps > 0 THEN {"maps"} ELSE {})
       \cup (IF rc # 0 /\ t # s THEN {"refused"} ELSE {})
       \cup (IF rc = 0 /\ Found(s, x) /\ t # s THEN {"reuse"} ELSE {})
       \cup (IF rc = 0 /\ ~Found(s, x) /\ ~Created(s, x, t) THEN {"creation"} ELSE {})
       \cup (IF ~t.valid THEN {"configuration"} ELSE {})

(* check of the configuration (-K): registrations of the user having no file in his folder are removed, nothing else *)
Checked(s) == {r \in s.reg : r.g \/ s.var = "undefined" \/ (s.var = "ok" /\ \E f \in s.files : f.d = "user" /\ f.n = r.n)}
CheckClauses(s, t, rc) == (IF rc # 0 THEN {"exitcode"} ELSE {})
                          \cup (IF t.files # s.files \/ t.reg # Checked(s) THEN {"checked"} ELSE {})

(* consistency of the store *)
Unique(s) == \A r, q \in s.reg : r # q => r.n # q.n /\ r.e # q.e /\ (r.k # q.k)
Right(s) == \A r \in s.reg : \A f \in s.files : f.n = r.n => f.c = r.k
Consistent(s) == s.valid /\ Unique(s) /\ Right(s)
StateClauses(s) == (IF ~s.valid THEN {"configuration"} ELSE {})
                   \cup (IF ~Unique(s) THEN {"shared"} ELSE {})
                   \cup (IF ~Right(s) THEN {"content"} ELSE {})
============================================================================
