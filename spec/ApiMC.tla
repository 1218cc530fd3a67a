------------------------------ MODULE ApiMC ------------------------------
(* Two interfaces for the same values: the command line writes maps in order of step as it computes them (cells out of the clone and
   missing cells are not written); the API fills a dictionary step by step, in the order of computation, and orders it at the end.
   Values may be equal to the missing value of the clone. *)
EXTENDS Api, TLC
CONSTANTS Steps, Cells, Data, Mv, Ordered, Masks
VARIABLES input, clone, todo, out, dict
vars == <<input, clone, todo, out, dict>>
NOVALUE == 999
Init == /\ input \in [Steps -> [Cells -> Data \cup {NOVALUE}]]
        /\ clone \in [Cells -> BOOLEAN]
        /\ todo \in {q \in [1 .. Cardinality(Steps) -> Steps] : \A a, b \in DOMAIN q : q[a] = q[b] => a = b}
        /\ out = {} /\ dict = << >>
Filled(v) == [c \in Cells |-> IF v[c] = NOVALUE \/ (Masks /\ ~clone[c]) THEN Mv ELSE v[c]]
Step == /\ todo # << >>
        /\ out' = out \cup {Head(todo)}
        /\ dict' = Append(dict, [e |-> Head(todo), v |-> Filled(input[Head(todo)])])
        /\ todo' = Tail(todo) /\ UNCHANGED <<input, clone>>
Spec == Init /\ [][Step]_vars
RECURSIVE Sorted(_)
Sorted(q) == IF q = << >> THEN << >>
             ELSE LET m == CHOOSE k \in 1 .. Len(q) : \A j \in 1 .. Len(q) : q[k].e <= q[j].e
                  IN <<q[m]>> \o Sorted(SubSeq(q, 1, m - 1) \o SubSeq(q, m + 1, Len(q)))
Api == LET q == IF Ordered THEN Sorted(dict) ELSE dict
       IN [rc |-> 0, wrote |-> FALSE, empty |-> FALSE, maps |-> [k \in 1 .. Len(q) |-> [e |-> q[k].e, cells |-> [c \in Cells |-> IF q[k].v[c] = Mv THEN MISS ELSE q[k].v[c]]]]]
RECURSIVE Written(_)
Written(S) == IF S = {} THEN << >>
              ELSE LET s == CHOOSE s \in S : \A t \in S : s <= t
                   IN <<[e |-> s, cells |-> [c \in Cells |-> IF input[s][c] = NOVALUE \/ ~clone[c] THEN MISS ELSE input[s][c]]]>> \o Written(S \ {s})
Cli == [rc |-> 0, maps |-> Written(out)]
(* the same unless data has the missing value itself *)
Inv == (Mv \notin Data) => ApiClauses(Cli, Api, 0) = {}
==========================================================================
