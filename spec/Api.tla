-------------------------------- MODULE Api --------------------------------
(* The same configuration executed with the command line and with the Python API.
   cli: [rc, maps: sequence of [e: end step, cells]]    api: [rc, maps, wrote: files were written, empty: it returned no maps]
   Cells are integers (fixed point); MISS: missing (for the API: exactly the missing value of the clone map) *)
EXTENDS Integers, Sequences, FiniteSets
MISS == 2000000000
Abs(x) == IF x < 0 THEN -x ELSE x
Same(a, b, tol) == IF a = MISS \/ b = MISS THEN a = b ELSE Abs(a - b) <= tol
ApiClauses(cli, api, tol) ==
    (* (no window to make maps of: not specified) *)
    (IF cli.rc = api.rc \/ (api.empty /\ cli.maps = << >>) THEN {} ELSE {"exitcode"})
    \cup (IF api.wrote THEN {"written"} ELSE {})
    \cup (IF Len(cli.maps) # Len(api.maps) THEN {"count"}
          ELSE UNION {(IF cli.maps[k].e \notin {-1, api.maps[k].e} THEN {"order"} ELSE {})
                      \cup IF Len(cli.maps[k].cells) # Len(api.maps[k].cells) THEN {"shape"}
                           ELSE UNION {IF Same(cli.maps[k].cells[c], api.maps[k].cells[c], tol) THEN {}
                                       ELSE IF MISS \in {cli.maps[k].cells[c], api.maps[k].cells[c]} THEN {"missing"} ELSE {"values"}
                                       : c \in 1 .. Len(cli.maps[k].cells)}
                      : k \in 1 .. Len(cli.maps)})
============================================================================
