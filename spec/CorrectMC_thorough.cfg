SPECIFICATION Spec
CONSTANTS
 Vals = {99,3,7,11}
 Zs = {0,99,20,35}
 Dems = {99,4,9}
 Forms = {1,2,3,4}
 Changes = {1,2,3}
 Two = {TRUE,FALSE}
INVARIANTS MissIff Formula RefusedIff
CHECK_DEADLOCK FALSE
