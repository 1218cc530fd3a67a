SPECIFICATION Spec
CONSTANTS
 Vals = {99,3,7}
 Zs = {0,99,20}
 Dems = {99,4}
 Forms = {1,2,3,4}
 Changes = {1,2,3}
 Two = {TRUE,FALSE}
INVARIANTS MissIff Formula RefusedIff
CHECK_DEADLOCK FALSE
