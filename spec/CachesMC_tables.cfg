CONSTANTS
  Values = {1, 2}
  Depth = 4
  Changed = {"configuration", "parameters", "coordinates", "source", "mode", "options", "tables", "dem", "geopotential", "formula", "output"}
  Lacking = {"tables"}
  Kept = {"table"}
SPECIFICATION Spec
VIEW View
INVARIANTS SameAsNew CacheRight
CHECK_DEADLOCK FALSE
