CONSTANTS
  Values = {1, 2}
  Depth = 4
  Changed = {"configuration", "parameters", "coordinates", "source", "mode", "options", "tables", "dem", "geopotential", "formula", "output"}
  Lacking = {"options"}
  Kept = {"folders", "definition", "target", "table", "elevation", "geopotential"}
SPECIFICATION Spec
VIEW View
INVARIANTS SameAsNew CacheRight
CHECK_DEADLOCK FALSE
