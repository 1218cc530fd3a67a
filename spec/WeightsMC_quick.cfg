SPECIFICATION Spec
CONSTANTS
 Directional = TRUE
 Side = 5
 Step = 60
 Margin = 60
 Refs = {130, 220}
 Ms = {4000}
 Ratios = {333, 500}
 Stations = {3}
INVARIANTS Normal OnPoint Reach Enough Symmetric Decreasing Meet Shielding
CHECK_DEADLOCK FALSE
