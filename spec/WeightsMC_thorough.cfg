SPECIFICATION Spec
CONSTANTS
 Directional = TRUE
 Side = 5
 Step = 40
 Margin = 120
 Refs = {110, 180, 260, 400}
 Ms = {2000, 6000}
 Ratios = {250, 333}
 Stations = {2, 4, 7}
INVARIANTS Normal OnPoint Reach Enough Symmetric Decreasing Meet Shielding
CHECK_DEADLOCK FALSE
