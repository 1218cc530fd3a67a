SPECIFICATION Spec
CONSTANTS
 Directional = FALSE
 Side = 5
 Step = 100
 Margin = 0
 Refs = {180}
 Ms = {4000}
 Ratios = {333}
 Stations = {4}
INVARIANTS Normal OnPoint Reach Enough Symmetric Decreasing Meet Shielding
CHECK_DEADLOCK FALSE
