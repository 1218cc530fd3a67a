SPECIFICATION Spec
CONSTANTS
 NI = 3
 NJ = 2
 Values = {0, 2000000000}
 Step = 50
 Margin = 100
 Modes = {"nearest", "invdist", "bilinear"}
 Marker = TRUE
INVARIANTS Accepted OutOfRange Detected Determined Convex OnPoint Linearity
CHECK_DEADLOCK FALSE
