SPECIFICATION Spec
CONSTANTS
 NI = 2
 NJ = 3
 Values = {0, 10000, 2000000000}
 Step = 25
 Margin = 250
 Modes = {"nearest", "invdist", "bilinear"}
 Marker = FALSE
INVARIANTS Accepted OutOfRange Detected Determined Convex OnPoint Linearity
CHECK_DEADLOCK FALSE
