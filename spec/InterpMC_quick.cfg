SPECIFICATION Spec
CONSTANTS
 NI = 3
 NJ = 2
 Values = {0, 10000, 2000000000}
 Step = 50
 Margin = 50
 Modes = {"nearest", "invdist", "bilinear"}
 Marker = FALSE
INVARIANTS Accepted OutOfRange Detected Determined Convex OnPoint Linearity
CHECK_DEADLOCK FALSE
