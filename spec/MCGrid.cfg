SPECIFICATION Spec
CONSTANTS NZ = 5
 NR = 6
INVARIANTS Conserved Local Centroid Nothing GatherLinear GatherOdd Axis ResampleLinear
CHECK_DEADLOCK FALSE
