CONSTANT MaxSites = 9
INIT Init
NEXT Next
INVARIANTS WellFormed NeighborLaws BuiltinOffsets Metric Minimal MomentumLaws
CHECK_DEADLOCK FALSE
