SPECIFICATION Spec
INVARIANTS Refines Bounds
CONSTANTS MaxOps = 6
 Periods = {1, 2, 3}
