SPECIFICATION Spec
INVARIANTS Refines Bounds
CONSTANTS MaxOps = 8
 Periods = {1, 2, 3}
