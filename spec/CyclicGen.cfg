SPECIFICATION Spec
CONSTANTS MaxOps = 24
 Periods = {1, 2, 3, 4, 6}
