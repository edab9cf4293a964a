SPECIFICATION Spec
CONSTANTS TMax = 3
          MaxGrow = 2
INVARIANTS Interval Counters Limits Honest Output
PROPERTIES Terminates RejectedIsInvisible
