SPECIFICATION Spec
CONSTANTS Threads = {0, 1}
 Jobs = {1, 2}
 MaxCalls = 2
 Memory = "own"
INVARIANT Functional
INVARIANT OfTheJobAlone
