SPECIFICATION Spec
CONSTANTS Threads = {0, 1}
 Jobs = {1, 2}
 MaxCalls = 2
 Memory = "static"
INVARIANT Functional
INVARIANT OfTheJobAlone
