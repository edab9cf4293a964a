SPECIFICATION GSpec
CONSTANTS Threads = {0, 1, 2}
 Jobs = {1, 2, 3, 4, 5, 6}
 MaxCalls = 4
 MaxTurns = 24
 Memory = "own"
