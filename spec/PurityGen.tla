----------------------------- MODULE PurityGen ------------------------------
(* Random sessions of Purity (TLC -simulate): the jobs of every thread and *)
(* the order in which the threads get their turns, for the harness to      *)
(* replay with the real library.                                           *)
EXTENDS Purity, TLC, Integers
CONSTANT MaxTurns
VARIABLES turns, calls, len
gvars == <<mem, at, log, turns, calls, len>>
GInit == /\ Init
         /\ turns = "" /\ len = 0
         /\ calls = [th \in Threads |-> ""]
Cat(s, x) == IF s = "" THEN x ELSE s \o "," \o x
GNext ==
  \/ /\ len < MaxTurns
     /\ \E th \in Threads :
          /\ \/ Step(th) /\ UNCHANGED calls
             \/ \E j \in Jobs : Begin(th, j) /\ calls' = [calls EXCEPT ![th] = Cat(@, ToString(j))]
          /\ turns' = Cat(turns, ToString(th))
     /\ len' = len + 1
  \/ /\ len < MaxTurns + 1 /\ (len = MaxTurns \/ \A th \in Threads : at[th].k = 0 /\ at[th].n = MaxCalls)
     /\ PrintT("INFO|" \o calls[0] \o "|" \o calls[1] \o "|" \o calls[2] \o "|" \o turns)
     /\ len' = MaxTurns + 1
     /\ UNCHANGED <<mem, at, log, turns, calls>>
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
