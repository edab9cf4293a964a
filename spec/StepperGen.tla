----------------------------- MODULE StepperGen -----------------------------
(***************************************************************************)
(* Generates behaviours of Stepper to be replayed into the library.  The   *)
(* outcome of every attempt is chosen freely; the run ends when the step   *)
(* limit is reached or, in a fixed-step run, at the first failure.  The    *)
(* interval is far longer than all steps together, so that time plays no   *)
(* part: a behaviour is a configuration, a history of outcomes, and the    *)
(* state the specification ends in.  TLC enumerates all of them and prints *)
(* one line for each; the harness forces the same history on the library   *)
(* and RkTrace compares the end states.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxAcc, MaxRej

IPlus(a, b) == a + b
IMinus(a, b) == a - b
ILess(a, b) == a < b
S == INSTANCE Stepper WITH Plus <- IPlus, Minus <- IMinus, Less <- ILess, Zero <- 0

Configs ==
  [t0 : {0}, t1 : {1000000}, dt : {1}, maxdt : {1}, maxsteps : 0..MaxAcc,
   adaptive : BOOLEAN, implicit : BOOLEAN, oint : 1..3, store : BOOLEAN, stream : BOOLEAN]

VARIABLES cfg, s, hist
vars == <<cfg, s, hist>>

Init == /\ cfg \in Configs
        /\ s = S!Init0(cfg)
        /\ hist = ""

Rejections == s.rerr + s.rnew

Next ==
  \/ /\ S!Running(cfg, s)
     /\ \/ /\ s' = S!Accept(cfg, s, S!Target(cfg, s), 1)
           /\ hist' = hist \o "A"
        \/ /\ Rejections < MaxRej /\ ~cfg.implicit
           /\ s' = S!RejectErr(cfg, s, 1) /\ hist' = hist \o "E"
        \/ /\ Rejections < MaxRej /\ cfg.implicit
           /\ s' = S!RejectNewton(cfg, s, 1) /\ hist' = hist \o "N"
     /\ UNCHANGED cfg
  \/ /\ s.pc = "run" /\ ~S!Running(cfg, s)
     /\ s' = S!Stop(cfg, s)
     /\ UNCHANGED <<cfg, hist>>
  \/ /\ s.pc = "done"
     /\ PrintT("INFO|" \o ToJson([cfg |-> cfg, hist |-> hist, s |-> s]))
     /\ s' = [s EXCEPT !.pc = "printed"]
     /\ UNCHANGED <<cfg, hist>>
Spec == Init /\ [][Next]_vars
=============================================================================
