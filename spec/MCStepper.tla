------------------------------ MODULE MCStepper -----------------------------
(***************************************************************************)
(* Exhaustive exploration of Stepper on an integer time grid, for every    *)
(* configuration of a small box and every sequence of outcomes (accepted,  *)
(* error rejection, stage solver failure, non-finite result) and of step   *)
(* size proposals the controllers may make.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS TMax,      \* length of the interval
          MaxGrow    \* a step grows at most by this factor

IPlus(a, b) == a + b
IMinus(a, b) == a - b
ILess(a, b) == a < b
S == INSTANCE Stepper WITH Plus <- IPlus, Minus <- IMinus, Less <- ILess, Zero <- 0

Configs ==
  [t0 : {0}, t1 : 1..TMax, dt : 1..(TMax + 1), maxdt : {0, 1, 2}, maxsteps : {-1, 0, 1, 2, TMax},
   adaptive : BOOLEAN, implicit : BOOLEAN, oint : {1, 2, 3}, store : BOOLEAN, stream : BOOLEAN]

VARIABLES cfg, s, times
vars == <<cfg, s, times>>

Init == /\ cfg \in Configs
        /\ s = S!Init0(cfg)
        /\ times = <<cfg.t0>>        \* times of all accepted steps

NewDts(h) == 0..(MaxGrow * h)

DoAccept ==
  /\ S!Running(cfg, s)
  /\ LET h == S!Length(cfg, s)
         tn == S!Target(cfg, s) IN
     IF cfg.adaptive
     THEN \E d \in NewDts(h) :
            /\ S!GrowthLimited(cfg, h, S!Capped(cfg, d))
            /\ s' = S!Accept(cfg, s, tn, S!Capped(cfg, d))
            /\ times' = Append(times, tn)
     ELSE /\ s' = S!Accept(cfg, s, tn, h)
          /\ times' = Append(times, tn)
  /\ UNCHANGED cfg

DoReject ==
  /\ S!Running(cfg, s)
  /\ LET h == S!Length(cfg, s) IN
     \E d \in NewDts(h) :
       /\ S!Shrinks(cfg, h, d)
       /\ s' = S!RejectErr(cfg, s, d)
  /\ UNCHANGED <<cfg, times>>

DoNewton ==
  /\ S!Running(cfg, s)
  /\ cfg.implicit
  /\ LET h == S!Length(cfg, s) IN
     \E d \in NewDts(h) :
       /\ S!Shrinks(cfg, h, d)
       /\ s' = S!RejectNewton(cfg, s, d)
  /\ UNCHANGED <<cfg, times>>

DoStop ==
  /\ s.pc = "run"
  /\ ~S!Running(cfg, s)
  /\ s' = S!Stop(cfg, s)
  /\ UNCHANGED <<cfg, times>>

Next == DoAccept \/ DoReject \/ DoNewton \/ DoStop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* C01 *)
Interval ==
  /\ times[1] = cfg.t0
  /\ \A i \in 1..(Len(times) - 1) : times[i] < times[i + 1]
  /\ \A i \in 1..Len(times) : times[i] <= cfg.t1
  /\ times[Len(times)] = s.t
  /\ Len(times) = s.step + 1
(* C06 *)
Counters == S!Accounted(s) /\ S!Converged(cfg, s)
(* C07 *)
Limits ==
  /\ cfg.maxsteps >= 0 => s.step <= cfg.maxsteps
  /\ (cfg.maxdt > 0 => \A i \in 1..(Len(times) - 1) : times[i + 1] - times[i] <= cfg.maxdt)
  /\ (s.status = S!MAX_STEPS_EXCEEDED => s.step = cfg.maxsteps /\ s.t < cfg.t1)
(* C08 *)
Honest ==
  /\ (s.pc = "done" /\ s.status = S!SUCCESS) => s.t = cfg.t1
  /\ s.status # S!SUCCESS => s.pc = "done"
  /\ (s.pc = "done" /\ ~cfg.adaptive /\ s.rerr + s.rnew > 0) => s.status = S!GENERAL_ERROR
Terminates == <>(s.pc = "done")
(* C09 *)
Output ==
  /\ s.vec = <<0>> \o (IF cfg.store THEN [i \in 1..(s.step \div cfg.oint) |-> i * cfg.oint] ELSE <<>>)
  /\ s.file = IF cfg.stream THEN [i \in 1..(s.step \div cfg.oint) |-> i * cfg.oint] ELSE <<>>
(* C03/C04: a rejected attempt changes neither the time nor the record,    *)
(* and is followed by a strictly smaller one                               *)
RejectedIsInvisible ==
  [][ (s'.rerr + s'.rnew > s.rerr + s.rnew) =>
        /\ s'.t = s.t /\ times' = times /\ s'.vec = s.vec /\ s'.file = s.file
        /\ s'.dt < S!Length(cfg, s) ]_vars
=============================================================================
