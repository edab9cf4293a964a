---------------------------- MODULE StepperProof ----------------------------
(***************************************************************************)
(* Stepper for every interval, step, limit and number of steps: inductive  *)
(* invariants, checked by Apalache (SMT) for arbitrary integers, where     *)
(* MCStepper enumerates a box.  With IndInit, an arbitrary state that      *)
(* satisfies the invariant, one action is taken:                           *)
(*   Init    => IndInv           IndInit /\ Next => IndInv'                *)
(*   IndInit /\ Next => Invisible /\ Variant                               *)
(*   OutInit /\ Next => OutInv'  (output intervals up to 6 and as many     *)
(*                               records as Gen makes; steps unbounded)    *)
(* Variant: every action ends the run, moves the time towards t1 or makes  *)
(* the length of the next attempt smaller; on a grid (of integers, or of   *)
(* the floating-point numbers) none of these can go on for ever, so every  *)
(* run ends.  Never is violated, which shows that IndInit is not empty.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Apalache

IPlus(a, b) == a + b
IMinus(a, b) == a - b
ILess(a, b) == a < b
S == INSTANCE Stepper WITH Plus <- IPlus, Minus <- IMinus, Less <- ILess, Zero <- 0

VARIABLES
  \* @type: $cfg;
  cfg,
  \* @type: $state;
  s,
  \* @type: Int;
  prev

Sane == 
  /\ cfg.t0 < cfg.t1 /\ cfg.dt > 0 /\ cfg.oint > 0

Init == 
  /\ cfg \in [t0: Int, t1: Int, dt: Int, maxdt: Int, maxsteps: Int, adaptive: BOOLEAN, implicit: BOOLEAN, oint: Int, store: BOOLEAN, stream: BOOLEAN, progress: Int]
  /\ Sane
  /\ s = S!Init0(cfg)
  /\ prev = cfg.t0

DoAccept ==
  /\ S!Running(cfg, s)
  /\ LET h == S!Length(cfg, s)
         tn == S!Target(cfg, s) IN
     /\ prev' = s.t
     /\ IF cfg.adaptive
        THEN \E d \in Int :
            /\ S!GrowthLimited(cfg, h, S!Capped(cfg, d))
            /\ s' = S!Accept(cfg, s, tn, S!Capped(cfg, d))
        ELSE s' = S!Accept(cfg, s, tn, h)
  /\ UNCHANGED cfg
DoReject ==
  /\ S!Running(cfg, s)
  /\ LET h == S!Length(cfg, s) IN
     \E d \in Int :
       /\ d >= 0
       /\ S!Shrinks(cfg, h, d)
       /\ s' = S!RejectErr(cfg, s, d)
  /\ UNCHANGED <<cfg, prev>>
DoNewton ==
  /\ S!Running(cfg, s)
  /\ cfg.implicit
  /\ LET h == S!Length(cfg, s) IN
     \E d \in Int :
       /\ d >= 0
       /\ S!Shrinks(cfg, h, d)
       /\ s' = S!RejectNewton(cfg, s, d)
  /\ UNCHANGED <<cfg, prev>>
DoStop ==
  /\ s.pc = "run"
  /\ ~S!Running(cfg, s)
  /\ s' = S!Stop(cfg, s)
  /\ UNCHANGED <<cfg, prev>>
Next == DoAccept \/ DoReject \/ DoNewton \/ DoStop

Interval ==
  /\ cfg.t0 <= s.t /\ s.t <= cfg.t1
  /\ IF s.step = 0 THEN s.t = cfg.t0 ELSE prev < s.t /\ cfg.t0 <= prev
Counters == S!Accounted(s) /\ S!Converged(cfg, s)
Limits ==
  /\ cfg.maxsteps >= 0 => s.step <= cfg.maxsteps
  /\ (cfg.maxdt > 0 => s.t - prev <= cfg.maxdt)
  /\ (s.status = S!MAX_STEPS_EXCEEDED => s.step = cfg.maxsteps /\ s.t < cfg.t1)
Honest ==
  /\ (s.pc = "done" /\ s.status = S!SUCCESS) => s.t = cfg.t1
  /\ s.status # S!SUCCESS => s.pc = "done"
  /\ (s.pc = "done" /\ ~cfg.adaptive /\ s.rerr + s.rnew > 0) => s.status = S!GENERAL_ERROR
Aux ==
  /\ s.pc \in {"run", "done"}
  /\ s.status \in {S!SUCCESS, S!GENERAL_ERROR, S!MAX_STEPS_EXCEEDED}
  /\ s.step >= 0 /\ s.rerr >= 0 /\ s.rnew >= 0 /\ s.nsucc >= 0
  /\ (cfg.maxdt > 0 => s.dt <= cfg.maxdt)
  /\ s.dt >= 0
  /\ (~cfg.adaptive /\ s.pc = "run") => s.rerr + s.rnew = 0
  /\ prev <= s.t
  /\ s.step = 0 => prev = s.t
(* what is recorded: every oint-th step, in order *)
\* @type: (Seq(Int), Int, Bool) => Bool;
Every(q, first, on) ==
  IF on
  THEN /\ Len(q) = s.step \div cfg.oint + 1 - first
       /\ \A i \in DOMAIN q : q[i] = (i - 1 + first) * cfg.oint
  ELSE Len(q) = 1 - first /\ \A i \in DOMAIN q : q[i] = 0
Output == Every(s.vec, 0, cfg.store) /\ Every(s.file, 1, cfg.stream)
Inv == Interval /\ Counters /\ Limits /\ Honest
IndInv == Sane /\ Inv /\ Aux
OutInv == cfg.oint \in 1..6 /\ IndInv /\ Output
OutInv0 == cfg.oint \in 1..6 => OutInv
(* action invariants *)
Invisible ==
  (s'.rerr + s'.rnew > s.rerr + s.rnew) =>
     /\ s'.t = s.t /\ prev' = prev /\ s'.vec = s.vec /\ s'.file = s.file /\ s'.step = s.step
     /\ s'.dt < S!Length(cfg, s)
     /\ s.pc = "run"
(* every action comes closer to the end of the run *)
Variant ==
  \/ s.pc = "run" /\ s'.pc = "done"
  \/ s.pc = "run" /\ s'.t > s.t /\ s'.t <= cfg.t1
  \/ /\ s.pc = "run" /\ s'.t = s.t
     /\ S!Length(cfg, s') < S!Length(cfg, s) /\ S!Length(cfg, s') >= 0
Never == s.step < 7
IndInit ==
  /\ cfg \in [t0: Int, t1: Int, dt: Int, maxdt: Int, maxsteps: Int, adaptive: BOOLEAN, implicit: BOOLEAN, oint: Int, store: BOOLEAN, stream: BOOLEAN, progress: Int]
  /\ s = Gen(3)
  /\ prev \in Int
  /\ IndInv
OutInit ==
  /\ cfg \in [t0: Int, t1: Int, dt: Int, maxdt: Int, maxsteps: Int, adaptive: BOOLEAN, implicit: BOOLEAN, oint: 1..6, store: BOOLEAN, stream: BOOLEAN, progress: Int]
  /\ s = Gen(8)
  /\ prev \in Int
  /\ OutInv
=============================================================================
