------------------------------ MODULE Stepper ------------------------------
(***************************************************************************)
(* The control state of a Runge-Kutta integration: which steps are         *)
(* attempted, what an attempt does to the time, the step size, the         *)
(* counters and the recorded trajectory, and when and how a run stops.     *)
(* It is independent of the formulas of the method and of the arithmetic:  *)
(* MCStepper instantiates it with integers and explores it exhaustively,   *)
(* RkTrace instantiates it with the reals of Num and replays the runs of   *)
(* the library through the same actions.                                   *)
(*                                                                         *)
(* Everything is a function of a configuration and a state, both records:  *)
(*  cfg.t0 t1      interval                cfg.dt      requested step      *)
(*  cfg.maxdt      largest step (Zero: no limit)                           *)
(*  cfg.maxsteps   step limit (negative: none)                             *)
(*  cfg.adaptive   cfg.implicit            cfg.oint    output interval     *)
(*  cfg.store      record in vectors       cfg.stream  write to a stream   *)
(*  s.t s.dt       time, step size of the next attempt                     *)
(*  s.step s.att   accepted steps, attempts                                *)
(*  s.rerr s.rnew  attempts rejected for their error / their stage solver  *)
(*  s.nsucc        converged stage solves                                  *)
(*  s.vec s.file   step numbers recorded in the vectors / in the stream    *)
(*  s.pc           "run" or "done"         s.status    as in enums.hpp     *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS
  \* @type: ($time, $time) => $time;
  Plus(_, _),
  \* @type: ($time, $time) => $time;
  Minus(_, _),
  \* @type: ($time, $time) => Bool;
  Less(_, _),
  \* @type: $time;
  Zero

(* (the types are those of StepperProof; to TLC they are comments)         *)
\* @typeAlias: time = Int;
\* @typeAlias: cfg = {t0: Int, t1: Int, dt: Int, maxdt: Int, maxsteps: Int, adaptive: Bool, implicit: Bool, oint: Int, store: Bool, stream: Bool, progress: Int};
\* @typeAlias: state = {t: Int, dt: Int, step: Int, att: Int, rerr: Int, rnew: Int, nsucc: Int, vec: Seq(Int), file: Seq(Int), pc: Str, status: Int};
Stepper_aliases == TRUE

SUCCESS == 0
GENERAL_ERROR == 4
MAX_STEPS_EXCEEDED == 128

\* @type: ($time, $time) => Bool;
Leq(a, b) == ~Less(b, a)
\* @type: ($time, $time) => $time;
Least(a, b) == IF Less(b, a) THEN b ELSE a

\* @type: ($cfg, $time) => $time;
Capped(cfg, d) == IF Less(Zero, cfg.maxdt) THEN Least(d, cfg.maxdt) ELSE d
\* @type: $cfg => $time;
FirstDt(cfg) ==
  Capped(cfg, IF Less(cfg.t1, Plus(cfg.t0, cfg.dt)) THEN Minus(cfg.t1, cfg.t0) ELSE cfg.dt)

\* @type: $cfg => $state;
Init0(cfg) ==
  [t |-> cfg.t0, dt |-> FirstDt(cfg), step |-> 0, att |-> 0, rerr |-> 0,
   rnew |-> 0, nsucc |-> 0, vec |-> <<0>>, file |-> <<>>,
   pc |-> "run", status |-> SUCCESS]

(* the attempt from s reaches the end of the interval *)
\* @type: ($cfg, $state) => Bool;
IsLast(cfg, s) == Leq(cfg.t1, Plus(s.t, s.dt))
(* length and end point of the attempt from s *)
\* @type: ($cfg, $state) => $time;
Length(cfg, s) == IF IsLast(cfg, s) THEN Minus(cfg.t1, s.t) ELSE s.dt
\* @type: ($cfg, $state) => $time;
Target(cfg, s) == IF IsLast(cfg, s) THEN cfg.t1 ELSE Plus(s.t, s.dt)

\* @type: ($cfg, $state) => Bool;
AtEnd(cfg, s)     == ~Less(s.t, cfg.t1)
\* @type: ($cfg, $state) => Bool;
LimitHit(cfg, s)  == cfg.maxsteps >= 0 /\ s.step >= cfg.maxsteps
\* @type: ($cfg, $state) => Bool;
Vanished(cfg, s)  == ~Less(s.t, Plus(s.t, Length(cfg, s)))

\* @type: ($cfg, $state) => Bool;
Running(cfg, s) == s.pc = "run" /\ ~AtEnd(cfg, s) /\ ~LimitHit(cfg, s) /\ ~Vanished(cfg, s)

(* The reason to stop, in the order in which they are looked at. *)
\* @type: ($cfg, $state) => Int;
StopStatus(cfg, s) ==
  IF AtEnd(cfg, s) THEN SUCCESS
  ELSE IF LimitHit(cfg, s) THEN MAX_STEPS_EXCEEDED
  ELSE GENERAL_ERROR
\* @type: ($cfg, $state) => $state;
Stop(cfg, s) == [s EXCEPT !.pc = "done", !.status = StopStatus(cfg, s)]

(* What is recorded after accepted step number k. *)
\* @type: ($cfg, Int) => Bool;
Recorded(cfg, k) == k % cfg.oint = 0

(* Progress is reported of every attempt whose stages are known, made when *)
(* the number k of accepted steps is a multiple of the progress interval.  *)
\* @type: ($cfg, Int) => Bool;
Reported(cfg, k) == cfg.progress > 0 /\ k % cfg.progress = 0

(* An attempt succeeds and the integration proceeds to time tnew with the  *)
(* proposal newdt for the next step.                                       *)
\* @type: ($cfg, $state, $time, $time) => $state;
Accept(cfg, s, tnew, newdt) ==
  LET k == s.step + 1
      rec == Recorded(cfg, k) IN
  [s EXCEPT !.t = tnew, !.dt = newdt, !.step = k, !.att = @ + 1,
            !.nsucc = IF cfg.implicit THEN @ + 1 ELSE @,
            !.vec  = IF cfg.store /\ rec THEN Append(@, k) ELSE @,
            !.file = IF cfg.stream /\ rec THEN Append(@, k) ELSE @]

(* An attempt is rejected because of its error estimate or because its     *)
(* result is not finite.  Without step size control that ends the run.     *)
\* @type: ($cfg, $state, $time) => $state;
RejectErr(cfg, s, newdt) ==
  [s EXCEPT !.dt = newdt, !.att = @ + 1, !.rerr = @ + 1,
            !.nsucc = IF cfg.implicit THEN @ + 1 ELSE @,
            !.pc = IF cfg.adaptive THEN @ ELSE "done",
            !.status = IF cfg.adaptive THEN @ ELSE GENERAL_ERROR]

(* The stage equations of an implicit method were not solved.              *)
\* @type: ($cfg, $state, $time) => $state;
RejectNewton(cfg, s, newdt) ==
  [s EXCEPT !.dt = newdt, !.att = @ + 1, !.rnew = @ + 1,
            !.pc = IF cfg.adaptive THEN @ ELSE "done",
            !.status = IF cfg.adaptive THEN @ ELSE GENERAL_ERROR]

(* Proposals for the next step size. *)
\* @type: ($cfg, $time, $time) => Bool;
GrowthLimited(cfg, h, newdt) ==     \* after an accepted attempt of length h
  /\ Less(Zero, newdt)
  /\ (Less(Zero, cfg.maxdt) => Leq(newdt, cfg.maxdt))
\* @type: ($cfg, $time, $time) => Bool;
Shrinks(cfg, h, newdt) == Less(newdt, h)      \* after a rejected one

(* --------------------------------------------------------- accounting -- *)
\* @type: $state => Bool;
Accounted(s) ==
  /\ s.att = s.step + s.rerr + s.rnew
\* @type: ($cfg, $state) => Bool;
Converged(cfg, s) == cfg.implicit => s.nsucc = s.step + s.rerr
=============================================================================
