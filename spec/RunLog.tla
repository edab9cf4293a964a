------------------------------- MODULE RunLog -------------------------------
(***************************************************************************)
(* What an integration announces, the reason it gives when it stops before *)
(* the end, and the wall time it reports.  The reason is a function of how *)
(* the abstract machine (Stepper) ended: StopMaxSteps, StopVanished, or    *)
(* FailFixed because of the stage iteration or of a non-finite state.      *)
(* Time is that of a simulated clock which only evaluations of f and of    *)
(* its Jacobian advance.                                                   *)
(***************************************************************************)
EXTENDS Tableau, Json, IOUtils, FiniteSets

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
Check == IOEnv.CHECK

VARIABLES ti, i
vars == <<ti, i>>
tr == Traces[ti]
cfg == tr.cfg
res == tr.res
msg == tr.msg

Say(clause, detail) ==
  PrintT("VIOL|" \o tr.id \o "|" \o ToString(i) \o "|" \o clause \o "|" \o detail)
Require(name, holds, detail) == IF holds THEN TRUE ELSE Say(name, detail)

Rk == cfg.what \in {"erk", "irk"}
Embedded ==
  CASE cfg.what = "erk" -> ErkTab[cfg.method].order2 > 0
    [] cfg.what = "irk" -> IrkOrders[cfg.method][2] > 0
    [] OTHER -> FALSE
Adaptive == cfg.adaptive /\ Embedded
Supported == Rk \/ (cfg.order >= 1 /\ cfg.order <= (IF cfg.what = "ab" THEN 5 ELSE 6))
\* where explicit and multistep methods, and where implicit ones write
Main == IF cfg.what = "irk" THEN "cout" ELSE "cerr"

Name == CASE cfg.what = "erk" -> ErkNames[cfg.method]
          [] cfg.what = "irk" -> IrkNames[cfg.method]
          [] cfg.what = "ab"  -> "Adams-Bashforth"
          [] OTHER -> "BDF-" \o ToString(cfg.order)

\* the messages of the run itself (multistep methods start with implicit runs,
\* which write to the standard output)
Own(q) == SelectSeq(q, LAMBDA x : Rk \/ x.w = "cerr")

-----------------------------------------------------------------------------
(* C32 *)
Ulp == RMul("4e-16", RMax(RAbs(cfg.t0), RMax(RAbs(cfg.t1), RAbs(cfg.dt))))
Over == RSub(RAdd(cfg.t0, cfg.dt), cfg.t1)       \* how far the first step reaches beyond the end
Same(x, y) == RNear(x, y, RMul("1e-15", RAbs(y)))

Announce ==
  LET a == Own(msg.ann)  m == Own(msg.meth) IN
  /\ Require("the interval is announced once",
       IF Supported THEN Len(a) = 1 /\ a[1].w = Main /\ Same(a[1].a, cfg.t0) /\ Same(a[1].b, cfg.t1)
       ELSE Len(a) = 0, ToString(a))
  /\ Require("the method is announced once",
       IF Supported THEN Len(m) = 1 /\ m[1].w = Main /\ m[1].name = Name ELSE Len(m) = 0, ToString(m))
\* the step asked for may be cut to the largest allowed first: then there is
\* nothing to announce unless that one is too large as well
First == IF RGt(cfg.maxdt, "0") THEN RMin(cfg.dt, cfg.maxdt) ELSE cfg.dt
OverFirst == RSub(RAdd(cfg.t0, First), cfg.t1)
Shortened ==
  LET r == Own(msg.red) IN
  /\ Require("a first step beyond the end is announced",
       (Supported /\ RGt(OverFirst, Ulp)) => Len(r) = 1, ToString(r) \o " " \o RShow(Over))
  /\ Require("no other step is announced as too large, and none twice",
       Len(r) <= (IF ~Supported \/ RLt(Over, RNeg(Ulp)) THEN 0 ELSE 1), ToString(r))
  /\ Require("the announcement gives the step asked for and the step taken",
       \A k \in 1..Len(r) : /\ r[k].w = Main /\ (Same(r[k].a, cfg.dt) \/ Same(r[k].a, First))
                            /\ \/ RNear(r[k].b, RSub(cfg.t1, cfg.t0), RMul("4", Ulp))
                               \/ RLt(OverFirst, Ulp) /\ Same(r[k].b, First), ToString(r))
Warned ==
  Require("a method without error estimate is announced exactly when steps were to be adaptive",
    Rk => Len(msg.warn) = (IF cfg.adaptive /\ ~Embedded THEN 1 ELSE 0), ToString(msg.warn))

RkReason ==
  CASE res.status = 0 -> {}
    [] res.status = 128 -> {"steps"}
    [] Adaptive -> {"small"}
    [] res.nrej > 0 -> {"newton"}
    [] res.rerr > 0 -> {"nonfinite"}
    [] OTHER -> {"small"}
MsReasons ==       \* the reasons there can be
  CASE res.status = 0 -> {{}}
    [] ~Supported -> {{"order"}}
    [] res.status = 16 -> {{"bdf"}}
    [] cfg.what = "ab" -> {{"startup"}, {"nonfinite"}}
    [] OTHER -> {{"startup"}}
Reasons ==
  LET w == Own(msg.why)  R == {w[k].r : k \in 1..Len(w)} IN
  /\ Require("the reason for stopping is given",
       IF Rk THEN R = RkReason ELSE R \in MsReasons, ToString(w) \o " " \o ToString(res.status))
  /\ Require("the limit of steps is the reason only when that many were taken",
       Rk => (("steps" \in R) =>
         /\ cfg.maxsteps >= 0
         /\ res.att - res.rerr - (IF cfg.what = "irk" THEN res.nrej ELSE 0) = cfg.maxsteps), ToString(res.att))
  /\ Require("it is given once", Len(w) = Cardinality(R) /\ \A k \in 1..Len(w) : w[k].w = Main, ToString(w))
Messages ==
  /\ Announce /\ Shortened /\ Warned /\ Reasons
  /\ Require("nothing else is announced", Rk => Len(msg.other) = 0, ToString(msg.other))

-----------------------------------------------------------------------------
(* C33 *)
Ms(us) == RDiv(us, "1000")
Tf == Ms(RMul(RInt(res.nf), cfg.clkf))        \* time in f, in ms
Tj == Ms(RMul(RInt(res.nj), cfg.clkj))        \* time in the Jacobian
To == Ms(RMul(RInt(res.lines), cfg.clko))     \* time of writing to the stream
Elapsed == RAdd(Tf, Tj)
TabOk == /\ Len(msg.tab) = 1 /\ msg.tab[1].w = "cerr" /\ msg.tab[1].name = Name
         /\ Len(msg.rows) = 7 /\ \A k \in 1..7 : msg.rows[k].k = k
Factor == IF msg.tab[1].unit = "s" THEN "1000" ELSE "1"
Entry(k) == RMul(Factor, msg.rows[k].v)
Three(x) == RMul("6e-3", RAbs(x))             \* three digits are printed
\* evaluations outside the stage iteration: at most two, and the stages once
\* more where the matrix is singular, for every converged attempt
Beside == res.nsucc * (2 + Len(Tab("irk", cfg.method).b))
Table ==
  /\ Require("a table of timings exactly when asked for",
       IF cfg.timeint /\ cfg.what = "irk" THEN TabOk ELSE Len(msg.tab) = 0 /\ Len(msg.rows) = 0, ToString(msg.tab))
  /\ IF Len(msg.tab) # 1 \/ ~TabOk THEN TRUE ELSE
     /\ Require("the total is the time of all evaluations, each counted once",
          RNear(Entry(1), Elapsed, Three(Elapsed)), RShow(Entry(1)) \o " " \o RShow(Elapsed))
     /\ Require("the entries add up to the total",
          LET sum == RSum([k \in 1..6 |-> Entry(k + 1)]) IN RNear(sum, Elapsed, Three(Elapsed)), ToString(msg.rows))
     /\ Require("Jacobians and stage evaluations are stage updates",
          /\ RGe(RAdd(Entry(3), Three(Elapsed)),
                 RAdd(Tj, Ms(RMul(RInt(IF res.nf > Beside THEN res.nf - Beside ELSE 0), cfg.clkf))))
          /\ RLe(Entry(3), RAdd(Elapsed, Three(Elapsed))), ToString(msg.rows[3]))
     /\ Require("setting up, storing and choosing the step evaluate nothing",
          RSame(Entry(2), "0") /\ RSame(Entry(5), "0") /\ RSame(Entry(7), "0"), ToString(msg.rows))
     /\ Require("seconds from one second on",
          (RGt(Elapsed, "1000.001") => Factor = "1000") /\ (RLt(Elapsed, "999.999") => Factor = "1"), msg.tab[1].unit)
Times ==
  /\ Require("the elapsed time is that between call and return",
       LET e == RAdd(Elapsed, To) IN RNear(res.elapsed, e, RAdd("1e-9", RMul("1e-12", e))),
       RShow(res.elapsed) \o " " \o RShow(RAdd(Elapsed, To)))
  /\ cfg.clko = "0" => Table

-----------------------------------------------------------------------------
Init == ti \in 1..Len(Traces) /\ i = 0
Next == /\ i = 0
        /\ IF res.end # "ok" THEN Say("the call returns", res.end)
           ELSE IF Check = "C32" THEN Messages ELSE Times
        /\ i' = 1
        /\ UNCHANGED ti
Spec == Init /\ [][Next]_vars
=============================================================================
